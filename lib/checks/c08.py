import json, os, random
from vlib import *


def run(ctx):
    q = ctx.quick

    def one(big):
        b = 'TRUE' if big else 'FALSE'
        tag = 'k34' if big else 'k32'
        vec = ctx.path('vec_%s.ndjson' % tag)
        r = {}

        def gen():
            ctx.tlc('CodecGen', constants={'BIG': b, 'NRAND': 60 if q else 400, 'PAIRS': 'FALSE' if q else 'TRUE'}, env={'OUT': vec}, workers=1,
                    expect_ok=True, timeout=850, heap='6g')

        def bld():
            r['exe'] = ctx.cxx('codec_' + tag, [os.path.join(HARN, 'codec.cpp')], flags='-g -fno-strict-aliasing ' + ('-DCHIA_K34' if big else ''))
        parallel([gen, bld])
        ls = open(vec).read().splitlines()
        random.Random(ctx.seed).shuffle(ls)
        ls.sort(key=lambda l: json.loads(l)['t'])      # same types together, random neighbours
        out = ctx.path('case_%s.ndjson' % tag)
        ctx.harness([r['exe'], out], inp=('\n'.join(ls) + '\n').encode())
        n = sum(1 for _ in open(out))
        rr = ctx.tlc_confirm('CodecTrace', constants={'BIG': b}, env={'TRACES': out}, invariants=['Lossless'], workers=4, heap='8g')
        cases = open(out).read().splitlines()
        ctx.add('vectors', len(ls))
        ctx.add('traces_validated_against_impl', n)
        d = json.loads(cases[n // 2])
        ctx.sample({'build': tag, 'type': d['t'], 'in': d['in'][0], 'out': d['out'][0]})
        if not rr['ok']:
            m = re.findall(r'c = (\d+)', rr['out'])
            bad = cases[int(m[-1]) - 1] if m else ''
            f = ctx.path('bad_%s.json' % tag)
            open(f, 'w').write(bad)
            ctx.violation('record encoding not lossless in build %s: %s' % (tag, bad[:1500]), [f])
    parallel([lambda: one(False), lambda: one(True)])
    ctx.assumptions += ['field values: all single bits, all single holes, all corner combinations, byte patterns, pseudo random' + ('' if q else ', all pairs of bits in two fields')]
