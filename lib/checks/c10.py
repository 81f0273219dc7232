import json, os, random
from vlib import *

STUB = os.path.join(HARN, 'stub')


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    bld = lambda n, fl: ctx.cxx(n, [os.path.join(HARN, 'match.cpp'), (os.path.join(STUB, 'blake3.c'), ''), os.path.join(REPO, 'lib/chacha8.c'),
                            (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')] + ctx.vsched_srcs(),
                  flags='-g -fsanitize=thread' + fl, incs=[STUB, HARN])
    exe, exe34 = parallel([lambda: bld('match', ''), lambda: bld('match34', ' -DCHIA_K34')])
    lines, lines34 = [], []
    for i in range(120 if q else 1500):
        small = i % 2 == 0
        big = i % 5 == 4
        k = rnd.choice([18, 33, 34] if big else [16, 18, 22, 32])
        nq = rnd.choice([0, 1, 2, 3, 5, 9])
        q0 = rnd.choice([0, 1, 2, 7, 100])
        if rnd.random() < 0.2:
            q0 = ((1 << (k + 6)) // 15113) - rnd.choice([0, 1, 2, 3])
        elif k > 24 and rnd.random() < 0.5:     # powers of two of the bucket number and of the value; anywhere
            q0 = rnd.choice([1 << 16, 1 << 16, 1 << 15, (1 << 31) // 15113, (1 << 32) // 15113, (1 << 32) // 15113, rnd.randrange((1 << (k + 6)) // 15113)]) - rnd.choice([0, 1, 1, 2])
        (lines34 if big else lines).append('case %d %d %d %d %d %d %d %d %d %d %d %d' % (
            rnd.choice([2, 4, 7]), k, rnd.choice([1, 2, 3, 4]), rnd.choice([0, 1, 2, 3, 3]), (6 if q else 30) if small else 0, 1, rnd.randrange(1 << 30),
            nq, q0, rnd.choice([0, 0, 1, 2]), rnd.choice([1, 2, 5, 12]) if small else rnd.choice([30, 80, 150]), rnd.choice([0, 0, 1, 2, 3])))
    # many equal values in a bucket (more than 8 bits count)
    for i in range(4 if q else 40):
        (lines34 if i % 4 == 3 else lines).append('case %d %d %d %d 0 1 %d %d %d 0 1 4' % (rnd.choice([2, 4, 7]), rnd.choice([18, 32]), rnd.choice([1, 2, 4]), rnd.choice([0, 1, 3]), rnd.randrange(1 << 30), rnd.choice([2, 3, 4]), rnd.choice([0, 1, 100])))
    reals = ['real 16 4 3 %d 1000 300' % rnd.randrange(1 << 20), 'real 17 3 5 %d 65536 4096' % rnd.randrange(1 << 20)]
    if not q:
        reals += ['real 16 %d %d %d %d %d' % (t, lb, rnd.randrange(1 << 20), rnd.choice([100, 5000]), rnd.choice([10, 4096])) for t in (1, 2, 8) for lb in (1, 4, 7)]
        reals += ['real 18 8 6 %d 65536 4096' % rnd.randrange(1 << 20)]
    groups = [(exe, lines[i::NCPU]) for i in range(NCPU)] + [(exe34, lines34[i::2]) for i in (0, 1)] + [(exe, [r]) for r in reals]
    groups.append((exe34, ['real 16 3 2 %d 4096 500' % rnd.randrange(1 << 20)]))

    def one(i):
        o = ctx.path('m_%d.ndjson' % i)
        d = ctx.path('m_%d_scr' % i)
        p = ctx.harness([groups[i][0], o, d], inp=('\n'.join(groups[i][1]) + '\n').encode(), timeout=800)
        shutil.rmtree(d, ignore_errors=True)
        return o, json.loads(p.stdout.decode().strip().splitlines()[-1])
    res = parallel([lambda i=i: one(i) for i in range(len(groups))])
    out = []
    tot = {}
    for o, st in res:
        out += open(o).read().splitlines()
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
    ctx.add('executions', tot['runs'])
    rnd.shuffle(out)
    f = ctx.path('match.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    ctx.log(tot, 'lines', len(out))
    r = ctx.tlc_confirm('MatchTrace', env={'TRACES': f}, invariants=['Right'], heap='12g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(lambda: next(l for l in out if '"case"' in l)[:500])
    ctx.sample(lambda: next(l for l in out if '"table"' in l)[:500])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        bad = out[int(m[-1]) - 1] if m else ''
        b = ctx.path('bad.json')
        open(b, 'w').write(bad)
        ctx.violation('right table is not exactly the matches of the left table: %s' % bad[:1500], [b])
    ctx.assumptions += ['left tables with at most kBC matches per bucket pair and parents at most 1023 entries apart (what the stored fields can hold)']
