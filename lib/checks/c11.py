import json, os, random
from vlib import *


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    bld = lambda n, fl: ctx.cxx(n, [os.path.join(HARN, 'back.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')] + ctx.vsched_srcs(),
                  flags='-g -fsanitize=thread' + fl, incs=[HARN])
    exe, exe34 = parallel([lambda: bld('back', ''), lambda: bld('back34', ' -DCHIA_K34')])
    lines = []
    for i in range(72 if q else 800):       # small tables under the controlled scheduler
        ns = [rnd.choice([1, 2, 3, 7, 12, 20, 33, 63, 64, 65]) for _ in range(7)]
        if i % 12 == 0:
            ns[rnd.randrange(1, 7)] = 0
        if 0 in ns:
            z = ns.index(0)
            ns = ns[:z] + [0] * (7 - z)
        lines.append('%d %d %d %d %d %d %d %d 1 %d %s' % (rnd.choice([16, 18]), rnd.choice([1, 2, 3, 4]), rnd.choice([1, 1, 2]), rnd.choice([1, 2, 3]),
                     rnd.choice([2, 3, 5, 16]), rnd.choice([1, 3, 64]), i % 6, 12 if q else 60, rnd.randrange(1 << 30), ' '.join(map(str, ns))))
    for i in range(24 if q else 200):       # larger ones, across index and word boundaries
        ns = [rnd.choice([100, 640, 1023, 1024, 1025, 2047, 2050, 2600]) for _ in range(7)]
        lines.append('%d %d %d %d %d %d %d 0 2 %d %s' % (rnd.choice([16, 20, 30]), rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2]), rnd.choice([1, 3, 5]),
                     rnd.choice([10, 100, 64, 4096]), rnd.choice([10, 64, 4096]), i % 6, rnd.randrange(1 << 30), ' '.join(map(str, ns))))
    # more entries than 16 bits count
    ns = [rnd.choice([300, 2000]) for _ in range(7)]
    ns[rnd.randrange(5)] = 66500 + rnd.randrange(500)
    ns[rnd.randrange(5)] = 66500 + rnd.randrange(500)
    big = '20 4 2 2 65536 4096 %d 0 1 %d %s' % (rnd.choice([0, 2]), rnd.randrange(1 << 30), ' '.join(map(str, ns)))
    groups = [(exe34 if i == 3 else exe, lines[i::NCPU]) for i in range(NCPU)] + [(exe, [big])]

    def one(i):
        o = ctx.path('m_%d.ndjson' % i)
        d = ctx.path('m_%d_scr' % i)
        p = ctx.harness([groups[i][0], o, d], inp=('\n'.join(groups[i][1]) + '\n').encode(), timeout=800)
        return o, json.loads(p.stdout.decode().strip().splitlines()[-1])
    res = parallel([lambda i=i: one(i) for i in range(len(groups))])
    out, tot = [], {}
    for o, st in res:
        out += open(o).read().splitlines()
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
    ctx.add('executions', tot['runs'])
    ctx.log(tot, 'lines', len(out))
    f = ctx.path('back.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    r = ctx.tlc_confirm('BackTrace', env={'TRACES': f}, invariants=['Right'], heap='12g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(out[0][:500])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        bad = out[int(m[-1]) - 1] if m else ''
        b = ctx.path('bad.json')
        open(b, 'w').write(bad)
        ctx.violation('back propagation wrong: %s' % bad[:1500], [b])
    ctx.assumptions += ['tables with at least one entry per referenced table, distances at most 1023']
