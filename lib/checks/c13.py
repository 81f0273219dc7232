import json, os, random
from vlib import *
from checks.c15 import scaled_includes

SEPP = 64      # entries per park in the scaled-down build


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)

    def build(name, fl, incs=[]):
        return ctx.cxx(name, [os.path.join(HARN, 'park.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')] + ctx.fse_srcs() + ctx.vsched_srcs(),
                       flags='-g -fsanitize=thread ' + fl, incs=[HARN] + incs)
    sc = scaled_includes(ctx, {'kEntriesPerPark': SEPP})
    exe, exe34, exes, tab = parallel([lambda: build('park', ''), lambda: build('park34', '-DCHIA_K34'), lambda: build('parks', '', [sc]) if sc else None, ctx.ans_tables])
    lines, lines34 = [], []
    R = 1 if q else 6
    sizes = [0, 1, 2, 3, 4, 2047, 2048, 2049, 2050, 2051, 4095, 4096, 4097, 5000]
    for t in range(1, 7):
        for n in sizes:
            for _ in range(R if n < 3000 else 1):
                lines.append('%d %d %d %d %d %d %d %d %d 1 %d' % (t, rnd.choice([16, 17, 18, 25, 32]), rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 4]), n, rnd.choice([0, 0, 1, 2, 4, 5]),
                             rnd.choice([0, 1, 137, 4096, (1 << 32) - 5000, 109521666048]), rnd.choice([50, 700, 4096]), (4 if n > 1000 else 20) * (1 if q else 5), rnd.randrange(1 << 30)))
        lines.append('%d %d 2 1 %d %d 5 100 3 1 %d' % (t, rnd.choice([16, 32]), rnd.choice([4, 100]), 6, rnd.randrange(1 << 30)))
        lines.append('%d %d 2 1 %d %d 5 100 3 1 %d' % (t, rnd.choice([16, 32]), rnd.choice([3, 100]), 3, rnd.randrange(1 << 30)))
        lines34.append('%d %d 4 2 %d %d 77 500 2 1 %d' % (t, rnd.choice([33, 34]), rnd.choice([3, 2049, 2500]), 0, rnd.randrange(1 << 30)))
        lines34.append('%d %d 4 2 %d %d 77 500 2 1 %d' % (t, rnd.choice([33, 34]), rnd.choice([300, 2049]), 5, rnd.randrange(1 << 30)))
    # more entries than 16 bits count
    for t in ([rnd.choice([2, 3, 4, 5, 6])] if q else range(1, 7)):
        lines.insert(0, '%d 17 4 4 66500 0 4096 4096 0 1 %d' % (t, rnd.randrange(1 << 30)))
    groups = [(exe, lines[i::NCPU]) for i in range(NCPU)] + [(exe34, lines34)]
    # more parks than 8 bits count, and every boundary, in a build with small parks
    liness = []
    if exes:
        for t in range(1, 7):
            liness.append('%d %d %d %d %d 7 %d %d 0 1 %d' % (t, rnd.choice([16, 22, 32]), rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 4]), (256 if q else 300) * SEPP + rnd.choice([1, 30, 65, 200]),
                          rnd.choice([0, 4096]), rnd.choice([50, 700, 4096]), rnd.randrange(1 << 30)))
            for n in (SEPP - 1, SEPP, SEPP + 1, rnd.randrange(1000), rnd.randrange(1000)):
                liness.append('%d %d %d %d %d 7 %d %d %d 1 %d' % (t, rnd.choice([16, 22, 32]), rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 4]), n, rnd.choice([0, 137]), rnd.choice([7, 50, 700]), 20 if q else 100, rnd.randrange(1 << 30)))
        NS = 4
        groups += [(exes, liness[i::NS]) for i in range(NS)]
    else:
        ctx.log('scaled build not possible')

    def one(i):
        o = ctx.path('m_%d.ndjson' % i)
        d = ctx.path('m_%d_scr' % i)
        p = ctx.harness([groups[i][0], o, d], inp=('\n'.join(groups[i][1]) + '\n').encode(), timeout=800)
        shutil.rmtree(d, ignore_errors=True)
        return o, json.loads(p.stdout.decode().strip().splitlines()[-1])
    res = parallel([lambda i=i: one(i) for i in range(len(groups))])
    tot = {}
    for o, st in res:
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
    ctx.add('executions', tot['runs'])
    ns = len(groups) - (NS if exes else 0)
    for name, part, env in (('park', res[:ns], {}), ('parks', res[ns:], {'VERIF_EPP': str(SEPP)})):
        out = [l for o, _ in part for l in open(o).read().splitlines()]
        if not out:
            continue
        ctx.log(name, tot, 'lines', len(out))
        f = ctx.path(name + '.ndjson')
        open(f, 'w').write('\n'.join(out) + '\n')
        r = ctx.tlc_confirm('ParkTrace', env=dict(tab, TRACES=f, **env), invariants=['Right'], heap='16g')
        ctx.add('traces_validated_against_impl', len(out))
        ctx.sample(out[0][:500])
        if not r['ok']:
            m = re.findall(r'c = (\d+)', r['out'])
            bad = out[int(m[-1]) - 1] if m else ''
            b = ctx.path('bad.json')
            open(b, 'w').write(bad)
            ctx.violation('parks do not decode to the table: %s' % re.sub(r'\[\[?[\d,\[\]]{200,}', '[...', bad)[:1500], [b])
    ctx.assumptions += ['tables of at most 66500 line points (19400 in 300 parks of a scaled-down build); gaps small enough for the park size except where refusal is expected']
