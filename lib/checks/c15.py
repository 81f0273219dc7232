import json, os, random
from vlib import *

SCALE = {'kEntriesPerPark': 8, 'kCheckpoint1Interval': 24, 'kCheckpoint2Interval': 5}


def scaled_includes(ctx, scale=SCALE):
    """a copy of the headers with the park and checkpoint intervals scaled down; None if they cannot be found"""
    d = ctx.path('scaled')
    shutil.copytree(os.path.join(REPO, 'include'), d)
    for name, val in scale.items():
        hit = 0
        for root, _, files in os.walk(d):
            for fn in files:
                p = os.path.join(root, fn)
                s = open(p, errors='surrogateescape').read()
                s2, n = re.subn(r'(\b(?:constexpr|const)\b[^;\n]*\b%s\s*=\s*)\d+(\s*;)' % name, r'\g<1>%d\2' % val, s)
                if n:
                    hit += n
                    open(p, 'w', errors='surrogateescape').write(s2)
        if hit != 1:
            return None
    return d


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)

    def build(name, incs, fl=''):
        return ctx.cxx(name, [os.path.join(HARN, 'chk.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')] + ctx.fse_srcs() + ctx.vsched_srcs(),
                       flags='-g -fsanitize=thread' + fl, incs=[HARN] + incs)
    sc = scaled_includes(ctx)
    san = '-g -fsanitize=address'
    exe, exe34, exea, exes, tab = parallel([lambda: build('chk', []), lambda: build('chk34', [], ' -DCHIA_K34'),
                                     lambda: ctx.cxx('chka', [os.path.join(HARN, 'chk.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '')] + [(f, san) for f in ctx.fse_srcs()] + ctx.vsched_srcs(),
                                                     flags=san, incs=[HARN], link=san), lambda: build('chks', [sc]) if sc else None, ctx.ans_tables])
    lines, small = [], []
    for n in (0, 1, 2, 3, 4, 5, 2047, 2048, 2049, 9999, 10000, 10001, 10002, 10003, 10004, 20000, 20001, 12345) + (() if q else (30000, 30001, 30002, 40000)):
        for _ in range(1 if q else 3):
            lines.append('%d %d %d %d %d %d %d %d 0 1 %d' % (rnd.choice([16, 17, 22, 31, 32]), rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 4]), n, rnd.choice([0, 0, 0, 5, 4]) if n < 20000 else 0,
                         rnd.choice([60, 137, 4096, (1 << 32) - 5000, 109521666048]), rnd.choice([500, 4096]), 2, rnd.randrange(1 << 30)))
    for s in (1, 2, 3, 6, 7, 8):
        lines.append('%d 4 2 %d %d 100 100 1 0 1 %d' % (rnd.choice([22, 32]), rnd.choice([300, 301]), s, rnd.randrange(1 << 30)))
    if exes:
        for i in range(160 if q else 1500):
            n = rnd.choice([i, rnd.randrange(0, 60), rnd.choice([24, 48, 72, 96, 120, 144, 240, 360, 480]) + rnd.choice([-1, 0, 1, 2, 3])])
            n = min(n, 520)
            small.append('%d %d %d %d %d %d %d %d %d 1 %d' % (rnd.choice([16, 17, 18, 19]), rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 4]), n, rnd.choice([0, 0, 0, 0, 1, 4, 5]),
                         rnd.choice([60, 99, (1 << 32) - 100, 109521666048]), rnd.choice([3, 10, 64]), 12 if q else 60, i % 2, rnd.randrange(1 << 30)))
        for s in (2, 3, 6, 7, 8):
            small.append('18 4 2 %d %d 100 100 4 0 1 %d' % (rnd.choice([7, 30, 31]), s, rnd.randrange(1 << 30)))
    else:
        ctx.log('scaled build not possible')
    asan = ['%d 4 2 %d %d 100 100 0 0 1 %d' % (k, n, s, rnd.randrange(1 << 30)) for k, n, s in ((22, 10000, 9), (22, 2500, 0), (32, 300, 8), (18, 1, 0), (22, 3, 0))]
    # sizes whose values take more than 32 bits
    lines34 = ['%d %d %d %d %d %d 500 2 0 1 %d' % (k, rnd.choice([1, 2, 4, 8]), rnd.choice([1, 2, 4]), n, sh, rnd.choice([60, (1 << 32) - 5000]), rnd.randrange(1 << 30))
               for k in (33, 34) for n, sh in ((3, 4), (2500, 0), (10003, 4), (300, 3), (rnd.choice([2049, 10001]), rnd.choice([0, 4, 5])))]
    full = ['2048', '10000', '10000']
    groups = [(exe, lines[i::3], full) for i in range(3)] + [(exe34, lines34, full)] + [(exea, asan, full)] + ([(exes, small[i::NCPU], [str(SCALE[x]) for x in ('kEntriesPerPark', 'kCheckpoint1Interval', 'kCheckpoint2Interval')]) for i in range(NCPU)] if exes else [])

    def one(i):
        o = ctx.path('m_%d.ndjson' % i)
        d = ctx.path('m_%d_scr' % i)
        p = ctx.harness([groups[i][0], o, d] + groups[i][2], inp=('\n'.join(groups[i][1]) + '\n').encode(), timeout=800, env={'ASAN_OPTIONS': 'detect_leaks=0'})
        shutil.rmtree(d, ignore_errors=True)
        return o, json.loads(p.stdout.decode().strip().splitlines()[-1])
    res = parallel([lambda i=i: one(i) for i in range(len(groups))])
    out, tot = [], {}
    for o, st in res:
        out += open(o).read().splitlines()
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
    ctx.add('executions', tot['runs'])
    ctx.log(tot, 'lines', len(out))
    f = ctx.path('chk.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    r = ctx.tlc_confirm('CheckTrace', env=dict(tab, TRACES=f), invariants=['Right'], heap='16g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(out[-1][:500])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        bad = out[int(m[-1]) - 1] if m else ''
        b = ctx.path('bad.json')
        open(b, 'w').write(bad)
        ctx.violation('checkpoint tables do not decode to the final table: %s' % re.sub(r'\[\[?[\d,\[\]]{200,}', '[...', bad)[:1500], [b])
    ctx.assumptions += ['at most 40000 entries at full scale; second-level checkpoints beyond the first only in a build with scaled-down intervals']
