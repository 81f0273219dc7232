import json, os, random
from vlib import *


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    san = '-fsanitize=address -g'
    exe = ctx.cxx('ans', [os.path.join(HARN, 'ans.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '')] + [(f, san) for f in ctx.fse_srcs()],
                  flags=san, incs=[HARN], link='-fsanitize=address')
    sched = ctx.cxx('ans_s', [os.path.join(HARN, 'ans.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')] + [(f, '-fsanitize=thread') for f in ctx.fse_srcs()] + ctx.vsched_srcs()[:1], flags='-g -fsanitize=thread -DVSCHED', incs=[HARN])
    # the cache of code tables: first uses by several threads
    memo = dict(Threads='{1, 2, 3}' if q else '{1, 2, 3, 4}', Parts=3, Early='FALSE', Free='FALSE')
    ctx.tlc('AnsMemo', constants=memo, invariants=['TypeOK', 'Complete'], properties=['AllDone'], workers=4, expect_ok=True)
    for bug in ('Early', 'Free'):
        if ctx.tlc('AnsMemo', constants=dict(memo, **{bug: 'TRUE'}), invariants=['Complete'], workers=2, count=False)['ok']:
            raise CheckError('model does not notice ' + bug)
    slines = ['race %d %d %d %d' % (1 + i % 7, rnd.choice([5, 20, 60]), rnd.choice([2, 3, 4]), rnd.randrange(1 << 30)) for i in range(280 if q else 4000)]
    lines = []
    R = 1 if q else 8
    for t in range(1, 8):
        mx = 9999 if t == 7 else 2047
        top = 115 if t == 7 else 254
        for n in list(range(0, 12)) + [mx - 1, mx, 100, 101, 102, 103]:
            lines.append('ans %d 0 %d %d' % (t, n, rnd.randrange(1 << 30)))
        for n in (3, 4, 5, 6, 7, 50, 1000 if t < 7 else 3000):
            for s in (2, 3, 4, 5, 6, 8, 9):
                lines += ['ans %d %d %d %d' % (t, s, n, rnd.randrange(1 << 30)) for _ in range(R)]
        for v in sorted(set([0, 1, 2, 30, 31, top - 1, top, 255] + ([top + 1] if top < 255 else []) + [rnd.randrange(256) for _ in range(6 * R)])):
            lines.append('ans %d 1 %d %d' % (t, rnd.choice([3, 4, 33]), v))
        lines += ['ans %d 7 %d %d' % (t, n, rnd.randrange(1 << 30)) for n in (3, 4, 5, 40, 41, 42) for _ in range(R)]
        lines += ['race %d 60 4 %d' % (t, rnd.randrange(1 << 30)) for _ in range(R)]
        if t < 7:
            for k in ((16, 17, 18, 22, 32) if q else range(16, 35)):
                n = rnd.choice([2047, 2047, 0, 1, 2, 3, 4, 1500])
                lines += ['park %d %d %d %d %d' % (t, k, s, n, rnd.randrange(1 << 30)) for s in (0, 2, 5)]
                lines += ['park %d %d %d %d %d' % (t, k, s, n, rnd.randrange(1 << 30)) for s, n in ((4, 2047), (4, 600), (0, 2047), (1, 2), (7, 2), (7, 5), (6, 1000))]
    rnd.shuffle(lines)
    groups = [(exe, lines[i::NCPU]) for i in range(NCPU)] + [(sched, slines[i::NCPU]) for i in range(NCPU)]

    def one(i):
        o = ctx.path('a_%d.ndjson' % i)
        ctx.harness([groups[i][0], o], inp=('\n'.join(groups[i][1]) + '\n').encode(), timeout=800, env={'MALLOC_PERTURB_': '165'})       # fresh memory is not zero
        return open(o).read().splitlines()
    res = parallel([ctx.ans_tables] + [lambda i=i: one(i) for i in range(len(groups))])
    tab, out = res[0], sum(res[1:], [])
    ctx.add('executions', len(lines) + len(slines))
    ctx.log('recorded', len(out))
    f = ctx.path('ans.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    r = ctx.tlc_confirm('AnsTrace', env=dict(tab, TRACES=f), invariants=['Right'], heap='12g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(out[0][:400])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        bad = out[int(m[-1]) - 1] if m else ''
        b = ctx.path('bad.json')
        open(b, 'w').write(bad)
        ctx.violation('deltas not recovered: %s' % bad[:1500], [b])
    ctx.assumptions += ['frequencies of the published code computed with double precision by tools/ans_counts.py']
