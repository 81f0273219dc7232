import json, os, random
from vlib import *

MODELS = [('<<2,1,2>>', '<<<< <<0,1>>,<<1,1>> >>, << <<1,2>>,<<2,2>> >>, << <<3,1>> >> >>', 2),
          ('<<1,1,1,1>>', '<<<< <<0,3>> >>, << <<1,1>> >>, << <<3,0>> >> >>', 1),
          ('<<2,0,1,2>>', '<<<< <<0,1>>,<<1,1>> >>, << <<1,2>>,<<2,2>> >>, << >>, << <<3,1>> >> >>', 2),
          ('<<1,2,1,1>>', '<<<< <<0,0>> >>, << <<0,1>> >>, << <<1,0>> >> >>', 3),
          ('<<>>', '<<>>', 2), ('<<2,2>>', '<<>>', 2)]
DEEP = [('<<2,0,1,2,1>>', '<<<< <<0,1>>,<<1,1>> >>, << <<1,2>>,<<2,2>> >>, << <<3,1>> >>, << <<3,2>> >> >>', 3),
        ('<<1,1,1,2,1>>', '<<<< <<0,1>>,<<1,1>> >>, << <<1,2>>,<<2,2>> >>, << <<3,1>> >>, << <<3,2>> >>, << <<4,1>> >> >>', 3)]


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)

    def model(m):
        ctx.tlc('MergeImpl', constants=dict(LB=m[0], RI=m[1], N=m[2], LATE='FALSE'), workers=1 if q else 4,
                invariants=['NoFailure', 'Correct', 'Complete'], properties=['Finishes'], expect_ok=True)

    def real():
        bld = lambda n, fl: ctx.cxx(n, [os.path.join(HARN, 'merge.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')] + ctx.fse_srcs() + ctx.vsched_srcs(),
                      flags='-g -fsanitize=thread' + fl, incs=[HARN])
        exe, exe34 = parallel([lambda: bld('merge', ''), lambda: bld('merge34', ' -DCHIA_K34')])
        lines = []
        for i in range(120 if q else 1200):      # small tables under the controlled scheduler
            v = (0, 0, 1, 2, 0, 3)[i % 6]
            lines.append('%d %d %d %d %d %d %d %d %d %d 0 1 %d' % (
                v, rnd.choice([1, 2, 4, 8, 8, 12]), rnd.choice([16, 24, 32]), rnd.choice([0, 1, 2, 3, 3]), rnd.choice([0, 1, 2, 3, 3]),
                rnd.choice([1, 3, 8]) if v in (1, 2) else rnd.choice([4, 64]), (i // 6) % 6,
                rnd.choice([1, 2, 3, 5, 9, 14, 33]), rnd.choice([0, 1, 2, 3, 5, 9, 14]), 80 if q else 300, rnd.randrange(1 << 30)))
        for i in range(16 if q else 120):        # few entries, last blocks: all short preemption sequences
            lines.append('%d %d 16 %d %d 4 %d %d %d %d 3 0 %d' % (
                0, rnd.choice([1, 4, 8]), rnd.choice([1, 3]), rnd.choice([0, 1, 3]), (5, 0, 2)[i % 3], rnd.choice([2, 3, 4]), rnd.choice([1, 2, 3]), 300 if q else 3000, rnd.randrange(1 << 30)))
        for i in range(32 if q else 300):        # larger ones with free threads
            lines.append('%d %d %d %d %d %d %d %d %d 0 0 2 %d' % (
                (0, 1, 2, 3)[i % 4], rnd.choice([1, 4, 8, 16]), rnd.choice([16, 32]), rnd.choice([0, 3, 4, 4]), rnd.choice([0, 3, 4, 4]),
                rnd.choice([17, 64, 4096]), (i // 4) % 6, rnd.choice([100, 400, 1300]), rnd.choice([50, 300, 500]), rnd.randrange(1 << 30)))
        # more entries than 16 bits count
        big = ['%d 4 32 4 4 65536 0 %d %d 0 0 1 %d' % (v, n, m, rnd.randrange(1 << 30)) for v, n, m in ((rnd.choice([0, 3]), 66700, 3000), (rnd.choice([1, 1, 2]), 67000, 2000), (rnd.choice([0, 2]), 700, 66600))]
        l34 = []
        for i in range(24 if q else 240):        # the large build
            v = i % 4
            l34.append('%d %d %d %d %d %d %d %d %d %d 0 1 %d' % (
                v, rnd.choice([1, 2, 4, 8]), rnd.choice([16, 33, 34]), rnd.choice([0, 1, 3]), rnd.choice([0, 2, 3]), rnd.choice([3, 64]), (i // 4) % 6, rnd.choice([5, 40, 300]), rnd.choice([9, 60, 200]), 10 if q else 60, rnd.randrange(1 << 30)))
        groups = [(exe, [b]) for b in big] + [(exe, lines[i::NCPU]) for i in range(NCPU)] + [(exe34, l34[i::2]) for i in (0, 1)]

        def one(i):
            o = ctx.path('m_%d.ndjson' % i)
            d = ctx.path('m_%d_scr' % i)
            p = ctx.harness([groups[i][0], o, d], inp=('\n'.join(groups[i][1]) + '\n').encode(), timeout=800)
            shutil.rmtree(d, ignore_errors=True)
            return o, json.loads(p.stdout.decode().strip().splitlines()[-1])
        return parallel([lambda i=i: one(i) for i in range(len(groups))])
    res = parallel([real] + [lambda m=m: model(m) for m in (MODELS if q else MODELS + DEEP)])[0]
    out, tot = [], {}
    for o, st in res:
        out += open(o).read().splitlines()
        for k, v in st.items():
            tot[k] = tot.get(k, 0) + v
    ctx.add('executions', tot['runs'])
    ctx.log(tot, 'lines', len(out))
    f = ctx.path('merge.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    r = ctx.tlc_confirm('MergeTrace', env={'TRACES': f}, invariants=['Right'], heap='12g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(out[0][:500])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        bad = out[int(m[-1]) - 1] if m else ''
        b = ctx.path('bad.json')
        open(b, 'w').write(bad)
        ctx.violation('line-point merge wrong or failed: %s' % bad[:1500], [b])
    ctx.assumptions += ['right tables sorted by left position (what phase 2 delivers), distances at most 1023']
