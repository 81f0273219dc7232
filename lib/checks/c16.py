import json, os, random
from vlib import *
from checks.plotter import *

BIG = 'a65de2c7b789c208342bcc0ec2deab97b9b78d5814447ba68698d6e236df8a46'


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe, exe34, ref, tab = parallel([lambda: build_plot(ctx), lambda: build_plot(ctx, 'plot34', '-DCHIA_K34=1'), lambda: build_ref(ctx), ctx.ans_tables])
    cs = []
    i1, i2, i3 = hexid(rnd), hexid(rnd), hexid(rnd)
    R = lambda *a: rnd.choice(a)
    for i in range(9 if q else 60):
        cs.append(cfg(16, [i1, i2][i % 2] if q else [i1, i2, i3, hexid(rnd)][i % 4], threads=[1, 2, 3, 4, 5, 8, 16, 7, 32][i % 9], lb=R(1, 2, 3, 4, 5, 6, 7, 8), lb3=R(1, 2, 4, 5, 6, 7, 8),
                      rchunk=R(100, 1000, 4096, 65536, 1 << 20), wchunk=R(64, 700, 4096), multi=R(1, 1, 2, 3), k34=i % 4 == 3))
    cs.append(cfg(17, i3, threads=4, lb=5, rchunk=30000, k34=True))
    cs.append(cfg(18, i1, threads=8, lb=6, lb3=4))
    if not q:
        cs += [cfg(17, i2, threads=t, lb=lb, lb3=R(4, 8)) for t in (1, 3, 8, 24) for lb in (4, 7)]
        cs += [cfg(k, i1, threads=8, lb=R(4, 8), k34=k % 2 == 0) for k in (18, 19, 20)]
    # an id whose pruned table 6 has more than 2^k entries (known finding; about one of 3000 ids at k = 16)
    cs.append(cfg(16, BIG, threads=4, lb=4))
    for c in cs:
        c['memo'] = ''.join('%02x' % rnd.randrange(256) for _ in range(R(112, 128)))
    keys = sorted({(c['id'], c['k']) for c in cs})

    def mkref(idh, k):
        f7, o = ctx.path('f7_%s_%d' % (idh[:8], k)), ctx.path('ref_%s_%d.ndjson' % (idh[:8], k))
        sh([ref, 'ref', idh, str(k), f7, str(ctx.seed), o], timeout=800)
        return f7, o
    refs = dict(zip(keys, parallel([lambda a=a: mkref(*a) for a in keys])))

    def one(i):
        c = cs[i]
        rc, plot, out = run_plot(ctx, exe34 if c['k34'] else exe, c, str(i))
        ok = os.path.exists(plot)
        if c['id'] == BIG and rc and not ok and 'bucket index out of range' in out:
            ctx.violation('no plot can be made of %s' % json.dumps(c), key='table-larger-than-2^k id=%s k=16' % BIG)
            shutil.rmtree(os.path.dirname(plot))
            return []
        lines = [json.dumps({'kind': 'run', 'rc': rc, 'plot': int(ok), 'why': out[-300:] if rc else ''})]
        if ok:
            lines += read_plot(ctx, ref, plot, tab, refs[(c['id'], c['k'])][0], c, ctx.seed + i, 2 if q else 4, str(i))
        shutil.rmtree(os.path.dirname(plot))
        return lines
    # half of the plots at a time: they are multi threaded themselves
    res = []
    for h in range(0, len(cs), 6):
        res += parallel([lambda i=i: one(i) for i in range(h, min(h + 6, len(cs)))])
    ctx.add('executions', len(cs))
    out, who = [], []
    for i, ls in enumerate(res):
        for l in ls:
            k = kind(l)
            if k == 'head':        # C17
                continue
            if k == 'park' and q and i % 3:
                continue
            out.append(l)
            who.append('plot %s' % json.dumps(cs[i]))
    for key, (f7, o) in refs.items():
        for l in open(o):
            out.append(l.strip())
            who.append('reference %s' % (key,))
    f = ctx.path('plots.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    ctx.log('cases', len(out), 'bytes', os.path.getsize(f))
    r = ctx.tlc_confirm('PlotTrace', env=dict(tab, TRACES=f), invariants=['Right'], heap='20g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(lambda: next(l for l in out if '"proof"' in l)[:800])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        n = int(m[-1]) - 1 if m else 0
        if who[n].startswith('reference'):
            raise CheckError('the reference plotter contradicts the specification: %s' % out[n][:300])
        b = ctx.path('bad.json')
        open(b, 'w').write(out[n])
        ctx.violation('finished plot is not the plot of its id: %s: %s' % (who[n], out[n][:900]), [b])
    ctx.assumptions += ['k = 16..18 (thorough: 20), thread/bucket/buffer settings sampled, schedules as they come']
