from checks.pipe import *


def run(ctx):
    q = ctx.quick
    s = ctx.seed
    models = [lambda: pool_model(ctx, 1, 3), lambda: pool_model(ctx, 2, 5), lambda: pool_model(ctx, 3, 7),
              lambda: pool_model(ctx, 4, 6), lambda: pool_model(ctx, 2, 5, out='FALSE')]
    if not q:
        models += [lambda: pool_model(ctx, 5, 9), lambda: pool_model(ctx, 6, 8), lambda: pool_model(ctx, 4, 10)]
    res = {}

    def real():
        exe = build(ctx)
        R = 1 if q else 12
        sc = []
        for rep in range(4):
            x = s * 100 + rep
            for n in (1, 2, 3, 5):
                for ni in (0, 1, n, n + 1, 2 * n + 1, 3 * n + 2):
                    o = 1 + (ni + rep) % 2 if rep else 1
                    sc.append('pool %d %d %d 0 0 %d %d 0 4 %d' % (n, ni, o, (0, 2, 3)[ni % 3], 120 * R, x))
            sc.append('pool 3 6 0 0 0 0 %d 0 4 %d' % (120 * R, x))
        sc += ['pool %d %d 1 0 0 0 %d %d 0 %d' % (n, ni, 2500 * R, b, s) for n, ni in ((2, 3), (2, 4), (3, 4), (1, 3)) for b in (2, 3)]
        f = drive(ctx, exe, sc, 'pool')
        res['x'] = (exe, f)

    def long():
        exe = ctx.cxx('pool_long', [os.path.join(HARN, 'pool_long.cpp')])
        sc = ['70000 2 1 0', '140000 3 2 1', '70000 16 3 1', '3000 300 4 0', '1000 1000 5 1', '40000 1 6 0', '66000 7 7 0'] + ([] if q else ['300000 %d %d %d' % (n, n, n % 2) for n in (2, 3, 5, 8, 13, 64)])

        def one(i):
            o = ctx.path('long_%d.ndjson' % i)
            ctx.harness([exe, o], inp=(sc[i] + '\n').encode(), timeout=300)
            return open(o).read().strip()
        res['long'] = parallel([lambda i=i: one(i) for i in range(len(sc))])
    parallel([real, long] + models)
    lf = ctx.path('long.ndjson')
    open(lf, 'w').write('\n'.join(res['long']) + '\n')
    ctx.add('executions', len(res['long']))
    ctx.add('traces_validated_against_impl', len(res['long']))
    r = ctx.tlc('PoolLong', env={'TRACES': lf}, invariants=['Right'], workers=1)
    if not r['ok']:
        bad = res['long'][int(last_state(r['out'], ['c'])['c']) - 1]
        ctx.violation('long run of a pool: results lost, repeated or out of order (runs of consecutive items): %s' % bad[:800], [lf])
    exe, f = res['x']
    validate(ctx, exe, 'PoolTrace', f, 'pool contract broken')
    ctx.assumptions += ['sequentially consistent memory under the controlled scheduler (one thread runs at a time)',
                        'the stage inside each pool worker is modelled by its contract (checked by C01)']
