from checks.disk import *


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    res = {}

    def a():
        res['exe'] = build(ctx, sort='some', table=False)

    def b():
        res['h'] = histories(ctx, 900 if q else 12000, 30)
    parallel([a, b])
    lines = []
    for h in res['h']:
        lines.append('hist 6 %d %d %d %d | %s' % (rnd.choice([1, 3, 64]), rnd.choice([1, 2, 5, 64]), 1 if q else 4, rnd.randrange(1 << 30),
                                                 ' ; '.join(' '.join(str(x) for x in op) for op in h)))
    # more entries in a bucket than 16 bits count, kept and reopened
    lines.append('sort rec 16 1 65536 4096 2 2 1 %d 6 0 1 0 %d' % (66000 * 2, rnd.randrange(1 << 29) * 2 + 1))
    f = drive(ctx, res['exe'], lines, 'hist')
    validate_traces(ctx, 'DiskSortTrace', f, 'disk sort life cycle', confirm_timeout=rerun_fn(ctx, res['exe']))
    ctx.assumptions += ['histories are random walks of the contract (TLC simulation), up to 30 calls']
