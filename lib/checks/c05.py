from checks.disk import *


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe, exe34 = parallel([lambda: build(ctx, sort=True, table=False), lambda: build(ctx, sort='some', table=False, name='disk34', fl='-DCHIA_K34')])
    lines = []
    types = {'rec': 12, 'e1': 38, 'e2': 38, 'e4': 38, 'e7': 32, 'ex': 32, 'lp': 62, 'np': 32}
    # small configurations under the controlled scheduler
    for i in range(64 if q else 600):
        t = rnd.choice(['rec', 'rec', 'e2', 'lp', 'np', 'ex'])
        lb = rnd.choice([1, 1, 2, 2, 3])
        n = rnd.choice([0, 1, 2, 3, 5, 9, 17, 30, 48])
        lines.append('sort %s %d %d %d %d %d %d %d %d %d %d 1 0 %d' % (
            t, types[t] if t != 'rec' else rnd.choice([lb, 2 * lb - 1, 2 * lb, 12, 16]), lb, rnd.choice([1, 2, 3, 8, 64]), rnd.choice([1, 2, 4, 32]),
            rnd.choice([1, 2, 3, 4]), rnd.choice([-1, 1, 2, 3]), rnd.choice([0, 1, 2, 3]), n, i % 8, 24 if q else 120, rnd.randrange(1 << 30)))
    # systematic: two writers into the same bucket, all preemption-bounded schedules
    for b in (1, 2):
        lines.append('sort rec 4 1 2 1 1 1 2 4 3 %d 0 %d %d' % (3000 if q else 30000, b, ctx.seed))
    # larger inputs on free-running threads
    for i in range(32 if q else 300):
        t = list(types)[i % len(types)]
        n = rnd.choice([100, 257, 400, 777, 1200])
        lines.append('sort %s %d %d %d %d %d %d %d %d %d 0 2 0 %d' % (
            t, types[t], rnd.choice([1, 2, 3, 4, 5]), rnd.choice([7, 64, 100, 1000, 65536]), rnd.choice([3, 16, 64, 4096]),
            rnd.choice([1, 2, 4, 8]), rnd.choice([-1, 1, 2, 4]), rnd.choice([0, 1, 3, 5]), n, (i // 8) % 8, rnd.randrange(1 << 30)))
    # more entries in a bucket than 16 bits count, kept and reopened
    lines.append('sort %s 38 1 65536 4096 2 2 2 %d 6 0 1 0 %d' % (rnd.choice(['e1', 'e2']), 66000 * 2, rnd.randrange(1 << 29) * 2 + 1))
    # the large build: line points of 67 bits
    l34 = ['sort lp 67 %d %d 64 %d %d %d %d %d %d 1 0 %d' % (lb, rnd.choice([2, 64, 1000]), rnd.choice([1, 2, 4]), rnd.choice([-1, 1, 2]), rnd.choice([0, 1, 3]), rnd.choice([9, 100, 400]), d, 2 if q else 30,
                                                             rnd.randrange(1 << 30)) for lb in (1, 2, 3, 4) for d in range(8)]
    f34 = drive(ctx, exe34, l34, 'sort34')
    validate_traces(ctx, 'DiskSortTrace', f34, 'disk sort, large build', confirm_timeout=rerun_fn(ctx, exe34))
    f = drive(ctx, exe, lines, 'sort')
    validate_traces(ctx, 'DiskSortTrace', f, 'disk sort', confirm_timeout=rerun_fn(ctx, exe))
    ctx.assumptions += ['record digests (31 bit) identify records', 'free-running threads for the larger inputs']
