from checks.disk import *


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe = build(ctx, sort=False, table=True)
    lines = []
    for t in ('t1', 'tx', 'e7'):
        for block in (1, 2, 3, 7, 16):
            for m in (0, 1, 2, 3):
                for d in (-1, 0, 1):
                    n = block * m + d
                    if n < 0 or (n < 1 and d):
                        continue
                    w = rnd.choice([1, 2, 3, max(1, n), n + 1, 64])
                    lines.append('table %s %d %d %d %d %d %d %d 1 %d' % (t, rnd.choice([block, 5]), w, block, rnd.choice([1, 2, 3, 4]), n,
                                                                       rnd.choice([0, 1, 2, 3, 5]), 12 if q else 150, rnd.randrange(1 << 30)))
    for i in range(24 if q else 300):      # default block size = read chunk size; larger, free running
        rc = rnd.choice([10, 64, 100])
        n = rc * rnd.choice([1, 2, 5, 10]) + rnd.choice([-1, 0, 1])
        lines.append('table %s %d %d 0 %d %d %d 0 2 %d' % (rnd.choice(['t1', 'tx', 'e7']), rc, rnd.choice([1, 7, 64, 4096]), rnd.choice([1, 2, 4, 8]), n,
                                                         rnd.choice([0, 1, 10, 64]), rnd.randrange(1 << 30)))
    lines.append('wide 1 1 290 1 %d' % rnd.randrange(1 << 30))      # byte offsets beyond 2^31 and 2^32
    f = drive(ctx, exe, lines, 'table')
    validate_traces(ctx, 'DiskTable', f, 'disk table', confirm_timeout=rerun_fn(ctx, exe))
    ctx.assumptions += ['record digests (31 bit) identify records']
