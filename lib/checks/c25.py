import errno, random
from vlib import *
from checks.space import judge


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    ctx.tlc('SpaceImpl', constants=dict(B=4, Ahead=0, Keep='{}', Lazy='{}', Swap='{}', Deferred='FALSE'), invariants=['EnoughHandles'], workers=1, expect_ok=True)
    scs = []
    parts = [(0, 1, 0), (0, 0, 0), (0, 1, 2)]
    ths = [1, 2, 3, 4, 7, 8, 12, 16, 32, 64]
    for i in range(10 if q else 60):
        scs.append(dict(what='plot', handles=1, seed=rnd.randrange(1 << 30), part=parts[i % 3], k=16, threads=ths[i % len(ths)], lb=rnd.choice([1, 2, 4, 5]), lb3=rnd.choice([1, 2, 3, 4, 6]),
                        rchunk=rnd.choice([1024, 4096, 65536]), wchunk=rnd.choice([512, 4096]), multi=rnd.choice([1, 2, 4])))
    for i in range(4 if q else 16):
        scs.append(dict(what='main', handles=1, seed=rnd.randrange(1 << 30), part=parts[i % 3], k=16, threads=rnd.choice([1, 2, 8, 32]), lb=rnd.choice([4, 6]), lb3=rnd.choice([4, 5]), multi=rnd.choice([1, 3]), count=1 + i % 3, direct=i % 2))
    # moves to another file system, also ones that fail some times before they succeed
    faults = ['openat,*/d2/*', 'write,*/d2/*', 'read,*/d0/*.plot', 'rename,*/d2/*.plot?*']
    for i in range(6 if q else 30):
        nf = rnd.choice([0, 2, 5, 40])
        rules = ['other,rename,*/d0/*.plot,1,-1,%d' % errno.EXDEV]
        if i:
            rules.append('other,%s,1,%d,%d' % (faults[i % 4], nf, rnd.choice([errno.EIO, errno.ENOSPC, errno.EACCES])))
        scs.append(dict(what='main', handles=1, seed=rnd.randrange(1 << 30), part=(0, 1, 2), k=16, threads=rnd.choice([1, 4]), lb=4, lb3=4, multi=1, count=1 + i % 2, direct=0, rules=rules))
    judge(ctx, scs, ['Handles', 'Stuck'], 'more files open than made sure of, or files not closed at the end')
    ctx.assumptions += ['k = 16; files in the working, stage and destination directories, counted at the system call interface']
