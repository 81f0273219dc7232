import random
from vlib import *
from checks.space import judge


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    base = dict(B=32 if q else 128, Ahead=1 if q else 6, Keep='{}', Lazy='{}', Swap='{}', Deferred='FALSE')
    ctx.tlc('SpaceImpl', constants=base, invariants=['Fits', 'FitsJoint', 'Quarter', 'OnlyPlot'], properties=['Ends'], expect_ok=True)
    # the bounds do not hold by themselves
    muts = [('Keep', '{<<"s", 3>>}'), ('Keep', '{<<"r", 3>>, <<"r", 4>>, <<"r", 5>>, <<"r", 6>>}'), ('Lazy', '{<<"s", 3>>}'), ('Swap', '{<<"r", 6>>, <<"r", 5>>}'), ('Swap', '{<<"s", 3>>}'), ('Deferred', 'TRUE'), ('Keep', '{<<"t", 6>>, <<"t", 5>>}')]
    for (n, v), r in zip(muts, parallel([lambda n=n, v=v: ctx.tlc('SpaceImpl', constants=dict(base, B=8, Ahead=0, **{n: v}), invariants=['Fits', 'Quarter'], workers=1, count=False) for n, v in muts])):
        if r['ok']:
            raise CheckError('the model does not depend on %s = %s' % (n, v))
    scs = []
    parts = [(0, 1, 0), (0, 0, 0), (0, 1, 2)]
    for i in range(6 if q else 40):
        big = i % 3 == 0 if q else rnd.random() < .5
        scs.append(dict(what='plot', handles=0, seed=rnd.randrange(1 << 30), part=parts[i % 3], k=18 if big else 17, threads=rnd.choice([1, 2, 4, 8]), lb=rnd.choice([5, 6]), lb3=rnd.choice([4, 5]),
                        rchunk=rnd.choice([4096, 65536, 1 << 20]), wchunk=rnd.choice([512, 4096]), multi=rnd.choice([1, 2])))
    for i in range(2 if q else 10):
        scs.append(dict(what='main', handles=0, seed=rnd.randrange(1 << 30), part=parts[i % 3], k=17 if q else rnd.choice([17, 18]), threads=rnd.choice([2, 4]), lb=6, lb3=5, multi=1, count=1))
    judge(ctx, scs, ['Fits', 'Quarter'], 'more space in (or writing to) the working directories than documented')
    ctx.assumptions += ['standard build, k = 17 and 18, scaled to the documented need at k = 32; one plot at a time; sizes as seen at the system call interface']
