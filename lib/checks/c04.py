from checks.pipe import *


def run(ctx):
    q = ctx.quick
    s = ctx.seed
    models = [lambda: stage_model(ctx, 2, 2, fails='{2}', waits='TRUE'), lambda: stage_model(ctx, 2, 2, fails='{1, 4}'),
              lambda: stage_model(ctx, 1, 3, fails='{3}', waits='TRUE'),
              lambda: pool_model(ctx, 3, 6, fails='{1}'), lambda: pool_model(ctx, 3, 6, fails='{2, 3}'),
              lambda: pool_model(ctx, 2, 5, dfails='{2}'), lambda: pool_model(ctx, 3, 5, fails='{4}', dfails='{2}')]
    if not q:
        models += [lambda f=f: pool_model(ctx, n, 7, fails='{%d}' % f) for n in (1, 2, 3, 4) for f in range(1, 8)]
        models += [lambda f=f: pool_model(ctx, 3, 7, dfails='{%d}' % f) for f in range(1, 8)]
        models += [lambda f=f: stage_model(ctx, 2, 3, fails='{%d}' % f, waits='TRUE') for f in range(1, 7)]
    res = {}

    def real():
        exe = build(ctx)
        R = 1 if q else 10
        a, b = [], []
        for rep in range(2):
            x = s * 100 + 70 + rep
            for p, ni in ((1, 1), (1, 3), (2, 2), (3, 1)):
                for f in range(1, p * ni + 1):
                    for w in (0, 1, 2):
                        a.append('stage %d %d %d %d %d 0 4 %d' % (p, ni, w, 1 << f, 100 * R, x))
            for n, ni in ((1, 3), (2, 5), (3, 7), (4, 4), (5, 11)):
                for f in range(1, ni + 1):
                    b.append('pool %d %d %d %d 0 %d %d 0 3 %d' % (n, ni, 1 + f % 2, 1 << f, (0, 2)[f % 2], 24 * R, x))
                    b.append('pool %d %d %d 0 %d 0 %d 0 3 %d' % (n, ni, 1 + (f + rep) % 2, 1 << f, 24 * R, x))
                b.append('pool %d %d 1 %d %d 0 %d 0 3 %d' % (n, ni, 2 | 1 << ni, 4, 24 * R, x))
            for shape in ('0', '02', '20', '203', '303'):
                for where in range(len(shape)):
                    for f in (1, 3, 5):
                        b.append('chain %s 5 %d %d %d 0 3 %d' % (shape, f, where, 16 * R, x))
        res['a'] = drive(ctx, exe, a, 'stage')
        res['b'] = drive(ctx, exe, b, 'pool')
        res['exe'] = exe
    parallel([real] + models)
    validate(ctx, res['exe'], 'StageTrace', res['a'], 'failure of a stage mishandled')
    validate(ctx, res['exe'], 'PoolTrace', res['b'], 'failure in a pool mishandled')
    ctx.assumptions += ['callbacks fail by throwing std::exception or something else', 'termination of the process counts as a reported failure']
