from checks.pipe import *


def run(ctx):
    q = ctx.quick
    s = ctx.seed
    models = [lambda: stage_model(ctx, 2, 2, waits='TRUE'), lambda: stage_model(ctx, 2, 3), lambda: pool_model(ctx, 3, 6), lambda: pool_model(ctx, 4, 6),
              lambda: ctx.tlc('ChainImpl', constants={'SHAPE': '<<2, 0, 2>>', 'NI': 3}, invariants=('ContractHolds', 'NoDeadlock'),
                              properties=('Terminates',), deadlock=True, expect_ok=True, workers=2)]
    if not q:
        models += [lambda: stage_model(ctx, 3, 2), lambda: pool_model(ctx, 6, 8),
                   lambda: ctx.tlc('ChainImpl', constants={'SHAPE': '<<3, 0, 3>>', 'NI': 5}, invariants=('ContractHolds', 'NoDeadlock'),
                                   properties=('Terminates',), deadlock=True, expect_ok=True, workers=4)]
    res = {}

    def real():
        exe = build(ctx)
        R = 1 if q else 12
        a, b = [], []
        for rep in range(3):
            x = s * 100 + 50 + rep
            a += ['stage %d %d %d 0 %d 0 8 %d' % (p, ni, w, 150 * R, x) for p in (1, 2, 3) for ni in (0, 1, 2, 4) for w in (0, 1, 3)]
            b += ['pool %d %d %d 0 0 %d %d 0 4 %d' % (n, ni, o, w, 100 * R, x) for n in (1, 2, 4) for ni in (0, 1, 5) for o in (0, 1, 2) for w in (0, 2)]
            for shape in ('0', '00', '000', '20', '02', '203', '12', '0202', '31', '303', '222'):
                for ni in (0, 1, 4, 7):
                    b.append('chain %s %d 0 0 %d 0 4 %d' % (shape, ni, 60 * R, x))
        a += ['stage %d %d %d 0 %d %d 0 %d' % (p, ni, w, 4000 * R, d, s) for p, ni in ((1, 2), (2, 1)) for w in (0, 1) for d in (2, 3)]
        b += ['pool %d %d 1 0 0 0 %d %d 0 %d' % (n, ni, 2500 * R, d, s) for n, ni in ((2, 3), (3, 3)) for d in (2, 3)]
        b += ['chain %s 2 0 0 %d %d 0 %d' % (sh_, 2500 * R, d, s) for sh_ in ('0', '02', '20') for d in (1, 2)]
        res['a'] = drive(ctx, exe, a, 'stage')
        res['b'] = drive(ctx, exe, b, 'pool')
        res['exe'] = exe
    parallel([real] + models)
    validate(ctx, res['exe'], 'StageTrace', res['a'], 'stage stalls or breaks its contract')
    validate(ctx, res['exe'], 'PoolTrace', res['b'], 'pool/chain stalls or breaks its contract')
    ctx.assumptions += ['callbacks terminate', 'a stall is: no thread can run although no spurious wake-up is counted on']
