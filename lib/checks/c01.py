from checks.pipe import *


def run(ctx):
    q = ctx.quick
    s = ctx.seed
    models = [lambda: stage_model(ctx, 2, 2), lambda: stage_model(ctx, 2, 2, waits='TRUE'),
              lambda: stage_model(ctx, 1, 4), lambda: stage_model(ctx, 1, 3, waits='TRUE')]
    if not q:
        models += [lambda: stage_model(ctx, 3, 2, live=False), lambda: stage_model(ctx, 2, 4), lambda: stage_model(ctx, 2, 3, waits='TRUE')]
    res = {}

    def real():
        exe = build(ctx)
        R = 1 if q else 12
        sc = []
        for rep in range(4):
            x = s * 100 + rep
            sc += ['stage 1 %d %d 0 %d 0 %d %d' % (ni, w, 250 * R, 10, x) for ni in (0, 1, 3, 6) for w in (0, 1, 2)]
            sc += ['stage 2 %d %d 0 %d 0 %d %d' % (ni, w, 250 * R, 10, x) for ni in (1, 2, 3) for w in (0, 1, 3)]
            sc += ['stage 3 2 %d 0 %d 0 10 %d' % (w, 250 * R, x) for w in (0, 2, 3)]
        sc += ['stage 1 %d %d 0 %d %d 0 %d' % (ni, w, 4000 * R, b, s) for ni in (1, 2, 3) for w in (0, 1) for b in (2, 3)]
        sc += ['stage 2 %d %d 0 %d %d 0 %d' % (ni, w, 4000 * R, b, s) for ni in (1, 2) for w in (0, 1) for b in (2, 3)]
        f = drive(ctx, exe, sc, 'stage')
        res['x'] = (exe, f)
    parallel([real] + models)
    exe, f = res['x']
    validate(ctx, exe, 'StageTrace', f, 'stage contract broken')
    ctx.assumptions += ['sequentially consistent memory under the controlled scheduler (one thread runs at a time)',
                        'models bounded: up to %s producers/items as listed in DESIGN.md' % ('2x2/1x4' if q else '3x2/2x4')]
