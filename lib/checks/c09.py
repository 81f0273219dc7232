import json, os, random
from vlib import *

STUB = os.path.join(HARN, 'stub')


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)

    def bld(big):
        return ctx.cxx('fx34' if big else 'fx32', [os.path.join(HARN, 'fx.cpp'), os.path.join(STUB, 'blake3.c'), os.path.join(REPO, 'lib/chacha8.c'),
                                                   os.path.join(REPO, 'src/settings.cpp')],
                       flags='-g ' + ('-DCHIA_K34' if big else ''), incs=[STUB])
    exes = parallel([lambda: bld(False), lambda: bld(True)])

    def rid():
        return ''.join('%02x' % rnd.randrange(256) for _ in range(32))

    def tree(k, n=64):
        m = rnd.randrange(6)
        if m == 0:
            xs = [rnd.choice([0, (1 << k) - 1]) for _ in range(n)]
        elif m == 1:
            b = rnd.randrange((1 << k) - n)
            xs = list(range(b, b + n))
        elif m == 2:
            xs = [1 << rnd.randrange(k) for _ in range(n)]
        else:
            xs = [rnd.randrange(1 << k) for _ in range(n)]
        return 'tree %d %s %s' % (k, rnd.choice([rid(), rid(), rid(), 'ff' * 32, '00' * 32]), ' '.join(map(str, xs)))
    small, large = [], []
    for rep in range(2 if q else 20):
        for k in list(range(16, 33)) + [32, 32, 31, 25]:
            small.append(tree(k))
        for k in (33, 34, 34, 33, 32, 34):
            large.append(tree(k))
    # x around the places where the entry straddles two keystream blocks
    for k in (17, 19, 25, 30, 31, 32):
        for j in range(2 if q else 12):
            b = rnd.randrange((1 << k) // 512) * 512
            small.append('tree %d %s %s' % (k, rid(), ' '.join(str(b + (512 * i // k)) for i in range(1, min(k, 17)))))
    for k, th in [(16, 1), (17, 3), (18, 4)] + ([] if q else [(19, 8), (18, 7), (20, 2)]):
        small.append('f1 %d %s %d' % (k, rid(), th))
        if th == 3 or not q:
            large.append('f1 %d %s %d' % (k, rid(), th))

    def drv(i, lines):
        o = ctx.path('fx_%d.ndjson' % i)
        ctx.harness([exes[i], o], inp=('\n'.join(lines) + '\n').encode())
        return o
    outs = parallel([lambda: drv(0, small), lambda: drv(1, large)])
    f = ctx.path('fx.ndjson')
    lines = []
    for i, o in enumerate(outs):
        lines += open(o).read().splitlines()
    rnd.shuffle(lines)
    open(f, 'w').write('\n'.join(lines) + '\n')
    r = ctx.tlc_confirm('FxTrace', env={'TRACES': f}, invariants=['Right'], heap='12g')
    ctx.add('traces_validated_against_impl', len(lines))
    ctx.add('trees', len(small) + len(large))
    ctx.sample(lambda: {'tree': next(l for l in lines if '"tree"' in l)[:400]})
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        bad = lines[int(m[-1]) - 1] if m else ''
        b = ctx.path('bad.json')
        open(b, 'w').write(bad)
        ctx.violation('table function differs from the proof-of-space definition: %s' % bad[:1500], [b])
    ctx.assumptions += ['BLAKE3 library replaced by a portable implementation of the same interface (the library is not in the tree)',
                        'the metadata is observed through the values computed from it (whole trees up to table 7)']
