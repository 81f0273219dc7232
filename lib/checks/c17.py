import json, os, random
from vlib import *
from checks.plotter import *


def memo_of(n, seed):
    s, out = seed, []
    for _ in range(n):
        s = (s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        out.append(s >> 56)
    return out


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe, ref, tab = parallel([lambda: build_plot(ctx), lambda: build_ref(ctx), ctx.ans_tables])
    out, who = [], []
    # the header writer alone
    lens = [0, 1, 2, 48, 79, 80, 81, 112, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 32767, 32768, 65280, 65535] + [rnd.randrange(65536) for _ in range(8 if q else 300)]
    fn = ctx.path('hdr.bin')
    for n in lens:
        k, idh, s = rnd.choice([16, 18, 25, 31, 32, 33, 34, 50]), hexid(rnd), rnd.randrange(1 << 30)
        p = sh([exe, 'header', str(k), idh, str(n), str(s), fn], timeout=60, check=False)
        m = re.search(r'RET (\d+)', p.stdout.decode(errors='replace'))
        out.append(json.dumps({'kind': 'hdr', 'k': k, 'id': list(bytes.fromhex(idh)), 'memo': memo_of(n, s), 'bytes': list(open(fn, 'rb').read()) if not p.returncode else [], 'ret': int(m.group(1)) if m else -1}))
        who.append('header with a memo of %d bytes' % n)
    ctx.add('executions', len(lens))
    # whole plots
    i1 = hexid(rnd)
    f7 = ctx.path('f7')
    sh([ref, 'ref', i1, '16', f7, '1', ctx.path('ref.ndjson')], timeout=300)
    cs = []
    for n in [0, 1, 48, 112, 128, 255, 256, 1000, 65535] + ([] if q else [rnd.randrange(2000) for _ in range(30)]):
        c = cfg(16, i1, threads=rnd.choice([1, 2, 4, 8]), lb=rnd.choice([2, 4, 6]))
        c['memo'] = bytes(memo_of(n, n + 1)).hex() or '-'
        cs.append(c)
    # argument lists are limited to 128 KiB per argument
    cs = [c for c in cs if len(c['memo']) < 131000] + [dict(cs[0], memo=bytes(memo_of(65000, 5)).hex())]

    def one(i):
        c = cs[i]
        rc, plot, o = run_plot(ctx, exe, c, str(i))
        lines = [json.dumps({'kind': 'run', 'rc': rc, 'plot': int(os.path.exists(plot)), 'why': o[-300:] if rc else ''})]
        if os.path.exists(plot):
            lines += [l for l in read_plot(ctx, ref, plot, tab, f7, c, ctx.seed + i, 1, str(i)) if kind(l) in ('head', 'all') or (kind(l) == 'fin' and i % 4 == 0)]
        shutil.rmtree(os.path.dirname(plot))
        return lines
    for h in range(0, len(cs), 6):
        for i, ls in enumerate(parallel([lambda i=i: one(i) for i in range(h, min(h + 6, len(cs)))])):
            out += ls
            who += ['plot with a memo of %d bytes' % (len(cs[h + i]['memo']) // 2)] * len(ls)
    ctx.add('executions', len(cs))
    f = ctx.path('heads.ndjson')
    open(f, 'w').write('\n'.join(out) + '\n')
    r = ctx.tlc_confirm('PlotTrace', env=dict(tab, TRACES=f), invariants=['Right'], heap='12g')
    ctx.add('traces_validated_against_impl', len(out))
    ctx.sample(lambda: next(l for l in out if kind(l) == 'head')[:800])
    if not r['ok']:
        m = re.findall(r'c = (\d+)', r['out'])
        n = int(m[-1]) - 1 if m else 0
        b = ctx.path('bad.json')
        open(b, 'w').write(out[n])
        ctx.violation('header does not identify the plot and its tables: %s: %s' % (who[n], out[n][:900]), [b])
    ctx.assumptions += ['k = 16 for whole plots (k up to 50 for the header writer); memo lengths up to 65535 bytes']
