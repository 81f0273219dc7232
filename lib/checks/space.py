"""runs of the real plotter with what they take on disk and in open files"""
import json, os, random, shutil, tempfile
from vlib import *
from checks.plotter import *


def launch(ctx, inj, cmd, log, seed=1, timeout=400, rules='-'):
    p = subprocess.Popen([inj, log, rules, '--'] + [str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=dict(os.environ, RANDSEED=str(seed)))
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return 124, out


def record(ctx, exe, main, inj, sc):
    """runs one scenario; returns (case, names) or (None, output)"""
    root = tempfile.mkdtemp(prefix='sp', dir=ctx.path(''))
    try:
        ds = [os.path.join(root, 'd%d' % x) for x in sc['part']]
        for d in ds:
            os.makedirs(d, exist_ok=True)
        log = os.path.join(root, 'log')
        k = sc['k']
        if sc['what'] == 'main':
            cmd = [main, '-k', k, '-u', 1 << sc['lb'], '-v', 1 << sc['lb3'], '-r', sc['threads'], '-K', sc['multi'], '-f', toy_key(5), '-p', toy_key(7), '-t', ds[0] + '/', '-2', ds[1] + '/', '-n', sc['count']]
            if ds[2] != ds[0]:
                cmd += ['-d', ds[2] + '/'] + (['-D'] if sc.get('direct') else [])
        else:
            c = cfg(k, hexid(random.Random(sc['seed'])), threads=sc['threads'], lb=sc['lb'], lb3=sc['lb3'], rchunk=sc['rchunk'], wchunk=sc['wchunk'], multi=sc['multi'])
            cmd = [exe] + plot_args(c, 'p', *[d + '/' for d in ds])
        rc, out = launch(ctx, inj, cmd, log, sc['seed'], rules=';'.join(sc.get('rules', [])) or '-')
        if rc:
            return None, 'exit status %d: %s' % (rc, out[-400:].decode(errors='replace'))
        plots = [os.path.join(d, f) for d in set(ds) for f in os.listdir(d) if f.endswith('.plot')]
        if len(plots) != sc.get('count', 1):
            return None, 'no plot'
        fin = os.path.getsize(plots[0])
        num, ev, size = {}, [], {}

        def where(p):
            for i, d in enumerate(ds):
                if p.startswith(d + '/'):
                    return i + 1
            return 0
        for w in read_log(log):
            if len(w) < 8 or not where(w[3]) or w[2].isdigit():
                continue
            call, p, q = w[1], os.path.normpath(w[3]), w[4]
            if sc['handles']:
                # the start check of the main program opens as many files as it can
                if os.path.basename(p).startswith('.'):
                    continue
                if call in ('openat', 'open', 'creat') and (w[5] != 'r' or w[6] == '1'):
                    ev.append(dict(o='o'))
                elif call == 'close':
                    ev.append(dict(o='c'))
                continue
            plot = '.plot' in os.path.basename(p)
            f = num.setdefault(p, len(num) + 1)
            if 'write' in call:
                # what a table or sort gets is appended; parks are written at their places
                n = int(w[7]) + (0 if plot or call == 'pwrite' else int(w[5]))
                if n > size.get(p, 0):
                    size[p] = n
                    ev.append(dict(o='g', f=f, d=where(p), n=n * 1000 // (1 << k), p=int(plot)))
            elif call.startswith('unlink'):
                if size.pop(p, None) is not None:
                    ev.append(dict(o='d', f=f, d=where(p)))
            elif call.startswith('rename') and where(q):
                q = os.path.normpath(q)
                s = size.pop(p, None)
                if s is not None:
                    size[q] = s
                    ev.append(dict(o='m', f=f, d=where(p), g=num.setdefault(q, len(num) + 1), e=where(q)))
        cap = (1 << max(sc['lb'], sc['lb3'])) + 2 * sc['threads'] + 32
        return dict(sc=json.dumps(sc), joint=int(ds[0] == ds[1]), fin=max(1, fin * 1000 // (1 << k)), cap=cap, ev=ev), {v: os.path.basename(p) for p, v in num.items()}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def judge(ctx, scs, invariants, what):
    exe, main, inj = parallel([lambda: build_plot(ctx), lambda: build_main(ctx), lambda: build_inject(ctx)])
    res = parallel([lambda sc=sc: record(ctx, exe, main, inj, sc) for sc in scs])
    ctx.add('executions', len(res))
    good = []
    for sc, (d, x) in zip(scs, res):
        if d is None:
            ctx.violation('a plain run does not make its plot: %s\nscenario %s' % (x, json.dumps(sc)))
        else:
            good.append((d, x))
    ctx.log('runs', len(good), 'events', sum(len(d['ev']) for d, _ in good))
    if not good:
        return
    lines = [json.dumps(d) for d, _ in good]
    ctx.sample(lines[0][:500])
    chunks = [list(range(i, len(lines), 4)) for i in range(4)]

    def go(ix):
        f = ctx.path('space_%d.ndjson' % ix[0])
        open(f, 'w').write('\n'.join(lines[i] for i in ix) + '\n')
        cf = ctx.path('space_%d.cfg' % ix[0])
        open(cf, 'w').write('SPECIFICATION TSpec\n%sALIAS Brief\nCHECK_DEADLOCK FALSE\n' % ''.join('INVARIANT %s\n' % i for i in invariants))
        return ctx.tlc('SpaceTrace', cfg=cf, env={'TRACES': f}, workers=2)
    rs = parallel([lambda ix=ix: go(ix) for ix in chunks if ix])
    ctx.add('traces_validated_against_impl', len(lines))
    for ix, r in zip(chunks, rs):
        if r['ok']:
            continue
        ls = last_state(r['out'], ['c', 'i', 'used', 'written', 'open'])
        d, names = good[ix[int(ls['c']) - 1]]
        i = int(ls['i'])
        e = d['ev'][i - 1] if 0 < i <= len(d['ev']) else {}
        one = ctx.path('bad_%d.json' % ix[0])
        open(one, 'w').write(json.dumps(dict(d, names=names)))
        ctx.violation('%s: after operation %d of %d (%s) used %s written %s (thousandths of a byte per entry) open %s\nscenario %s' % (what, i, len(d['ev']), names.get(e.get('f'), e), ls.get('used'), ls.get('written'), ls.get('open'), d['sc']), [one])
