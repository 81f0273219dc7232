import json, os, random, resource, shutil, tempfile
from vlib import *
from checks.plotter import *
from checks.c18 import ERRS, SAME
import errno


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe, ref, tab, inj = parallel([lambda: build_plot(ctx), lambda: build_ref(ctx), ctx.ans_tables, lambda: build_inject(ctx)])
    # the model: with every operation checked the property holds; ignoring any of them breaks it
    ctx.tlc('PublishImpl', constants={'Writes': '4', 'Unchecked': '{}'}, invariants=['NoDamage', 'Honest'], properties=['Refines'], workers=1, expect_ok=True)
    for o in ('header', 'write', 'close3', 'close4', 'rename'):
        r = ctx.tlc('PublishImpl', constants={'Writes': '2', 'Unchecked': '{"%s"}' % o}, invariants=['NoDamage', 'Honest'], workers=1, count=False)
        if r['ok']:
            raise CheckError('the model does not depend on checking ' + o)
    idh = hexid(rnd)
    f7 = ctx.path('f7')
    sh([ref, 'ref', idh, '16', f7, '1', ctx.path('r.ndjson')], timeout=300)
    configs = [cfg(16, idh, memo='aabbcc', threads=2, lb=2, rchunk=1 << 20), cfg(16, idh, memo='aabbcc', threads=4, lb=1, lb3=3, rchunk=20000, wchunk=512)]
    base = []

    def one(ci, inject=None, log=None, fsize=None):
        c = configs[ci]
        d = tempfile.mkdtemp(prefix='run', dir=ctx.path(''))
        try:
            cmd = [exe] + [str(x) for x in plot_args(c, 'p', d + '/', d + '/', d + '/')]
            if inject or log:
                cmd = [inj, log or '-', inject or '-', '--'] + cmd
            pre = None
            if fsize is not None:
                def pre():
                    import signal
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
            hung = False
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=90)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, 9)
                out, _ = p.communicate()
            rc = p.returncode
            res = 'hung' if hung else 'ok' if rc == 0 else 'killed' if rc in (-9, 137) else 'failed'
            plot = os.path.join(d, 'p.plot')
            if not os.path.exists(plot):
                final = 'none'
            else:
                data = open(plot, 'rb').read()
                if base and len(base) > ci and data == base[ci]:
                    final = 'whole'
                else:
                    ls = [json.loads(l) for l in read_plot(ctx, ref, plot, tab, f7, c, 1, 0, os.path.basename(d)) if kind(l) == 'all']
                    hs = 60 + 3 + 80
                    final = 'whole' if ls and ls[0]['bad'] == 0 and (len(base) <= ci or data[:hs] == base[ci][:hs]) else 'bad'
                if log:
                    base.append(data)
            return final, res, out[-300:].decode(errors='replace')
        finally:
            shutil.rmtree(d, ignore_errors=True)
    jobs = []
    for ci in range(len(configs)):
        log = ctx.path('base_%d.log' % ci)
        fin, res, out = one(ci, log=log)
        if (fin, res) != ('whole', 'ok'):
            ctx.violation('a plot without any fault: final name %s, result %s\n%s' % (fin, res, out))
            return
        cnt = {}          # (thread, call, file) -> number of calls
        size = {}         # file -> bytes written
        for l in open(log, errors='replace'):
            w = l.rstrip('\n').split('\t')
            fn = os.path.basename(w[3]) if len(w) > 5 else ''
            if fn.startswith('p.'):
                thr, call = w[:2]
                cnt[thr, call, fn] = cnt.get((thr, call, fn), 0) + 1
                if 'write' in call:
                    size[fn] = size.get(fn, 0) + int(w[5])
        groups = {}
        for (thr, call, fn), n in cnt.items():
            groups.setdefault((thr, call, re.sub(r'bucket_\d+', 'bucket_N', fn)), []).append((fn, n))
        for (thr, call, g), files in sorted(groups.items()):
            es = [getattr(errno, e) for e in ERRS[SAME.get(call, call)]] if SAME.get(call, call) in ERRS else [errno.EIO]
            plotfile = '.plot' in g
            picks = sorted((fn, i) for fn, n in files for i in range(1, n + 1))
            if not plotfile:
                want = (1 if rnd.random() < 0.4 else 0) if q else 8
            else:
                want = 12 if q else 400
            for fn, n in rnd.sample(picks, min(want, len(picks))):
                for e in ([rnd.choice(es)] if q else es):
                    jobs.append((ci, '%s,%s,*/%s,%d,%d,%d' % (thr, call, fn, n, -(rnd.random() < 0.3), e)))
                if (plotfile or rnd.random() < 0.1) and (thr == 'main' or call not in ('write', 'lseek') or rnd.random() < 0.3):
                    jobs.append((ci, '%s,%s,*/%s,%d,0,KILL' % (thr, call, fn, n)))
        # the last bytes of a temporary file, which often leave the program only when it closes the file
        kinds = {}
        for fn, n in sorted(size.items()):
            if n and '.plot' not in fn:
                kinds.setdefault(re.sub(r'bucket_\d+', 'bucket_N', fn), []).append((fn, n))
        for g, files in sorted(kinds.items()):
            for fn, n in rnd.sample(files, min(len(files), 1 if q else 4)):
                jobs.append((ci, 'any,*write*,*/%s,s%d,-1,%d' % (fn, n, rnd.choice([errno.ENOSPC, errno.EIO]))))
        total = sum(n for (thr, call, fn), n in cnt.items() if call == 'write')
        for _ in range(10 if q else 100):
            jobs.append((ci, 'any,write,,%d,-1,%d' % (rnd.randrange(1, total + 1), errno.ENOSPC)))
            jobs.append((ci, 'any,write,,%d,0,KILL' % rnd.randrange(1, total + 1)))
    fsj = [(ci, x) for ci in range(len(configs)) for x in (0, 100, 143, 5000, 100000, len(base[ci]) // 2, len(base[ci]) - 1, len(base[ci]) - 70000, 300000, 600000)]
    rnd.shuffle(jobs)
    ctx.log('runs', len(jobs) + len(fsj))

    def fault(j):
        fin, res, out = one(j[0], inject=j[1])
        if res == 'hung':
            fin, res, out = one(j[0], inject=j[1])      # only what happens again
        return dict(sc='config %d, %s' % j, final=fin, res=res, out=out if res == 'hung' or fin == 'bad' else '')

    def full(j):
        fin, res, out = one(j[0], fsize=j[1])
        return dict(sc='config %d, files limited to %d bytes' % j, final=fin, res=res, out='')
    obs = parallel([lambda j=j: fault(j) for j in jobs] + [lambda j=j: full(j) for j in fsj])
    ctx.add('executions', len(obs))
    lines = [json.dumps(x) for x in obs]
    tally = {}
    for x in obs:
        tally[x['final'], x['res']] = tally.get((x['final'], x['res']), 0) + 1
    ctx.log(tally)
    f = ctx.path('obs.ndjson')
    open(f, 'w').write('\n'.join(lines) + '\n')
    ctx.sample(lines[0])
    r = ctx.tlc_confirm('PublishTrace', env={'TRACES': f}, spec='TSpec', invariants=['PTypeOK', 'NoDamage', 'Honest'], properties=['Right'], workers=4)
    ctx.add('traces_validated_against_impl', len(lines))
    if not r['ok']:
        bad = [l for l, x in zip(lines, obs) if x['final'] == 'bad' or x['res'] == 'hung' or (x['res'] == 'ok' and x['final'] != 'whole')]
        m = re.findall(r'c = (\d+)', r['out'])
        bad = bad or [lines[int(m[-1]) - 1] if m else '']
        b = ctx.path('bad.json')
        open(b, 'w').write('\n'.join(bad))
        ctx.violation('a fault during plotting is not reported or damages the plot: %s' % '\n'.join(bad[:6])[:3000], [b])
    ctx.assumptions += ['k = 16; two configurations; faults at sampled calls on temporary files, at all calls but writes on the plot file (writes sampled)', 'accepted by the operating system means the call succeeded; power loss is not considered']
