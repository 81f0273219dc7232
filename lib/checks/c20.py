import errno, json, os, random, shutil, tempfile
from vlib import *
from checks.plotter import *

NAME = 'plot-k16-2026-01-02-03-04-%s'


def snapshot(dirs):
    r = {}
    for d in set(dirs):
        for root, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                st = os.lstat(p)
                r[p] = (st.st_ino, st.st_mtime_ns, st.st_size, open(p, 'rb').read() if st.st_size < 10000 else b'')
            for x in ds:
                r[os.path.join(root, x)] = ('dir',)
    return r


def events(log, dirs, num):
    """file operations below dirs from an inject log; num: path -> number (extended)"""
    dirs = [os.path.join(d, '') for d in dirs]

    def n(p):
        p = os.path.normpath(p)
        return num.setdefault(p, len(num) + 1) if any(p.startswith(d) for d in dirs) else 0
    ev = []
    for w in log:
        if len(w) < 7:
            continue
        thr, call, act, p, q, extra, ex = w[:7]
        if act.isdigit() or act == 'KILL':
            continue                       # did not happen
        a, b = n(p), n(q) if q else 0
        if not a and not b:
            continue
        if call in ('openat', 'open', 'creat', 'mkdir'):
            if extra == 'r':
                continue
            ev.append(dict(o='w' if extra == 'w' else 'c', p=a, q=0, f=0))
        elif call in ('truncate', 'ftruncate'):
            ev.append(dict(o='w', p=a, q=0, f=0))
        elif call.startswith('unlink'):
            ev.append(dict(o='d' if ex == '1' else 'n', p=a, q=0, f=0))
        elif call.startswith('rename'):
            ev.append(dict(o='r', p=a, q=b, f=int(q.endswith('.plot'))))
        elif call.startswith('link'):
            ev.append(dict(o='c', p=b, q=0, f=0))
        else:
            continue
        if len(ev) > 1 and ev[-1] == ev[-2]:
            ev.pop()
    return ev


def decoys(suffixes, names, dirs, own):
    """files of others: the same kinds of files for other plots"""
    for d in set(dirs):
        for nm in names:
            for s in suffixes:
                p = os.path.join(d, nm + s)
                if p not in own:
                    open(p, 'w').write('other ' + nm + s)
        for f in ('notes.txt', '.hidden', 'x.tmp', 'bucket_0.tmp', 'table1.tmp'):
            open(os.path.join(d, f), 'w').write('other')
        sub = os.path.join(d, 'sub')
        os.makedirs(sub, exist_ok=True)
        open(os.path.join(sub, 'f.plot'), 'w').write('x')


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe, main, inj = parallel([lambda: build_plot(ctx), lambda: build_main(ctx), lambda: build_inject(ctx)])
    ctx.tlc('FilesImpl', constants={'Keep': '{}'}, invariants=['FTypeOK', 'Strangers', 'Clean', 'NoDangling'], properties=['Refines'], workers=1, expect_ok=True)
    for k in ('"p1.table1"', '"p2.table7"', '"p3s2.sort7"'):
        if ctx.tlc('FilesImpl', constants={'Keep': '{%s}' % k}, invariants=['Clean'], workers=1, count=False)['ok']:
            raise CheckError('the model does not depend on removing ' + k)

    def launch(cmd, log, rules='-', seed=1):
        p = subprocess.Popen([inj, log, rules, '--'] + [str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=dict(os.environ, RANDSEED=str(seed)))
        try:
            out, _ = p.communicate(timeout=120)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return 124, out

    def layout(root, part):
        """directories tmp, tmp2, out: equal numbers are the same directory"""
        ds = [os.path.join(root, 'd%d' % x) for x in part]
        for d in ds:
            os.makedirs(d, exist_ok=True)
        return ds
    # which kinds of files a run makes (names beyond the plot's name)
    idh = hexid(rnd)
    root = tempfile.mkdtemp(dir=ctx.path(''))
    ds = layout(root, (0, 1, 2))
    rc, out = launch([exe] + plot_args(cfg(16, idh, threads=2, lb=2, lb3=3), NAME % idh, *[d + '/' for d in ds]), ctx.path('base.log'))
    if rc:
        ctx.violation('a plain run fails: %s' % out[-500:])
        return
    base = NAME % idh
    suf = set()
    for w in read_log(ctx.path('base.log')):
        for p in w[3:5]:
            b = os.path.basename(p)
            if b.startswith(base):
                suf.add(b[len(base):])
    suf |= {'.plot', '.plot.tmp', '.p1.table1.tmp', '.tmp'}
    shutil.rmtree(root)
    ctx.log('kinds of files', len(suf))

    def scenario(sc):
        root = tempfile.mkdtemp(prefix='sc', dir=ctx.path(''))
        try:
            r2 = random.Random(sc['seed'])
            ids = hexid(r2)
            ds = layout(root, sc['part'])
            lst = sorted(suf)
            if sc['what'] == 'main':
                # the real program; names carry the current minute
                names = ['plot-k16-%s-%s' % (t, i) for t in ('2026-01-01-00-00', time.strftime('%Y-%m-%d-%H-%M')) for i in (hexid(r2), ids[:-1] + ('0' if ids[-1] != '0' else '1'))] + ['plot', 'plot-k16']
            else:
                me = NAME % ids
                names = [NAME % hexid(r2), me[:-1] + ('0' if me[-1] != '0' else '1'), me + '0', me[:-1], 'x' + me, me[1:], 'p', me.replace('-03-04-', '-03-05-'), me[:26], me[:r2.randrange(27, 80)], '']
            names = [n for n in names if n]
            decoys(r2.sample(lst, min(len(lst), 90)), names, ds, set())
            before = snapshot(ds)
            log = os.path.join(root, 'log')
            if sc['what'] == 'main':
                cmd = [main, '-k', 16, '-u', 1 << sc['lb'], '-v', 1 << sc['lb3'], '-r', sc['threads'], '-f', toy_key(5), '-p', toy_key(7), '-t', ds[0] + '/', '-2', ds[1] + '/', '-d', ds[2] + '/', '-n', sc['count']] + sc['opts']
                if sc.get('stage'):
                    cmd += ['-s', ds[0] + '/']
            else:
                c = cfg(16, ids, threads=sc['threads'], lb=sc['lb'], lb3=sc['lb3'], rchunk=sc['rchunk'], wchunk=sc['wchunk'], multi=sc['multi'])
                cmd = [exe] + plot_args(c, me, *[d + '/' for d in ds])
            num = {}
            if sc.get('pair'):
                # a second run beside it, in the same directories: neither may touch the other's files
                idb = [ids[:-1] + ('2' if ids[-1] != '2' else '3'), ('0' if ids[0] != '0' else '1') + ids[1:]][sc['pair'] % 2]       # names differ in one place
                logb = os.path.join(root, 'logb')
                cb = dict(c, id=idb)
                (rc, out), (rcb, outb) = parallel([lambda: launch(cmd, log), lambda: launch([exe] + plot_args(cb, NAME % idb, *[d + '/' for d in ds]), logb)])
                numb = {}
                lb_ = read_log(logb)
                events(lb_, ds, numb)
                mine_b = set(numb)
                rc = rc or rcb
            else:
                rc, out = launch(cmd, log, sc.get('rules', '-'), sc['seed'])
                mine_b = set()
            after = snapshot(ds)
            for p in before:
                num.setdefault(os.path.normpath(p), len(num) + 1)
            for p in mine_b:
                num.setdefault(p, len(num) + 1)
            other = sorted({num[os.path.normpath(p)] for p in before} | {num[p] for p in mine_b})
            ev = events(read_log(log), ds, num)
            touched = [p for p in before if after.get(p) != before[p]]
            left = [p for p in after if p not in before and p not in mine_b]
            if sc['what'] == 'main':
                want = [p for p in after if p not in before and re.match(re.escape(ds[2]) + r'/plot-k16-[-0-9]+-[0-9a-f]{64}\.plot$', p)]
                if len(want) != sc['count']:
                    want = []
            else:
                want = [os.path.join(ds[2], me + '.plot')]
                # the plot of the run beside it is there, too
                if sc.get('pair') and not os.path.exists(os.path.join(ds[2], NAME % idb + '.plot')):
                    touched.append('plot of the other run')
            for p in left + want:
                num.setdefault(p, len(num) + 1)
            ok = rc == 0
            if not ok and not sc.get('rules'):
                touched.append('run failed: %s' % out[-300:].decode(errors='replace'))
            names_of = {v: k for k, v in num.items()}
            return dict(sc=json.dumps(sc), n=len(num), other=other, ev=ev, ok=int(ok), touched=[os.path.basename(t) for t in touched], left=sorted(num[p] for p in left), want=sorted(num[p] for p in want)), names_of
        finally:
            shutil.rmtree(root, ignore_errors=True)
    parts = [(0, 0, 0), (0, 1, 1), (0, 1, 0), (0, 0, 1), (0, 1, 2)]
    scs = []
    for i in range(2 if q else 12):
        for part in parts:
            scs.append(dict(what='plot', seed=rnd.randrange(1 << 30), part=part, threads=rnd.choice([1, 2, 3, 5, 8]), lb=rnd.choice([1, 2, 3, 4, 5]), lb3=rnd.choice([1, 2, 3, 4]),
                            rchunk=rnd.choice([2000, 65536, 1 << 20]), wchunk=rnd.choice([64, 512, 4096]), multi=rnd.choice([1, 2])))
    for i in range(2 if q else 10):
        scs.append(dict(what='plot', seed=rnd.randrange(1 << 30), part=rnd.choice(parts), threads=2, lb=2, lb3=rnd.choice([1, 3]), rchunk=65536, wchunk=4096, multi=1, pair=1 + i))
    for i in range(6 if q else 40):
        rule = rnd.choice(['any,write,*%s*,%d,-1,%d' % (NAME[:10], rnd.randrange(1, 400), errno.ENOSPC), 'any,openat,*%s*,%d,-1,%d' % (NAME[:10], rnd.randrange(1, 60), errno.EACCES), 'any,write,*%s*,%d,0,KILL' % (NAME[:10], rnd.randrange(1, 400)),
                           'any,read,*%s*,%d,0,%d' % (NAME[:10], rnd.randrange(1, 100), errno.EIO)])
        scs.append(dict(what='plot', seed=rnd.randrange(1 << 30), part=rnd.choice(parts), threads=2, lb=2, lb3=2, rchunk=65536, wchunk=512, multi=1, rules=rule))
    ex = 'other,rename,*.plot,1,0,%d' % errno.EXDEV
    for i in range(1 if q else 4):
        for part, opts, rules, cnt, stage in [((0, 1, 2), [], '-', 2, 0), ((0, 1, 2), [], ex, 2, 0), ((0, 1, 2), ['-D'], '-', 1, 0), ((0, 0, 0), [], '-', 2, 0), ((0, 1, 2), ['-G'], '-', 3, 0), ((0, 1, 1), ['-w'], ex, 1, 0), ((0, 1, 2), [], '-', 1, 1)]:
            scs.append(dict(what='main', seed=rnd.randrange(1 << 30), part=part, opts=opts, rules=rules, count=cnt, stage=stage, threads=rnd.choice([1, 2, 4]), lb=4, lb3=rnd.choice([4, 5])))
    ctx.log('scenarios', len(scs))
    res = parallel([lambda sc=sc: scenario(sc) for sc in scs])
    for sc, (d, _) in zip(scs, res):
        # a failed move is retried; with an injected error only that is expected to end well
        if sc['what'] == 'main' and not d['ok']:
            d['touched'].append('run failed')
    ctx.add('executions', len(res))
    ctx.log('events', sum(len(d['ev']) for d, _ in res), 'failed runs', sum(1 - d['ok'] for d, _ in res))
    lines = [json.dumps(d) for d, _ in res]
    chunks = [list(range(i, len(lines), 4)) for i in range(4)]

    def judge(ix):
        f = ctx.path('files_%d.ndjson' % ix[0])
        open(f, 'w').write('\n'.join(lines[i] for i in ix) + '\n')
        return ctx.tlc('FilesTrace', env={'TRACES': f}, spec='TSpec', invariants=['Stuck'], workers=2)
    ctx.sample(lines[0][:600])
    rs = parallel([lambda ix=ix: judge(ix) for ix in chunks if ix])
    ctx.add('traces_validated_against_impl', len(lines))
    for ix, r in zip(chunks, rs):
        if r['ok']:
            continue
        ls = last_state(r['out'], ['c', 'i'])
        k = ix[int(ls['c']) - 1]
        d, names = res[k]
        i = int(ls['i'])
        if i < len(d['ev']):
            e = d['ev'][i]
            what = 'operation %s on %s %s' % (e['o'], names.get(e['p']), names.get(e['q'], ''))
        else:
            what = 'at the end: left %s, wanted %s, touched %s' % ([names[x] for x in d['left']][:10], [names[x] for x in d['want']], d['touched'][:10])
        one = ctx.path('bad_%d.json' % k)
        open(one, 'w').write(json.dumps(dict(d, names=names)))
        ctx.violation('a run does not keep to its own files or leaves something behind: %s\nscenario %s' % (what, d['sc']), [one])
    ctx.assumptions += ['k = 16; operations intercepted as system calls; concurrent runs have different plot names']
