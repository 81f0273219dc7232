import errno, json, os, random, shutil, tempfile, threading
from vlib import *
from checks.plotter import *

PLOT = re.compile(r'(plot-[-\w]*?-[0-9a-f]{64})')


def batch_case(log, sc, ds):
    """abstract events of a run from its log"""
    order, ev, dirs = {}, [], {}
    fin, dst = set(), set()
    first = True
    base = set()
    fdir = ds['fd']
    for w in log:
        if w[0] == 'snap':
            names = set(w[1:])
            if first:
                base, first = names, False
                continue
            for f in sorted(names):
                if f in base:
                    continue
                d, b = os.path.split(f)
                nm = b[:-5]
                if nm not in order:
                    order[nm] = len(order) + 1
                    ev.append(dict(e='start', p=order[nm]))       # cannot be explained if it is out of order
                i = order[nm]
                if nm not in fin:
                    fin.add(nm)
                    dirs.setdefault(nm, {})['made'] = d
                    ev.append(dict(e='fin', p=i))
                    dirs[nm]['at'] = d
                elif d != dirs[nm]['at'] and nm not in dst:
                    dst.add(nm)
                    dirs[nm]['at'] = d
                    if not ds.get('free'):
                        ev.append(dict(e='dest', p=i))
        elif w[0] == 'signal':
            ev.append(dict(e='sig', p=0))
        elif w[0] == 'exit':
            ev.append(dict(e='exit', p=int(w[1])))
        elif len(w) >= 7:
            thr, call, act, p, p2, extra, ex = w[:7]
            if act.isdigit():
                continue
            m = PLOT.search(os.path.basename(p))
            if not m:
                continue
            nm = m.group(1)
            tmp = '.plot' not in os.path.basename(p)
            if call in ('openat', 'open', 'creat') and extra in 'cw' and tmp:
                if nm not in order:
                    order[nm] = len(order) + 1
                    ev.append(dict(e='start', p=order[nm]))
                    dirs.setdefault(nm, {})
                dirs[nm].setdefault('bytes', {}).setdefault(os.path.dirname(p), 0)
            if 'write' in call and tmp and nm in dirs and extra.isdigit():
                by = dirs[nm].setdefault('bytes', {})
                by[os.path.dirname(p)] = by.get(os.path.dirname(p), 0) + int(extra)
    num = {}

    def dn(d):
        return num.setdefault(os.path.normpath(d), len(num))
    d1, d2 = dn(ds['d1']), dn(ds['d2'])
    out = []
    for nm, i in sorted(order.items(), key=lambda x: x[1]):
        d = dirs.get(nm, {})
        if 'made' not in d:
            continue
        by = d.get('bytes', {})
        out.append(dict(used=sorted(dn(x) for x in by), heavy=dn(max(by, key=by.get)) if by else -1, made=dn(d['made']), went=dn(d['at'])))
    return dict(sc=json.dumps(sc), n=sc['n'], direct=int(ds['direct']), wait=int('-w' in sc['opts']), mayfail=sc.get('mayfail', 0), ev=ev, dirs=out,
                d1=d1, d2=d2, toggle=int('-G' in sc['opts']), st=dn(ds['st']) if ds['st'] else -1, fd=dn(ds['fd']) if ds['fd'] else -1)


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    main, inj, ref = parallel([lambda: build_main(ctx), lambda: build_inject(ctx), lambda: build_ref(ctx)])
    # the model: all interleavings
    jobs = []
    for n in (0, 1, 2, 3, -1):
        for direct in ('TRUE', 'FALSE'):
            for wait in ('TRUE', 'FALSE'):
                con = {'N': str(n), 'Direct': direct, 'Wait': wait, 'Bugs': '{}', 'MaxPlots': '3', 'MaxFails': '2'}
                kw = dict(constants=con, invariants=['BTypeOK', 'Exact', 'OneByOne'], properties=['Refines', 'NoMore'] + (['Ends', 'Stops'] if n >= 0 else []), workers=1, expect_ok=True)
                if n < 0:
                    kw['constraint'] = 'Bound'
                jobs.append(lambda kw=kw: ctx.tlc('BatchImpl', **kw))
    parallel(jobs)
    for b, inv in (('noclose', 'Exact'), ('noretry', 'Exact'), ('noflag', 'NoMore')):
        kw = dict(invariants=[inv]) if inv != 'NoMore' else dict(properties=[inv])
        if ctx.tlc('BatchImpl', constants={'N': '3', 'Direct': 'FALSE', 'Wait': 'FALSE', 'Bugs': '{"%s"}' % b, 'MaxPlots': '3', 'MaxFails': '2'}, workers=1, count=False, **kw)['ok']:
            raise CheckError('the model does not depend on ' + b)

    def scenario(sc):
        root = tempfile.mkdtemp(prefix='b', dir=ctx.path(''))
        shm = None
        try:
            D = {x: os.path.join(root, x) for x in ('t', 'u', 'f', 's')}
            for d in D.values():
                os.mkdir(d)
            if sc.get('otherfs'):
                shm = tempfile.mkdtemp(prefix='vbatch', dir='/dev/shm')
                D['f'] = shm
            o = sc['opts']
            cmd = [main, '-k', 16, '-u', 16, '-r', sc['threads'], '-f', toy_key(5), '-p', toy_key(7), '-t', D['t'] + '/', '-n', sc['n']] + [x.replace('%f', D['f']).replace('%s', D['s']).replace('%u', D['u']) for x in o]
            ds = dict(d1=D['t'], d2=D['u'] if '%u/' in o else D['t'])
            final = D['f'] if '%f/' in o else D['t']
            stage = D['s'] if '%s/' in o else D['t']
            ds['direct'] = '-D' in o or final == stage
            ds['fd'] = final
            ds['st'] = final if '-D' in o else stage
            if '-G' in o:
                if '-D' not in o:
                    ds['st'] = None              # either temporary directory
                if '%f/' not in o:
                    ds['fd'] = None
                    ds['direct'] = ds['free'] = True     # either temporary directory, made there or moved there
            log = os.path.join(root, 'log')
            env = dict(os.environ, WATCH=':'.join(sorted(set(D.values()))), RANDSEED=str(sc['seed']))
            p = subprocess.Popen([inj, log, ';'.join(sc['rules']) or '-', '--'] + [str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=env)
            hung = False
            try:
                out, _ = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, 9)
                subprocess.run(['pkill', '-9', '-f', root])
                out, _ = p.communicate()
            lg = read_log(log)
            c = batch_case(lg, sc, ds)
            if hung:
                c['ev'].append(dict(e='exit', p=124))
            elif not any(e['e'] == 'exit' for e in c['ev']):
                raise CheckError('no exit recorded: %s' % out[-500:])
            # what is finally there is complete: sizes and magic
            c['out'] = out[-300:].decode(errors='replace') if c['ev'][-1]['p'] else ''
            ids = []
            for d in set(D.values()):
                for f in os.listdir(d):
                    if f.endswith('.plot'):
                        b = open(os.path.join(d, f), 'rb').read()
                        ml = int.from_bytes(b[58:60], 'big') if b[54:58] == b'v1.0' else 0
                        pt = [int.from_bytes(b[60 + ml + 8 * j:68 + ml + 8 * j], 'big') for j in range(10)]
                        if not b.startswith(b'Proof of Space Plot') or any(x >= y for x, y in zip(pt, pt[1:] + [len(b)])):
                            c['ev'].append(dict(e='damaged', p=0))
                    elif PLOT.search(f) and not hung and c['ev'][-1] == dict(e='exit', p=0):
                        c['ev'].append(dict(e='left', p=0))
            return c
        finally:
            shutil.rmtree(root, ignore_errors=True)
            if shm:
                shutil.rmtree(shm, ignore_errors=True)
    T2, F, S = ['-2', '%u/'], ['-d', '%f/'], ['-s', '%s/']
    layouts = [T2 + F, F, T2, T2 + F + ['-D'], T2 + F + S, F + S + ['-w'], T2 + F + ['-w'], T2 + F + ['-G'], T2 + F + ['-G', '-D'], T2 + ['-G'], T2 + F + ['-G', '-w'], S, F + ['-D'] + S, S + ['-w']]
    scs = []

    def add(**k):
        k.setdefault('threads', rnd.choice([1, 2, 4]))
        k.setdefault('rules', [])
        k.setdefault('seed', rnd.randrange(1, 1 << 30))
        scs.append(k)
    for o in layouts:
        add(n=rnd.choice([2, 3]) if '-G' not in o else 3, opts=o)
    add(n=0, opts=T2 + F)
    add(n=1, opts=T2 + F)
    add(n=1, opts=F, otherfs=1)
    add(n=2, opts=T2 + F + ['-w'], otherfs=1)
    # signals: at operations of the first or second plot, of the move, at all phases
    pts = [('any', 'openat', '*plot-k16*.p1.*'), ('any', 'write', '*plot-k16*.p2.*'), ('any', 'write', '*.plot?*'), ('main', 'rename', '*.plot'), ('other', 'rename', '*.plot'), ('any', 'unlink', '*plot-k16*'), ('any', 'read', '*plot-k16*.p3*')]
    for i in range(14 if q else 120):
        thr, call, pat = pts[i % len(pts)]
        o = rnd.choice(layouts)
        n = rnd.choice([2, 3, -1])
        when = 1 if call == 'rename' else rnd.randrange(1, 60)
        if rnd.random() < 0.4:
            when = rnd.choice([2, 1]) if call == 'rename' else when + rnd.choice([0, 300])
        if n < 0 and thr == 'other' and ('-D' in o or o in (T2, T2 + ['-G'])):
            n = 3              # no move: the signal would never come
        rules = ['%s,%s,%s,%d,0,%s' % (thr, call, pat, when, rnd.choice(['INT', 'TERM']))]
        if n < 0:
            rules.append('main,rename,*.plot,3,0,INT')        # in any case
            rules = rules[1:] if when > 200 else rules[:1] if call != 'rename' or when == 1 else rules[1:]
        add(n=n, opts=o, rules=rules)
    # slow moves, failing moves, with and without a signal meanwhile
    for i in range(12 if q else 80):
        o = rnd.choice([x for x in layouts if '%f/' in x and '-D' not in x])
        nf = rnd.choice([0, 1, 3])
        rules = []
        kind_ = rnd.choice(['rename', 'copy-open', 'copy-write', 'hold', 'final-rename'])
        if i < 2:                                                    # failing for very long
            kind_, nf = (('rename', 'copy-open')[i], (400, 60)[i])
        if kind_ == 'rename':                                       # neither rename nor copy possible for some time
            rules += ['other,rename,*.plot,1,%d,%d' % (nf, errno.EACCES), 'other,openat,*.plot?*,1,%d,%d' % (nf, errno.EACCES)]
        elif kind_ == 'copy-open':
            rules += ['other,rename,*/[ts]/*.plot,1,-1,%d' % errno.EXDEV, 'other,openat,*/f/*,1,%d,%d' % (nf, errno.ENOSPC)]
        elif kind_ == 'copy-write':
            rules += ['other,rename,*/[ts]/*.plot,1,-1,%d' % errno.EXDEV, 'other,write,*/f/*,%d,0,%d' % (rnd.choice([1, 3]), errno.ENOSPC)]
        elif kind_ == 'final-rename':
            rules += ['other,rename,*/[ts]/*.plot,1,-1,%d' % errno.EXDEV, 'other,rename,*.plot?*,1,%d,%d' % (nf, errno.EIO)]
        else:
            rules += ['other,rename,*.plot,%d,%d,HOLD%d' % (1, rnd.choice([0, 3]), rnd.choice([300, 1500]))]
        if rnd.random() < 0.5:
            rules.append('%s,%s,*plot-k16*,%d,0,INT' % rnd.choice([('main', 'openat', rnd.randrange(1, 200)), ('other', 'rename', 1)]))
        if rnd.random() < 0.4 and kind_ != 'hold':
            rules.append('other,openat,*.plot,1,0,HOLD%d' % rnd.choice([200, 800]))
        add(n=rnd.choice([1, 2, 3]) if not any(r.endswith('INT') for r in rules) else rnd.choice([2, 3]), opts=o, rules=rules)
    # a plot fails: not a success
    for i in range(3 if q else 15):
        add(n=2, opts=rnd.choice(layouts), rules=['any,write,*plot-k16*,%d,-1,%d' % (rnd.randrange(50, 1200), errno.ENOSPC)], mayfail=1)
    ctx.log('scenarios', len(scs))
    res = parallel([lambda sc=sc: scenario(sc) for sc in scs])
    ctx.add('executions', len(res))
    ctx.log('plots', sum(len(r['dirs']) for r in res), 'signals', sum(1 for r in res for e in r['ev'] if e['e'] == 'sig'))
    lines = [json.dumps(r) for r in res]
    f = ctx.path('batch.ndjson')
    open(f, 'w').write('\n'.join(lines) + '\n')
    ctx.sample(lines[0])
    ctx.add('traces_validated_against_impl', len(lines))
    bad = 0
    while bad < 4:
        r = ctx.tlc('BatchTrace', env={'TRACES': f}, spec='TSpec', invariants=['Stuck', 'Right', 'BTypeOK', 'Exact', 'OneByOne'], workers=4)
        if r['ok']:
            break
        ls = last_state(r['out'], ['c', 'l'])
        k = int(ls['c']) - 1
        d = json.loads(lines[k])
        # once more, with other keys (in rare cases, about 1 of 3000, a k = 16 plot cannot be made: its tables are larger than 2^16)
        sc2 = dict(json.loads(d['sc']))
        if d['ev'][-1]['e'] == 'exit' and d['ev'][-1]['p'] == 134 and 'bucket index out of range' in d.get('out', ''):
            sc2['seed'] += 1
            lines[k] = json.dumps(scenario(sc2))
            open(f, 'w').write('\n'.join(lines) + '\n')
            if 'bucket index out of range' not in lines[k]:
                continue
        l = int(ls['l'])
        what = json.dumps(d['ev'][l]) if l < len(d['ev']) else 'directories'
        one = ctx.path('bad_%d.json' % bad)
        open(one, 'w').write(lines[k])
        ctx.violation('a batch run does not do what was asked: cannot be explained: %s (event %d of %s) directories %s options %s\n%s' % (what, l + 1, json.dumps(d['ev']), json.dumps(d['dirs']), d['sc'], d.get('out')), [one])
        bad += 1
        lines = lines[:k] + lines[k + 1:]
        open(f, 'w').write('\n'.join(lines) + '\n')
    ctx.assumptions += ['k = 16; the key libraries are stand-ins; sleeping before a retry is cut short', 'a request that arrives between the decision for another plot and its first file may still see that plot made']
