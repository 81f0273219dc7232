"""Common machinery of the checks: builds from /repo, TLC runs, evidence, verdicts."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Violation(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None, inp=None, check=True):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, env=e, cwd=cwd, input=inp)
    if check and p.returncode:
        raise CheckError('command failed (%d): %s\n%s\n%s' % (p.returncode, cmd, p.stdout.decode(errors='replace')[-3000:],
                                                             p.stderr.decode(errors='replace')[-3000:]))
    return p


def parallel(fns):
    """run thunks in parallel, return results in order, re-raise the first error"""
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, NCPU)) as ex:
        fs = [ex.submit(f) for f in fns]
        return [f.result() for f in fs]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.level = 'model_checking'
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []      # (what, replay path)
        self.known = []
        self.findings = load_findings(pid)
        self.replay_dir = os.path.join(VERIF, 'evidence', 'replay', pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)

    # ------------------------------------------------------------------ info
    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if callable(s):        # an example that broken code may not have produced
            try:
                s = s()
            except (StopIteration, IndexError):
                return
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def path(self, name):
        return os.path.join(self.dir, name)

    # --------------------------------------------------------------- verdict
    def violation(self, what, files=(), key=None):
        """files: paths to keep as replay material. key: identification matched against known findings"""
        for f in self.findings:
            if key is not None and f.get('key') == key:
                self.known.append((f, what))
                return
        os.makedirs(self.replay_dir, exist_ok=True)
        n = len(self.violations) + 1
        rp = os.path.join(self.replay_dir, 'violation_%d.txt' % n)
        with open(rp, 'w') as fh:
            fh.write('property %s tier %s seed %d\n%s\n' % (self.pid, self.tier, self.seed, what))
        for f in files:
            if os.path.isfile(f) and os.path.getsize(f) < 50 << 20:
                shutil.copy(f, os.path.join(self.replay_dir, 'v%d_%s' % (n, os.path.basename(f))))
        self.violations.append((what, rp))
        self.log('VIOLATION:', what.splitlines()[0][:300])

    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        done = set()
        for f, what in self.known:
            if f['key'] not in done:
                done.add(f['key'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']), flush=True)
        for what, rp in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp), flush=True)
        return 1 if self.violations else 0

    # ----------------------------------------------------------------- builds
    def cxx(self, out, srcs, flags='', cxx='g++', std='-std=c++17', link='', opt='-O1', repo_inc=True, incs=()):
        """compile sources in parallel (each entry: path or (path, extra flags)) and link"""
        inc = ' '.join('-I%s' % i for i in incs)
        if repo_inc:
            inc += ' -I%s/include -I%s/lib/FSE/lib -I%s/lib' % (REPO, REPO, REPO)
        jobs, objs = [], []
        for i, s in enumerate(srcs):
            extra = ''
            if isinstance(s, tuple):
                s, extra = s
            o = self.path('%s_%d.o' % (out, i))
            objs.append(o)
            comp = 'gcc' if s.endswith('.c') else cxx
            if cxx.startswith('clang'):
                comp = 'clang' if s.endswith('.c') else cxx
            st = '' if s.endswith('.c') else std
            cmd = '%s %s %s -w -fPIE -c %s %s %s %s -o %s' % (comp, st, opt, inc, flags if not s.endswith('.c') else '', extra, s, o)
            jobs.append(lambda c=cmd: sh(c, timeout=600))
        parallel(jobs)
        exe = self.path(out)
        sh('%s %s -o %s -rdynamic -Wl,-z,muldefs %s -lpthread -ldl' % (cxx, ' '.join(objs), exe, link))
        return exe

    def fse_srcs(self):
        return [os.path.join(REPO, 'lib/FSE/lib', f) for f in ('fse_compress.c', 'fse_decompress.c', 'entropy_common.c', 'hist.c')]

    def vsched_srcs(self):
        return [(os.path.join(HARN, 'vsched.cpp'), '-fno-sanitize=all'), (os.path.join(HARN, 'runner.cpp'), '-fno-sanitize=all')]

    def harness(self, cmd, inp=None, timeout=800, env=None):
        """run a harness around the code under test: dying on a signal or not ending (twice) is the code's doing"""
        if self.quick:
            timeout = min(timeout, 240)
        for again in (False, True):
            try:
                p = sh(cmd, timeout=timeout, env=env, inp=inp, check=False)
            except subprocess.TimeoutExpired:
                why = 'did not end within %d s' % timeout
            else:
                if p.returncode == 0:
                    return p
                why = 'ended with %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:])
                if p.returncode > 0 and b'Sanitizer' not in p.stderr:
                    raise CheckError('harness failed: %s %s' % (cmd, why))
        f = self.path('harness_input.txt')
        open(f, 'wb').write(inp or b'')
        self.violation('the code under test %s (%s)' % (why, os.path.basename(cmd[0])), [f])
        raise Violation()

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, constants=None, env=None, workers=NCPU, timeout=800, spec='Spec',
            invariants=(), properties=(), deadlock=False, extra='', heap='4g', expect_ok=False, simulate=None, postcond=None,
            constraint=None, view=None, count=True):
        """run TLC; returns dict(ok, kind, states, distinct, out). kind: '' | 'inv' | 'live' | 'deadlock'"""
        md = tempfile.mkdtemp(prefix='tlc_', dir=self.dir)
        top = os.path.join(SPEC, module + '.tla')
        if cfg is None:
            cfg = os.path.join(md, module + '.cfg')
            with open(cfg, 'w') as fh:
                if constants:
                    cplx = {k: v for k, v in constants.items() if str(v)[:1] in '<[-' or '<<' in str(v)}
                    if cplx:       # the configuration language has no tuples: define them in a wrapper module
                        top = os.path.join(md, 'MC.tla')
                        with open(top, 'w') as mh:
                            mh.write('---- MODULE MC ----\nEXTENDS %s\n' % module)
                            for k, v in cplx.items():
                                mh.write('c_%s == %s\n' % (k, v))
                            mh.write('====\n')
                    fh.write('CONSTANTS\n')
                    for k, v in constants.items():
                        fh.write('  %s <- c_%s\n' % (k, k) if k in cplx else '  %s = %s\n' % (k, v))
                fh.write('SPECIFICATION %s\n' % spec)
                for i in invariants:
                    fh.write('INVARIANT %s\n' % i)
                for i in properties:
                    fh.write('PROPERTY %s\n' % i)
                if constraint:
                    fh.write('CONSTRAINT %s\n' % constraint)
                if view:
                    fh.write('VIEW %s\n' % view)
                if postcond:
                    fh.write('POSTCONDITION %s\n' % postcond)
                fh.write('CHECK_DEADLOCK %s\n' % ('TRUE' if deadlock else 'FALSE'))
        e = dict(env or {})
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -Djava.io.tmpdir=%s -DTLA-Library=%s' % (heap, md, SPEC)
        cmd = ['tlc', '-workers', str(workers), '-metadir', os.path.join(md, 'm'), '-noGenerateSpecTE', '-config', cfg]
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += extra.split() + [top]
        p = None
        try:
            p = sh(cmd, timeout=timeout, env=e, cwd=md, check=False)
        finally:
            shutil.rmtree(os.path.join(md, 'm'), ignore_errors=True)
        out = p.stdout.decode(errors='replace') + p.stderr.decode(errors='replace')
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
        st, di = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        kind = None
        if p.returncode == 0:
            kind = ''
        elif p.returncode == 12 and 'is violated' in out:
            kind = 'inv'
        elif p.returncode == 13:
            kind = 'live'
        elif p.returncode == 11:
            kind = 'deadlock'
        if kind is None:
            raise CheckError('TLC failed on %s (exit %d)\n%s' % (module, p.returncode, out[-4000:]))
        if count:
            self.add('states', di)
            self.add('transitions', st)
        if expect_ok and kind:
            raise CheckError('model %s itself is violated (%s)\n%s' % (module, kind, out[-6000:]))
        return {'ok': kind == '', 'kind': kind, 'states': st, 'distinct': di, 'out': out, 'rc': p.returncode}

    def ans_tables(self):
        """the decoding tables of the entropy code, computed by TLC; returns the environment for module Ans"""
        f = self.path('anstab.ndjson')
        self.tlc('AnsBuild', env={'ANSTAB': f}, workers=1, count=False, expect_ok=True)
        return {'ANSTAB': f}

    def tlc_confirm(self, *a, **k):
        """TLC on recorded data: a rejection counts only when a second run repeats it"""
        r = self.tlc(*a, **k)
        if not r['ok']:
            k2 = dict(k)
            k2['count'] = False
            r2 = self.tlc(*a, **k2)
            if r2['ok']:
                raise CheckError('TLC rejection not repeatable: %s' % a[0])
        return r


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def last_state(out, names):
    """values of variables in the last printed state of a TLC counterexample"""
    parts = re.split(r'\nState \d+: ', out)
    txt = parts[-1] if len(parts) > 1 else out
    res = {}
    for n in names:
        m = re.search(r'/\\ %s = (.*?)(?=\n/\\ |\n\n|\Z)' % re.escape(n), txt, re.S)
        if m:
            res[n] = m.group(1).strip()
    return res


def validate_traces(ctx, module, trace_file, what, meta_key='sc', confirm_timeout=None, max_reject=5, env=None):
    """Check an ndjson file of traces with a <X>Trace module; report each rejected trace (up to max_reject)."""
    lines = open(trace_file).read().splitlines()
    if not lines:
        raise CheckError('no traces recorded for ' + what)
    total = len(lines)
    rejected = 0
    first = True
    while lines and rejected < max_reject:
        f = ctx.path('v_%s.ndjson' % module)
        with open(f, 'w') as fh:
            fh.write('\n'.join(lines) + '\n')
        e = dict(env or {})
        e['TRACES'] = f
        r = ctx.tlc(module, env=e, cfg=os.path.join(SPEC, module + '.cfg'))
        if r['ok']:
            break
        ls = last_state(r['out'], ['t', 'l', 's'])
        t = int(ls['t'])
        bad = lines[t - 1]
        one = ctx.path('reject_%d.ndjson' % (rejected + 1))
        with open(one, 'w') as fh:
            fh.write(bad + '\n')
        e['TRACES'] = one
        r2 = ctx.tlc(module, env=e, cfg=os.path.join(SPEC, module + '.cfg'), count=False)
        if r2['ok']:
            raise CheckError('rejection of a single trace is not repeatable')
        ls = last_state(r2['out'], ['t', 'l', 's'])
        m = re.search(r'why \|-> "([^"]*)"', ls.get('s', ''))
        why = m.group(1) if m else 'incomplete trace'
        d = json.loads(bad)
        if confirm_timeout and 'timeout' in bad:
            if not confirm_timeout(d):
                ctx.log('wall-clock stall not repeatable, ignored:', d.get(meta_key))
                del lines[t - 1]
                continue
        rejected += 1
        if time.time() - ctx.t0 > 400:
            max_reject = rejected
        ctx.violation('%s: %s at event %s of trace [%s]\n%s' % (what, why, ls.get('l'), d.get(meta_key), bad[:4000]), [one])
        del lines[t - 1]
    ctx.add('traces_validated_against_impl', total)
    return rejected


def main(run):
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        run(ctx)
        rc = ctx.finish()
    except Violation:
        rc = ctx.finish()
    except subprocess.TimeoutExpired as ex:
        traceback.print_exc()
        rc = ctx.finish() if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        # a violation already established stands, whatever broke afterwards
        rc = ctx.finish() if ctx.violations else 2
        if rc == 2 and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.exit(rc)
