import errno, json, os, random, resource, shutil, tempfile
from vlib import *
from checks.plotter import build_inject, read_log

ERRS = {'read': ['EIO'], 'write': ['ENOSPC', 'EIO'], 'openat': ['EACCES', 'EMFILE'], 'close': ['EIO', 'ENOSPC'], 'rename': ['EXDEV', 'EACCES', 'EIO'], 'unlink': ['EACCES'], 'fsync': ['EIO'], 'lseek': ['EIO']}
SAME = {'pread': 'read', 'readv': 'read', 'pwrite': 'write', 'pwritev': 'write', 'writev': 'write', 'open': 'openat', 'creat': 'openat', 'renameat': 'rename', 'renameat2': 'rename', 'link': 'rename', 'linkat': 'rename',
        'unlinkat': 'unlink', 'fdatasync': 'fsync', 'sendfile': 'write', 'copy_file_range': 'write', 'ftruncate': 'write', 'truncate': 'write', 'fallocate': 'write', 'mkdir': 'openat'}


class Rig:
    """one move in its own directories: source directory, destination directory (same or other file system)"""

    def __init__(self, ctx, exe, inj):
        self.ctx, self.exe, self.inj = ctx, exe, inj
        self.root = tempfile.mkdtemp(prefix='mv', dir=ctx.path(''))
        self.shm = None

    def run(self, data, other_fs, old, left, chunk, inject=None, fsize=None, tries=1, log=None):
        root = tempfile.mkdtemp(prefix='vmove', dir=self.root)
        sd = os.path.join(root, 's')
        os.mkdir(sd)
        if other_fs:
            dd = tempfile.mkdtemp(prefix=os.path.basename(root), dir='/dev/shm')
        else:
            dd = os.path.join(root, 'd')
            os.mkdir(dd)
        src, dst = os.path.join(sd, 'x.plot'), os.path.join(dd, 'x.plot')
        try:
            open(src, 'wb').write(data)
            if old is not None:
                open(dst, 'wb').write(old)
            if left is not None:
                open(dst + '.tmp', 'wb').write(left)
            cmd = [self.exe, src, dst, str(chunk), str(tries)]
            if inject or log:
                # only calls that concern the two directories are counted
                rule = '-'
                if inject:
                    rule = ';'.join('any,%s,*/%s*,%d,%d,%s' % (call, os.path.basename(root), n, more, what) for call, n, more, what in inject)
                cmd = [self.inj, log or '-', rule, '--'] + cmd
            pre = (lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))) if fsize is not None else None
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, preexec_fn=pre)

            def cls(b):
                return 'whole' if b == data else 'old' if old is not None and b == old else 'part'
            seen = {}
            for d in (sd, dd):
                for f in os.listdir(d):
                    seen[os.path.join(d, f)] = cls(open(os.path.join(d, f), 'rb').read())
            s, t = seen.pop(src, 'none'), seen.pop(dst, 'none')
            w = 'whole' if 'whole' in seen.values() else 'part' if seen else 'none'
            rc = p.returncode
            res = {0: 'ok', 3: 'failed'}.get(rc, 'killed' if rc in (-9, 137) else 'died%d' % rc)
            return [s, t, w], res
        finally:
            shutil.rmtree(root, ignore_errors=True)
            if other_fs:
                shutil.rmtree(dd, ignore_errors=True)


def calls_of(log):
    """(system call, occurrence) in the order of execution, of those in the two directories"""
    out, cnt = [], {}
    for w in read_log(log):
        if len(w) > 6 and re.search('/vmove', w[3] + w[4]):
            n = cnt[w[1]] = cnt.get(w[1], 0) + 1
            out.append((w[1], n))
    return out


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    exe = ctx.cxx('copy', [os.path.join(HARN, 'copy.cpp'), os.path.join(REPO, 'src/settings.cpp')])
    rig = Rig(ctx, exe, build_inject(ctx))
    # the algorithm, all faults and crash points
    for fs in ('TRUE', 'FALSE'):
        ctx.tlc('MoveImpl', constants={'Chunks': '3' if q else '8', 'Tries': '3', 'SameFs': fs, 'VIA': 'FALSE'}, invariants=['Safe', 'NeverPartial', 'Honest', 'Retriable'], properties=['Refines'], workers=2, expect_ok=True)
    r = ctx.tlc('MoveImpl', constants={'Chunks': '1', 'Tries': '1', 'SameFs': 'FALSE', 'VIA': 'TRUE'}, invariants=['Honest'], workers=1, count=False)
    if r['ok']:
        raise CheckError('the model does not show the known defect')
    jobs = []
    for chunk in (1, 7, 64):
        buf = chunk * 16
        for size in [0, 1, buf - 1, buf, buf + 1, 3 * buf, 3 * buf + 5] + ([4096, 5000] if chunk == 64 else []) + ([] if q else [rnd.randrange(20000) for _ in range(6)]):
            for other in (False, True):
                if q and rnd.random() < 0.2 and size not in (buf, 3 * buf + 5):
                    continue
                jobs.append((chunk, bytes(rnd.randrange(256) for _ in range(size)) , other, None if rnd.random() < 0.6 else b'old plot' + bytes(rnd.randrange(256) for _ in range(rnd.choice([5, 9000]))),
                             None if rnd.random() < 0.6 else bytes(rnd.randrange(256) for _ in range(rnd.choice([3, 9000]))), rnd.randrange(1 << 30)))
    # a bigger one, so that more than one write of the library's own buffer is needed
    for other in (False, True):
        jobs.append((1024, os.urandom(70000), other, None, None, 1))
        jobs.append((4096, os.urandom(200001), other, b'old', b'left', 2))

    def one(j):
        chunk, data, other, old, left, seed = j
        r2 = random.Random(seed)
        out = []
        log = ctx.path('log_%d_%d_%d' % (seed, len(data), other))
        tag = 'size %d, chunk %d, %s file system%s%s' % (len(data), chunk, 'other' if other else 'same', ', old plot' if old else '', ', left-over' if left else '')
        end, res = rig.run(data, other, old, left, chunk, log=log)
        calls = calls_of(log)
        if len(calls) < 1:
            raise CheckError('no file operations seen')
        os.remove(log)
        # killed at every call
        keep = range(len(calls))
        if q and len(calls) > 40:
            keep = sorted(set(r2.sample(range(len(calls)), 24)) | set(range(len(calls) - 8, len(calls))) | set(range(5)))
        idx = [calls[i] for i in keep]
        st = [['whole', 'old' if old else 'none', 'part' if left else 'none']]
        for name, n in idx:
            s, kr = rig.run(data, other, old, left, chunk, inject=[(name, n, 0, 'KILL')])
            st.append(s)
        st.append(end)
        out.append(dict(sc=tag + ', killed at each call', st=st, res=res, must=1))
        # each call fails, once or from then on
        for name, n in idx:
            kind = SAME.get(name, name)
            for e in ERRS[kind]:
                for pers in ('', '+'):
                    if q and r2.random() < 0.2:
                        continue
                    s, fr = rig.run(data, other, old, left, chunk, inject=[(name, n, -1 if pers else 0, str(getattr(errno, e)))])
                    out.append(dict(sc='%s, %s #%d%s fails with %s' % (tag, name, n, ' and later' if pers else '', e), st=[s], res=fr))
        # a call transfers only a part, and the next one is as before or fails
        for name, n in idx:
            kind = SAME.get(name, name)
            if kind not in ('read', 'write'):
                continue
            nb = r2.choice([1, 5, 100, 4096])
            for nxt in (None,) + tuple(str(getattr(errno, e)) for e in ERRS[kind]):
                if q and r2.random() < 0.3:
                    continue
                more = r2.choice([0, -1])
                s, fr = rig.run(data, other, old, left, chunk, inject=[(name, n, 0, 'SHORT%d' % nb)] + ([(name, n + 1, more, nxt)] if nxt else []))
                out.append(dict(sc='%s, %s #%d only %d bytes%s' % (tag, name, n, nb, ', then %s%s' % (nxt, ' and later' if more else '') if nxt else ''), st=[s], res=fr))
        # the destination runs full in the middle
        for lim in sorted({0, 1, len(data) // 2, max(0, len(data) - 1), 4096}):
            if lim < len(data):
                s, fr = rig.run(data, other, old, left, chunk, fsize=lim)
                out.append(dict(sc='%s, no space after %d bytes' % (tag, lim), st=[s], res=fr))
        return out
    res = [x for y in parallel([lambda j=j: one(j) for j in jobs]) for x in y]
    for name, sel in (('crash', [x for x in res if 'must' in x]), ('fault', [x for x in res if 'must' not in x])):
        lines = [json.dumps(x) for x in sel]
        ctx.add('executions', sum(len(x['st']) for x in sel))
        f = ctx.path(name + '.ndjson')
        open(f, 'w').write('\n'.join(lines) + '\n')
        ctx.log(name, 'recordings', len(lines), 'states', sum(len(x['st']) for x in sel), {v: sum(x['res'] == v for x in sel) for v in {x['res'] for x in sel}})
        ctx.sample(lines[-1][:700])
        r = ctx.tlc_confirm('MoveTrace', env={'TRACES': f}, spec='TSpec', invariants=['TypeOK', 'Safe', 'NeverPartial', 'Honest'], properties=['Right'] if name == 'crash' else [], workers=4)
        ctx.add('traces_validated_against_impl', len(lines))
        if not r['ok']:
            m = re.findall(r'c = (\d+)', r['out'])
            bad = lines[int(m[-1]) - 1] if m else ''
            b = ctx.path('bad.json')
            open(b, 'w').write(bad)
            ctx.violation('moving a plot can lose it, expose a part or misreport: %s' % bad[:1500], [b])
    ctx.assumptions += ['short transfers of read() and write() at one place per run', 'a crash is the end of the process (not of the machine); files up to 200 kB']
