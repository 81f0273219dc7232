import errno, json, os, random, resource, shutil, tempfile
from vlib import *
from checks.plotter import *

CS = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
NONUM = -999


def polymod(v):
    c = 1
    for x in v:
        b = c >> 25
        c = ((c & 0x1ffffff) << 5) ^ x
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if (b >> i) & 1:
                c ^= g
    return c


def bech32(data, hrp='xch', const=0x2bc830a3):
    bits = ''.join('{:08b}'.format(x) for x in data)
    bits += '0' * (-len(bits) % 5)
    dp = [int(bits[i:i + 5], 2) for i in range(0, len(bits), 5)]
    h = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
    pm = polymod(h + dp + [0] * 6) ^ const
    return hrp + '1' + ''.join(CS[x] for x in dp + [(pm >> 5 * (5 - i)) & 31 for i in range(6)])


def header(path):
    b = open(path, 'rb').read(4096)
    ml = int.from_bytes(b[58:60], 'big')
    return dict(magic=b[:19] == b'Proof of Space Plot', id=b[19:51].hex(), k=b[51], memo=b[60:60 + ml].hex())


def name(path):
    """what the file name says: plot[-prefix]-k<size>-<date>-<id>.plot"""
    m = re.fullmatch(r'plot(?:-[a-z]+)*-k(\d+)-[-\d]+-([0-9a-f]{64})\.plot', os.path.basename(path))
    return dict(k=int(m.group(1)), id=m.group(2)) if m else dict(k=0, id='')


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    main, main34, inj = parallel([lambda: build_main(ctx), lambda: build_main(ctx, 'chia_plot_k34', '-DCHIA_K34=1'), lambda: build_inject(ctx)])
    gen = ctx.path('options.ndjson')
    ctx.tlc('OptionsGen', env={'OUT': gen}, workers=1, expect_ok=True)
    cases = [json.loads(l) for l in open(gen)]
    if resource.getrlimit(resource.RLIMIT_NOFILE)[1] < 4000:
        for c in cases:
            if c['o']['r'] > 100 or c['o']['u'] > 300 or c['o']['v'] > 300:
                c['o']['nofile'] = 'few'
    ctx.add('generated_cases', len(cases))
    h = rnd.randbytes(32)
    other = rnd.randbytes(32)
    key = dict(p=toy_key(rnd.randrange(1, 900000000)), f=toy_key(rnd.randrange(1, 900000000)))
    pid = hexid(rnd)
    addr = bech32(h)
    KEYS = lambda k: {'ok': k, 'short': k[:-2], 'long': k + '11', 'nonhex': k[:60] + 'zz' + k[62:], 'odd': k[:-1], 'prefix': '0x' + k[:-2], 'point': 'ff' + k[2:], 'empty': ''}
    ADDR = {'ok': addr, 'v0': bech32(h, const=1), 'size': bech32(h[:31]), 'sum': addr[:-1] + ('q' if addr[-1] != 'q' else 'p'), 'char': addr[:20] + 'b' + addr[21:], 'empty': ''}
    ID = {'ok': pid, 'short': pid[:-2], 'long': pid + '00', 'nonhex': 'g' + pid[1:], 'odd': pid[:-1], 'tail': pid[:-1] + ' '}

    def one(cs, k34, full):
        o = cs['o']
        root = tempfile.mkdtemp(prefix='o', dir=ctx.path(''))
        try:
            cmd, rules = [main34 if k34 else main], []
            for opt, x in (('k', '-k'), ('r', '-r'), ('m', '-K'), ('u', '-u'), ('v', '-v')):
                if o[opt] != NONUM:
                    cmd += [x, str(o[opt])]
            for opt, x, forms in (('p', '-p', KEYS(key['p'])), ('f', '-f', KEYS(key['f'])), ('c', '-c', ADDR), ('i', '-i', ID)):
                if o[opt] != 'none':
                    cmd += [x, forms[o[opt]]] if forms[o[opt]] else [{'-p': '--poolkey=', '-f': '--farmerkey=', '-c': '--contract=', '-i': '--id='}[x] + forms[o[opt]]]
            watch = []
            for opt, x in (('t', '-t'), ('t2', '-2'), ('d', '-d'), ('s', '-s')):
                d = os.path.join(root, opt)
                if o[opt] in ('ok', 'noslash', 'readonly'):
                    os.mkdir(d)
                    watch.append(opt)
                if o[opt] == 'file':
                    open(d, 'w').close()
                if o[opt] == 'readonly':
                    rules.append('any,openat,*/%s/*,1,-1,%d' % (opt, errno.EACCES))
                if o[opt] != 'none':
                    cmd += [x, d + ('' if o[opt] == 'noslash' else '/')]
            if o['g']:
                cmd.append('-G')
            if not full:
                rules.append('any,*,*/plot-*,1,0,KILL')

            def pre():
                resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40) if o['nofile'] == 'few' else (2000, min(20000, resource.getrlimit(resource.RLIMIT_NOFILE)[1])))
            before = {os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs}
            log = os.path.join(ctx.path(''), os.path.basename(root) + '.log')
            p = subprocess.Popen([inj, log, ';'.join(rules) or '-', '--'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=pre, cwd=root, env=dict(os.environ, RANDSEED=str(ctx.seed)))
            try:
                out, _ = p.communicate(timeout=120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                out, _ = p.communicate()
            started = any(len(w) > 6 and os.path.basename(w[3]).startswith('plot-') for w in read_log(log))
            os.remove(log)
            after = [os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs]
            after = [f for f in after if f not in before]
            plots = [f for f in after if f.endswith('.plot')]
            res = ('started' if not full else 'made' if p.returncode == 0 else 'broken') if started else 'zero' if p.returncode == 0 else 'refused'
            r = dict(o=o, kmax=34 if k34 else 32, res=res, left=len([f for f in after if f not in plots]), cmd=' '.join(cmd[1:]).replace(root, '.'), rc=p.returncode, out=out[-200:].decode(errors='replace') if not started or full else '')
            if res == 'made':
                hd = header(plots[0]) if plots else dict(magic=False, id='', k=0, memo='')
                ow = 64 if o['c'] == 'ok' else 96
                m = hd['memo']
                r['hdr'] = dict(n=len(plots), k=hd['k'] if hd['magic'] else 0, id=hd['id'], owner=m[:ow], farmer=m[ow:ow + 96], rest=(len(m) - ow - 96) // 2, dir=os.path.basename(os.path.dirname(plots[0])) if plots else '', name=name(plots[0] if plots else ''))
                r['want'] = dict(id=pid, pool=key['p'], contract=h.hex(), farmer=key['f'])
            return r
        finally:
            shutil.rmtree(root, ignore_errors=True)
    rnd.shuffle(cases)
    # all assignments with at most one wrong option, of the others a sample; complete runs for some valid ones
    base = [dict(k=16, r=2, m=NONUM, u=16, v=NONUM, p='ok', c='none', f='ok', i='none', t='ok', t2='none', d='none', s='none', g=0, nofile='many')]
    base += [dict(base[0], p='none', c='ok'), dict(base[0], t2='ok', d='ok', s='ok')]

    def dist(o):
        return min(sum(o[x] != b[x] for x in o) for b in base)
    near = [c for c in cases if dist(c['o']) <= 1]
    far = [c for c in cases if dist(c['o']) > 1]
    pick = near + far[:300 if q else 4000]
    jobs = [lambda c=c, k=k: one(c, k, False) for i, c in enumerate(pick) for k in ([False, True] if not q or c['o']['k'] in (33, 34, 35, 32) else [i % 2 == 1])]
    valid_ = [c for c in cases if c['v32'] == 'start' and c['o']['k'] in (16, 17) and c['o']['r'] in (1, 2, NONUM)]
    valid = [c for c in valid_ if c['o']['u'] in (16, 4, 128) and c['o']['v'] in (16, 4, 0, -7, NONUM)]
    many = [c for c in valid_ if (c['o']['u'] == 512) + (c['o']['v'] == 512) == 1]       # more buckets than the root of the range of keys
    mult = [c for c in valid if c['o']['m'] == 2]
    sel = valid[:16 if q else 120] + many[:2 if q else 20] + mult[:2 if q else 10] + [c for c in near if c['o'] in base]
    jobs += [lambda c=c, i=i: one(c, i % 2 == 1, True) for i, c in enumerate(sel)]
    ctx.log('cases', len(cases), 'runs', len(jobs))
    res = parallel(jobs)
    ctx.add('executions', len(res))
    tally = {}
    for r in res:
        tally[r['res']] = tally.get(r['res'], 0) + 1
    ctx.log(tally)
    for r in res:
        r.setdefault('hdr', 0)
        r.setdefault('want', 0)
    lines = [json.dumps(r) for r in res]
    f = ctx.path('runs.ndjson')
    ctx.sample(lines[0])
    ctx.add('traces_validated_against_impl', len(lines))
    bad = 0
    while bad < 5 and lines:
        open(f, 'w').write('\n'.join(lines) + '\n')
        r = ctx.tlc('OptionsTrace', env={'TRACES': f}, invariants=['Expected', 'NothingLeft', 'AsAsked'], workers=4)
        if r['ok']:
            break
        k = int(last_state(r['out'], ['c'])['c']) - 1
        m = re.search(r'Invariant (\w+) is violated', r['out'])
        one_ = ctx.path('bad_%d.json' % bad)
        open(one_, 'w').write(lines[k])
        d = json.loads(lines[k])
        ctx.violation('options [%s] (k up to %d): %s: %s, status %s, %d files left behind, header %s\n%s' % (d['cmd'], d['kmax'], m.group(1) if m else '?', d['res'], d['rc'], d['left'], json.dumps(d['hdr']), d['out']), [one_])
        bad += 1
        res_ = d['res']
        lines = lines[:k] + lines[k + 1:]
    # help and version do nothing
    ctx.assumptions += ['key libraries are stand-ins (a key is well-formed if the stand-in accepts it; addresses are decoded with the published checksum)', 'unwritable directories are simulated by failing calls', 'refusal for lack of file descriptors depends on the machine and is only judged for what it leaves behind']
