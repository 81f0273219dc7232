import json, os, random, shutil, tempfile
from vlib import *
from checks.plotter import *
from checks.c22 import bech32, CS, header


def run(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    main, = parallel([lambda: build_main(ctx)])

    def scenario(sc):
        root = tempfile.mkdtemp(prefix='k', dir=ctx.path(''))
        try:
            d = os.path.join(root, 'd')
            os.mkdir(d)
            rl = os.path.join(root, 'rand')
            cmd = [main, '-k', '16', '-u', '16', '-r', '2', '-t', d + '/', '-n', str(sc['n']), '-f', sc['farmer']]
            cmd += ['-c', sc['addr']] if sc['addr'] else ['-p', sc['pool']]
            if sc['port'] is not None:
                cmd += ['-x', str(sc['port'])]
            if sc['unique']:
                cmd.append('-Z')
            if sc['id']:
                cmd += ['-i', sc['id']]
            env = dict(os.environ, RANDLOG=rl)
            if sc['rand']:
                env['RANDSEED'] = str(sc['rand'])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=120, cwd=root)
            if p.returncode and b'bucket index out of range' in p.stdout:
                return scenario(dict(sc, rand=(sc['rand'] or 1) + 1))          # rare: the tables of a k = 16 plot are too large
            plots = []
            for f in sorted(os.listdir(d)):
                if not f.endswith('.plot'):
                    continue
                h = header(os.path.join(d, f))
                m = re.search(r'-k(\d+)-.*-([0-9a-f]{64})\.plot$', f)
                plots.append(dict(id=list(bytes.fromhex(h['id'])), memo=list(bytes.fromhex(h['memo'])), k=h['k'], nameid=list(bytes.fromhex(m.group(2))) if m else [], namek=int(m.group(1)) if m else 0))
            sym = [CS.index(x) for x in sc['addr'][sc['addr'].rindex('1') + 1:-6]] if sc['addr'] else []
            rand = [list(bytes.fromhex(l.strip())) for l in open(rl)] if os.path.exists(rl) else []
            return dict(sc=sc, rc=p.returncode, k=16, port=8444 if sc['port'] is None else sc['port'], unique=sc['unique'], pool=list(bytes.fromhex(sc['pool'])), farmer=list(bytes.fromhex(sc['farmer'])), addr=sym, id=list(bytes.fromhex(sc['id'])),
                        plots=plots, rand=rand, out=p.stdout[-300:].decode(errors='replace') if p.returncode else '')
        finally:
            shutil.rmtree(root, ignore_errors=True)
    scs = []
    for i in range(20 if q else 150):
        contract = i % 2
        scs.append(dict(n=rnd.choice([1, 1, 2, 3]), farmer=toy_key(rnd.randrange(998244353)), pool=toy_key(rnd.randrange(998244353)), addr=bech32(rnd.randbytes(32), rnd.choice(['xch', 'txch', 'xcc'])) if contract else '',
                        port=[None, 8444, 9699, 11337, 1, 65535][(i // 2) % 6], unique=int(i % 5 in (1, 4)), id='', rand=rnd.randrange(1, 1 << 30) if i % 3 else None))
    scs.append(dict(scs[0], n=1, id=hexid(rnd)))
    scs.append(dict(scs[1], n=1, id=hexid(rnd), unique=1))
    scs.append(dict(scs[0], farmer=scs[0]['pool'], n=1))
    scs.append(dict(scs[0], farmer=toy_key(0), pool=toy_key(998244352)))
    res = parallel([lambda sc=sc: scenario(sc) for sc in scs])
    ctx.add('executions', len(res))
    for r in res:
        if r['rc'] or len(r['plots']) != r['sc']['n']:
            ctx.violation('a run with valid keys made %d plots, status %d: %s\n%s' % (len(r['plots']), r['rc'], json.dumps(r['sc']), r['out']))
            return
    ms = [tuple(p['memo'][-32:]) for r in res for p in r['plots'] if not r['sc']['rand']]
    if len(ms) != len(set(ms)):
        ctx.violation('a master secret was used twice')
    lines = [json.dumps({k: v for k, v in r.items() if k != 'sc'}) for r in res]
    f = ctx.path('keys.ndjson')
    ctx.sample(lines[0][:700])
    open(f, 'w').write('\n'.join(lines) + '\n')
    ctx.add('traces_validated_against_impl', sum(len(r['plots']) for r in res))
    r = ctx.tlc_confirm('KeysTrace', env={'TRACES': f}, invariants=['MemoRight', 'IdRight', 'Fresh', 'NameRight'], workers=NCPU)
    if not r['ok']:
        ls = last_state(r['out'], ['c', 'p'])
        k = int(ls['c']) - 1
        m = re.search(r'Invariant (\w+) is violated', r['out'])
        one = ctx.path('bad.json')
        open(one, 'w').write(lines[k])
        ctx.violation('plot %s of run %s: %s is violated\n%s' % (ls['p'], json.dumps(res[k]['sc']), m.group(1) if m else '?', lines[k][:2000]), [one])
    ctx.assumptions += ['the key library is a stand-in with a toy group: the structure of the derivation is judged, not the cryptography']
