"""building and running the whole plotter (the four real phases) and the independent reader"""
import json, os, random, re
from vlib import *

STUB = os.path.join(HARN, 'stub')
PLOT = os.path.join(HARN, 'plot')


def build_plot(ctx, name='plot', defs='', opt='-O1'):
    return ctx.cxx(name, [os.path.join(PLOT, f) for f in ('p34.cpp', 'p2.cpp', 'p1.cpp', 'main.cpp')] + [(os.path.join(STUB, 'blake3.c'), '-O2'), os.path.join(REPO, 'lib/chacha8.c'),
                   os.path.join(REPO, 'src/settings.cpp')] + ctx.fse_srcs(), flags=defs, incs=[STUB, PLOT], opt=opt)


def build_ref(ctx):
    return ctx.cxx('plotref', [os.path.join(HARN, 'plotref.cpp'), (os.path.join(STUB, 'blake3.c'), '-O2')], incs=[HARN], opt='-O2', repo_inc=False)


def hexid(rnd):
    return ''.join('%02x' % rnd.randrange(256) for _ in range(32))


def cfg(k, idh, memo='-', threads=4, lb=4, lb3=None, rchunk=65536, wchunk=4096, multi=1, k34=False):
    return dict(k=k, id=idh, memo=memo, threads=threads, lb=lb, lb3=lb3 or lb, rchunk=rchunk, wchunk=wchunk, multi=multi, k34=k34)


def plot_args(c, name, d1, d2, d3):
    return ['plot', c['k'], c['id'], c['memo'] or '-', c['threads'], c['lb'], c['lb3'], c['rchunk'], c['wchunk'], c['multi'], name, d1, d2, d3]


def run_plot(ctx, exe, c, tag, timeout=300):
    """one plot in a directory of its own; returns (rc, path of the plot, output)"""
    d = ctx.path('run_%s' % tag)
    os.makedirs(d)
    try:
        p = sh([exe] + [str(x) for x in plot_args(c, 'p', d + '/', d + '/', d + '/')], timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        return 124, os.path.join(d, 'p.plot'), 'did not finish within %d s' % timeout
    return p.returncode, os.path.join(d, 'p.plot'), p.stdout.decode(errors='replace') + p.stderr.decode(errors='replace')


def read_plot(ctx, ref, plot, tab, f7, c, seed, nproofs, tag, timeout=800):
    """the cases of the independent reader"""
    o = ctx.path('chk_%s.ndjson' % tag)
    p = sh([ref, 'check', plot, tab['ANSTAB'], f7, c['id'], str(c['k']), str(seed), str(nproofs), o], timeout=timeout, env={'MEMO': c['memo'] if c['memo'] != '-' else ''}, check=False)
    lines = open(o).read().splitlines() if os.path.exists(o) else []
    if p.returncode:
        lines = [json.dumps({'kind': 'all', 'bad': 1, 'why': 'reader failed (%d)' % p.returncode})]
    else:
        os.remove(o)
    return lines


def kind(l):
    return re.match(r'\{"kind": ?"(\w+)"', l).group(1)


def build_inject(ctx):
    exe = ctx.path('inject')
    r = sh(['gcc', '-O1', '-o', exe, os.path.join(HARN, 'inject.c')], timeout=120)
    if r.returncode:
        raise CheckError('inject.c: ' + r.stderr[-1000:])
    return exe


def build_main(ctx, name='chia_plot', defs=''):
    """the real main program, with stand-ins for the libraries that are not here"""
    ms = os.path.join(HARN, 'mainstub')
    return ctx.cxx(name, [os.path.join(REPO, 'src/chia_plot.cpp'), (os.path.join(ms, 'stub.cpp'), '-O2'), (os.path.join(STUB, 'blake3.c'), '-O2'), os.path.join(REPO, 'lib/chacha8.c'),
                   os.path.join(REPO, 'src/settings.cpp')] + ctx.fse_srcs(), flags=defs + ' -DGIT_COMMIT_HASH=\\"verif\\"', incs=[ms, STUB], opt='-O1')


def read_log(path):
    """lines of an inject log as tuples"""
    r = []
    for l in open(path, errors='replace'):
        r.append(tuple(l.rstrip('\n').split('\t')))
    return r


def toy_key(v):
    return 'a0%08x' % v + '11' * 43
