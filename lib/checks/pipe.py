"""Stages and pools: exhaustive models + real classes under the controlled scheduler."""
import json, os, random
from vlib import *

IMPL_INV = ('ContractHolds', 'FinalOk', 'NoDeadlock')


def stage_model(ctx, NP, NI, fails='{}', waits='FALSE', live=True):
    r = ctx.tlc('StageImpl', constants={'NP': NP, 'NI': NI, 'FAILS': fails, 'WAITS': waits}, invariants=IMPL_INV,
                properties=('Terminates',) if live else (), deadlock=True, expect_ok=True, workers=2, heap='6g')
    return r


def pool_model(ctx, N, NI, fails='{}', dfails='{}', out='TRUE'):
    return ctx.tlc('PoolImpl', constants={'N': N, 'NI': NI, 'FAILS': fails, 'DFAILS': dfails, 'OUT': out},
                   invariants=IMPL_INV, properties=('Terminates',), deadlock=True, expect_ok=True, workers=2, heap='6g')


def build(ctx):
    return ctx.cxx('stage_pool', [os.path.join(HARN, 'stage_pool.cpp')] + ctx.vsched_srcs(),
                   flags='-g -fsanitize=thread', link='')


def drive(ctx, exe, scenarios, name):
    """run scenario lines spread over the cores; returns the merged trace file and statistics"""
    nshard = min(NCPU, max(1, len(scenarios)))
    shards = [scenarios[i::nshard] for i in range(nshard)]

    def one(i):
        o = ctx.path('%s_%d.ndjson' % (name, i))
        p = ctx.harness([exe, o], inp=('\n'.join(shards[i]) + '\n').encode(), timeout=300)
        return o, json.loads(p.stdout.decode().strip().splitlines()[-1])
    res = parallel([lambda i=i: one(i) for i in range(nshard)])
    out = ctx.path(name + '.ndjson')
    tot = {}
    with open(out, 'w') as fh:
        for o, st in res:
            fh.write(open(o).read())
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
    ctx.add('schedules_executed', tot.get('runs', 0))
    ctx.log(name, tot)
    return out


def rerun_fn(ctx, exe):
    def f(d):
        o = ctx.path('rerun.ndjson')
        ctx.harness([exe, o], inp=(d['sc'] + '\n').encode(), timeout=300)
        return 'timeout' in open(o).read()
    return f


def samples(ctx, f, n=2):
    ls = open(f).read().splitlines()
    rnd = random.Random(ctx.seed)
    for l in rnd.sample(ls, min(n, len(ls))):
        d = json.loads(l)
        ctx.sample({'scenario': d['sc'], 'events': d['ev'][:40]})


def validate(ctx, exe, module, f, what):
    samples(ctx, f)
    return validate_traces(ctx, module, f, what, confirm_timeout=rerun_fn(ctx, exe))
