"""Disk sort and disk table: build, drive, validate."""
import json, os, random
from vlib import *

SORT_T = ['rec_t', 'phase1::entry_1', 'phase1::entry_2', 'phase1::entry_4', 'phase1::entry_7', 'phase2::entry_x', 'phase3::entry_lp', 'phase3::entry_np']
TAB_T = ['phase1::tmp_entry_1', 'phase1::tmp_entry_x', 'phase1::entry_7']


def build(ctx, sort=True, table=True, name='disk', fl=''):
    """sort: True, False or 'some' (two record types)"""
    inst = os.path.join(HARN, 'disk_inst.cpp')
    srcs = [os.path.join(HARN, 'disk.cpp'), (os.path.join(REPO, 'src/settings.cpp'), '-fno-sanitize=all')]
    srcs += [(inst, '-DSORT_T=%s' % t) for t in SORT_T if sort is True or t in ('rec_t', 'phase3::entry_lp')] if sort else []
    srcs += [(inst, '-DTABLE_T=%s' % t) for t in TAB_T] if table else []
    defs = fl + ('' if sort is True else ' -DSORT_SOME' if sort else ' -DNO_SORT') + ('' if table else ' -DNO_TABLE')
    return ctx.cxx(name, srcs + ctx.vsched_srcs(), flags='-g -fsanitize=thread -I' + HARN + defs)



def drive(ctx, exe, lines, name):
    nshard = min(NCPU, max(1, len(lines)))
    shards = [lines[i::nshard] for i in range(nshard)]

    def one(i):
        o = ctx.path('%s_%d.ndjson' % (name, i))
        p = ctx.harness([exe, o, ctx.path('%s_scr_%d' % (name, i))], inp=('\n'.join(shards[i]) + '\n').encode(), timeout=600)
        out = []
        for l in open(o):
            d = json.loads(l)
            d['sc'] = shards[i][d['line'] - 1]
            out.append(d)
        return out, json.loads(p.stdout.decode().strip().splitlines()[-1])
    res = parallel([lambda i=i: one(i) for i in range(nshard)])
    out = ctx.path(name + '.ndjson')
    seen, tot = set(), {}
    with open(out, 'w') as fh:
        for ds, st in res:
            for d in ds:
                fh.write(json.dumps(d, separators=(',', ':')) + '\n')
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
    ctx.add('executions', tot.get('runs', 0))
    ctx.log(name, tot)
    rnd = random.Random(ctx.seed)
    ls = open(out).read().splitlines()
    for l in rnd.sample(ls, min(2, len(ls))):
        d = json.loads(l)
        ctx.sample({'scenario': d['sc'][:300], 'events': [str(e)[:120] for e in d['ev'][:25]]})
    return out


def rerun_fn(ctx, exe):
    def f(d):
        o = ctx.path('rerun.ndjson')
        ctx.harness([exe, o, ctx.path('rerun_scr')], inp=(d['sc'] + '\n').encode(), timeout=600)
        return 'timeout' in open(o).read()
    return f


def histories(ctx, num, maxlen):
    r = ctx.tlc('DiskSortGen', constants={'MaxLen': maxlen}, spec='Spec', simulate='num=%d' % num,
                extra='-depth 60 -seed %d' % (ctx.seed * 7 + 1), workers=1, count=False)
    hs = []
    for l in r['out'].splitlines():
        if l.startswith('"HIST '):
            hs.append(json.loads(json.loads(l)[5:]))
    uniq = {json.dumps(h): h for h in hs}
    if len(uniq) < num // 3:
        raise CheckError('history generator produced too little\n' + r['out'][-2000:])
    ctx.add('generated_histories', len(uniq))
    return list(uniq.values())
