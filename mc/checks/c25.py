"""C25: a compile depends only on its own input, not on earlier compiles."""
import itertools
import json
import os
import pickle
import subprocess
import sys
from .. import canon, explore, runner
from .. import universe as u
from .c12 import DBS

ID = 'C25'
BOUNDS = (
    'A: every sequence of <=3 (thorough: <=4) compiles out of 12 jobs '
    '(different inputs, scopes, languages, windows, flags, include list, '
    'source errors, refusals, bad options, failure in the environment) in one '
    'process, in emptied and in shared output directories, each compile '
    'against the same job alone in a fresh interpreter; B: every subset of '
    'the languages and of the actions against each on its own, for 4 '
    'databases in every scope')
ASSUMPTIONS = [
    'arduino and c write three files of the same name, so both are not asked '
    'for into one directory',
    'the recorded values of --languages and --actions differ by definition',
]
MORE = ('--ignore_buf_size_too_large', '--nostrict')


def argv(scope, lang, s=2000, un=2010, actions='zonedb,json,zonelist',
         more=MORE):
    return u.argv_for(scope, s, un, lang, actions=actions, more=more)


def src(db):
    return {'asia': ''.join(DBS[db])}


BIG = 'big buffers'
JOBS = [
    (src('plain'), argv('basic', 'arduino'), None, None),
    (src('notes'), argv('complete', 'c'), None, None),
    (src('names'), argv('extended', 'python,go', 1990, 2020), None, None),
    (src('shared'), argv('basic', 'c,go,python', 2002, 2005), None, None),
    (src('plain'), argv('complete', 'arduino', more=('--nocompress',)), None,
     None),
    (src('names'), argv('basic', 'arduino,python'), 'America/Long\n', None),
    ({'asia': 'Zone\tX\t1:00\tFOO\n', 'europe': 'Rule\tP\n'},
     argv('basic', 'python'), None, None),                  # source error
    ({'asia': 'Zone\tA/B\t1:00\tNone\tA\nZone\tA/C\t2:00\t-\tB\n'},
     argv('extended', 'go'), None, None),                   # refused
    (src('plain'), argv('basic', 'fortran'), None, None),   # bad option
    (src('plain'), argv('extended', 'c', more=()), None, BIG),
    (src('notes'), argv('basic', 'python', more=('--strict',)), None, None),
    (src('shared'), argv('extended', 'c', 1995, 2100, more=(
        '--until_at_granularity', '900', '--nostrict')), None, None),
]


def run_job(n, keep=False):
    files, av, inc, env = JOBS[n]
    saved = runner.Env.sizes
    if env == BIG:
        runner.Env.sizes = staticmethod(lambda i, y: (9, 9))
    try:
        return runner.run_main(files, av, include=inc, keep_output=keep)
    finally:
        runner.Env.sizes = saved


def alone(n):
    """Canonical files of job n in a fresh interpreter."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    code = ('import sys,pickle\nsys.dont_write_bytecode=True\n'
            'sys.path.insert(0,%r)\n'
            'from mc import runner,canon\nrunner.load()\n'
            'from mc.checks import c25\n'
            'c=canon.canon(c25.run_job(%d))\n'
            'sys.stdout.buffer.write(pickle.dumps(c))\n' % (here, n))
    o = subprocess.run([sys.executable, '-B', '-c', code],
                       stdout=subprocess.PIPE, check=True,
                       env=dict(os.environ, PYTHONHASHSEED='0'))
    return pickle.loads(o.stdout)


def forked(func):
    """Result of func() in a forked child of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(func())
        except BaseException as e:
            data = pickle.dumps(repr(e))
        try:
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            if runner._ws is not None:
                runner._ws.close()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def sequence(seq, keep, refs, out):
    def body():
        bad = []
        for i, n in enumerate(seq):
            c = canon.canon(run_job(n, keep))
            a = refs[n]
            if keep and 'refused' not in c:
                c = {k: v for k, v in c.items() if k in a}
            if a != c:
                bad.append((i, canon.first_diff(a, c)))
                break
        return bad
    bad = forked(body)
    out.states += 1
    out.traces += len(seq)
    out.transitions += len(seq)
    out.outcome('same' if not bad else 'DIFFERENT')
    for b in bad if isinstance(bad, list) else [(0, bad)]:
        out.bad('history', 'compile %d of the sequence %s (%s output '
                'directory) differs from the same job alone: %s\n%s' % (
                    b[0] + 1, seq, 'shared' if keep else 'empty', b[1],
                    '\n'.join(' '.join(JOBS[n][1]) for n in seq)),
                {'seq': list(seq), 'keep': keep})


def batch(item):
    from ..harness import Out
    out = Out()
    seqs, refs = item
    for seq, keep in seqs:
        sequence(seq, keep, refs, out)
    return out


# --- B ---------------------------------------------------------------------

def nonempty(j):
    """JSON without the maps no requested language filled in."""
    return {k: v for k, v in j.items() if v != {}}


def contained(a, b, path=''):
    """First place where a is not contained in b."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return path + '/' + k
            r = contained(a[k], b[k], path + '/' + k)
            if r:
                return r
        return ''
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = contained(x, y, path + '/%d' % i)
            if r:
                return r
        return ''
    return '' if a == b else path + ': %r, %r' % (a, b)


def subsets_batch(item):
    from ..harness import Out
    out = Out()
    db, scope, compress = item
    files = src(db)
    more = MORE + (() if compress else ('--nocompress',))

    def get(langs, acts):
        r = runner.run_main(files, argv(scope, ','.join(langs),
                                        actions=','.join(acts), more=more))
        c = canon.canon(r, flags=True)
        return c
    ALL = ('zonedb', 'json', 'zonelist')
    single = {l: get([l], ALL) for l in ('arduino', 'c', 'python', 'go')}
    p = {'sub': list(item)}
    for group in (('arduino', 'python', 'go'), ('c', 'python', 'go')):
        for k in (2, 3):
            for ls in itertools.permutations(group, k):
                out.states += 1
                c = get(ls, ALL)
                if 'refused' in c:
                    out.bad('languages', '%s refused together' % (ls,), p)
                    continue
                want = {}
                for l in ls:
                    want.update(single[l])
                have = dict(c)
                js = json.loads(have.pop('zonedb.json'))
                want.pop('zonedb.json')
                out.traces += 1
                out.outcome('languages')
                if want != have:
                    out.bad('languages', '%s %s %s: %s' % (
                        db, scope, ls, canon.first_diff(want, have)), p)
                for l in ls:
                    d = contained(nonempty(json.loads(
                        single[l]['zonedb.json'])), js)
                    if d:
                        out.bad('json', '%s %s %s: JSON of %s alone differs '
                                'at %s' % (db, scope, ls, l, d), p)
    for ls in (['python'], ['arduino'], ['c'], ['go'], ['python', 'go'],
               ['go', 'c']):
        each = {a: get(ls, [a]) for a in ALL}
        for k in (2, 3):
            for acts in itertools.permutations(ALL, k):
                out.states += 1
                out.traces += 1
                want = {}
                for a in acts:
                    want.update(each[a])
                have = get(ls, acts)
                out.outcome('actions')
                if want != have:
                    out.bad('actions', '%s %s %s %s: %s' % (
                        db, scope, ls, acts, canon.first_diff(want, have)),
                        p)
    return out


def check(ctx):
    n = len(JOBS)
    ctx_refs = [alone(i) for i in range(n)]
    ctx.notes['jobs'] = ['refused' if 'refused' in r else
                         '%d files' % len(r) for r in ctx_refs]
    seqs = []
    for k in range(1, (5 if ctx.thorough else 4)):
        for seq in itertools.product(range(n), repeat=k):
            if k <= 2 or ctx.thorough and k == 3:
                seqs += [(seq, False), (seq, True)]
            else:
                # longer: the shared directory in turn
                if k == 3 or len(set(seq)) >= 2:
                    seqs.append((seq, sum(seq) % 2 == 0))
    ctx.pmap(batch, [(b, ctx_refs) for b in explore.batches(seqs, 60)],
             'sequences')
    ctx.pmap(subsets_batch, [(db, s, c) for db in DBS for s in (
        'basic', 'extended', 'complete') for c in (True, False)
        if ctx.thorough or c], 'subsets')


def replay(p):
    from ..harness import Out
    out = Out()
    if 'sub' in p:
        out = subsets_batch(tuple(p['sub']))
    else:
        sequence(tuple(p['seq']), p['keep'], {n: alone(n) for n in set(
            p['seq'])}, out)
    return [m for _, m, _ in out.viol]
