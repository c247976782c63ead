"""C12: output is a function of the source content, not of its order."""
import itertools
import json
import os
import subprocess
import sys
from .. import canon, explore, runner
from .. import universe as u
from ..zonesrc import real_tzdb

ID = 'C12'
BOUNDS = (
    'A: all permutations of the zone, policy and link blocks of 4 databases '
    '(quick: 6 blocks, thorough: 7), every assignment of 5 blocks to 3 of the '
    'region files; B: all interleavings of the rule lines of two policies of '
    '3+3 (thorough: 3+4) lines; C: all orders and repetitions of an include '
    'list of 4 names; D: processes whose hash seeds realise every iteration '
    'order (all k!) of each probe set of up to 3 (thorough: 4) names used by '
    'the databases, also on the real TZDB; E: every compile repeated; in '
    'every scope, all languages and actions')
ASSUMPTIONS = [
    'the order of the rules inside one policy is part of its content',
    'the recorded command line is the same in all compared runs',
]
MORE = ('--ignore_buf_size_too_large', '--nostrict')

P = ('Rule\tP\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tD\n'
     'Rule\tP\t1990\tmax\t-\tOct\tlastSun\t1:00u\t0\tS\n')
# databases: blocks of text; names differ in case, prefix, symbols
DBS = {
    'plain': [
        P,
        'Rule\tQ\t1985\t2001\t-\tApr\tSun>=1\t2:00\t1:00\tXD\n'
        'Rule\tQ\t1985\tmax\t-\tSep\tSun>=1\t2:00\t0\tXS\n',
        'Zone\tA/B\t1:00\tP\tA%sT\n',
        'Zone\tA/a\t2:00\tQ\tB%sT\t2002\n\t\t\t3:00\tP\tA%sT\n',
        'Link\tA/B\tA/C\n',
        'Link\tA/a\tA/D\n',
        'Zone\tEtc/GMT+1\t-1:00\t-\tM\n',
    ],
    'notes': [      # notes, removals, truncation in any scope
        'Rule\tP\t1990\tmax\t-\tMar\t1\t0:00:30\t0:20\tD\n'
        'Rule\tP\t1990\tmax\t-\tMar\t20\t0:00:31\t0\tS\n',
        'Rule\tQ\t1990\tmax\t-\tMar\t1\t25:00\t1:00\tLL\n'
        'Rule\tQ\t1990\tmax\t-\tOct\t1\t0:00\t0\tMM\n',
        'Zone\tA/B\t1:00:30\tP\tA%sT\n',
        'Zone\tA/A\t1:00\tQ\tB%sT\t2002 Jan 1 0:00:10\n\t\t\t3:00\tP\tA%sT\n',
        'Zone\tB/Old\t0:01:05\t-\tLMT\t1950\n\t\t\t1:00\t-\tA\n',
        'Link\tA/B\tB/C\n',
        'Link\tA/A\tB/A\n',
    ],
    'names': [      # shared name fragments, many formats
        P,
        'Zone\tAmerica/Long/Name\t1:00\tP\tA%sT\n',
        'Zone\tAmerica/Long\t1:00\tP\tA%sT\t2003\n\t\t\t1:00\t-\tZZZ\n',
        'Zone\tAmerica/North/Name\t2:00\t-\tB/C\n',
        'Link\tAmerica/Long\tLong/America\n',
        'Link\tAmerica/Long/Name\tAmerica/LongName\n',
        'Zone\tNorth/America/Name\t3:00\t-\t%z\n',
    ],
    'shared': [     # everything uses the same policies
        P.replace('P', 'P+1'),
        P.replace('\tP', '\tP-1').replace('\tD', '\tDD'),
        P.replace('\tP', '\tUnused'),
        'Zone\tZ1\t1:00\tP+1\tA%s\t2001\n\t\t\t2:00\tP-1\tA%s\n',
        'Zone\tZ2\t1:00\tP-1\tA%s\t2001\n\t\t\t2:00\tP+1\tB%s\n',
        'Zone\tZ3\t1:00\tP-1\tC%s\n',
        'Link\tZ3\tZ-3\n',
    ],
}
LANGS = ['arduino,python,go', 'c']


def argv(scope, lang):
    return u.argv_for(scope, 2000, 2010, lang, actions='zonedb,json,zonelist',
                      more=MORE)


_ref = {}


def reference(db, nblocks, scope, lang):
    k = (db, nblocks, scope, lang)
    if k not in _ref:
        _ref[k] = canon.canon(runner.run_main(
            {'asia': ''.join(DBS[db][:nblocks])}, argv(scope, lang)))
        if 'refused' in _ref[k]:
            raise Exception('reference refused: %s %s' % (db, scope))
    return _ref[k]


def cmp(a, res, out, key, p, where):
    out.states += 1
    out.traces += 1
    b = canon.canon(res)
    out.outcome(key + (': same' if a == b else ': DIFFERENT'))
    if a != b:
        out.bad(key, 'output differs (%s): %s\n%s' % (
            res.exc or 'accepted', canon.first_diff(a, b), where), p)


def perms(item):
    from ..harness import Out
    out = Out()
    db, n, scope, lang, ps, assign = item
    ref = reference(db, n, scope, lang)
    bl = DBS[db][:n]
    for perm in ps:
        if assign:
            files = {}
            for i, f in enumerate(perm):
                files.setdefault(f, []).append(bl[i])
            files = {f: ''.join(t) for f, t in files.items()}
        else:
            files = {'asia': ''.join(bl[i] for i in perm)}
        res = runner.run_main(files, argv(scope, lang))
        cmp(ref, res, out, 'files' if assign else 'order',
            {'db': db, 'n': n, 'scope': scope, 'lang': lang,
             'files': files}, '%s %s %s\n%s' % (db, scope, lang, files))
    return out


# --- B ---------------------------------------------------------------------

LINES = {
    'P': ['Rule\tP\t1990\t1999\t-\tMar\t1\t0:00\t1:00\tD',
          'Rule\tP\t2000\tmax\t-\tApr\t1\t0:00\t1:00\tE',
          'Rule\tP\t1990\tmax\t-\tOct\t1\t0:00\t0\tS',
          'Rule\tP\t2003\tonly\t-\tDec\t1\t0:00\t0\tT'],
    'Q': ['Rule\tQ\t1990\t1999\t-\tMar\t2\t0:00\t1:00\tF',
          'Rule\tQ\t2000\tmax\t-\tApr\t2\t0:00\t1:00\tG',
          'Rule\tQ\t1990\tmax\t-\tOct\t2\t0:00\t0\tH'],
}
ZQ = 'Zone\tA\t1:00\tP\tA%s\t2002\n\t\t1:00\tQ\tB%s\nZone\tB\t2:00\tP\tC%s\n'


def interleavings(a, b):
    for pos in itertools.combinations(range(a + b), a):
        yield pos


def inter(item):
    from ..harness import Out
    out = Out()
    n, scope, lang, poss = item
    ps, qs = LINES['P'][:n], LINES['Q']

    def text(pos):
        i = j = 0
        t = []
        for k in range(len(ps) + len(qs)):
            if k in pos:
                t.append(ps[i])
                i += 1
            else:
                t.append(qs[j])
                j += 1
        return '\n'.join(t) + '\n'
    base = canon.canon(runner.run_main(
        {'asia': text(range(n)) + ZQ}, argv(scope, lang)))
    for pos in poss:
        t = text(pos)
        # the zones may also sit between the rule lines
        for cut in (None, 2, 4):
            if cut is None:
                full = t + ZQ
            else:
                ls = t.split('\n')
                full = '\n'.join(ls[:cut]) + '\n' + ZQ + '\n'.join(ls[cut:])
            res = runner.run_main({'asia': full}, argv(scope, lang))
            cmp(base, res, out, 'interleaving', {
                'text': full, 'base': text(range(n)) + ZQ, 'scope': scope,
                'lang': lang}, full)
    return out


# --- C ---------------------------------------------------------------------

INC = ['A/B', 'A/C', 'A/a', 'Etc/GMT+1']


def includes(item):
    from ..harness import Out
    out = Out()
    scope, lang = item
    files = {'asia': ''.join(DBS['plain'])}
    base = canon.canon(runner.run_main(files, argv(scope, lang),
                                       include='\n'.join(INC) + '\n'))
    texts = []
    for perm in itertools.permutations(INC):
        texts.append('\n'.join(perm) + '\n')
        texts.append('\n'.join(perm))               # no final newline
        texts.append('# c\n\n  ' + ' \n\t'.join(perm) + '\n#A/D\n')
        for d in INC:
            texts.append('\n'.join(perm + (d,)) + '\n')
    for t in texts:
        res = runner.run_main(files, argv(scope, lang), include=t)
        cmp(base, res, out, 'include list', {
            'include': t, 'scope': scope, 'lang': lang}, t)
    return out


# --- D: hash seeds ---------------------------------------------------------

def probes(k):
    """Sets of k names that meet in sets of the compiler."""
    ps = [['A/B', 'A/C', 'A/a', 'A/D'], ['D', 'S', 'XD', 'XS'],
          ['P', 'Q', 'P+1', 'P-1'], ['A%sT', 'B%sT', 'ZZZ', 'B/C'],
          ['America', 'Long', 'North', 'Name'],
          ['python', 'c', 'go', 'arduino']]
    return [p[:k] for p in ps]


def find_seeds(k, limit=400):
    """Hash seeds that realise every iteration order of every probe set."""
    need = [set(itertools.permutations(p)) for p in probes(k)]
    seeds = []
    todo = [set(n) for n in need]
    code = ('import sys,json;ps=json.loads(sys.argv[1]);'
            'print(json.dumps([list(set(p)) for p in ps]))')
    got = 0
    for s in range(limit):
        env = dict(os.environ, PYTHONHASHSEED=str(s))
        o = json.loads(subprocess.run(
            [sys.executable, '-S', '-c', code, json.dumps(probes(k))],
            env=env, stdout=subprocess.PIPE, check=True).stdout)
        new = False
        for i, x in enumerate(o):
            if tuple(x) in todo[i]:
                todo[i].discard(tuple(x))
                new = True
                got += 1
        if new:
            seeds.append(s)
        if not any(todo):
            break
    return seeds, got, sum(len(t) for t in todo)


def seed_jobs(real):
    jobs = []
    for db in DBS:
        for scope in ('basic', 'extended', 'complete'):
            for lang in LANGS:
                jobs.append(({'asia': ''.join(DBS[db])}, argv(scope, lang),
                             None))
    jobs.append(({'asia': ''.join(DBS['plain'])}, argv('complete',
                                                       LANGS[0]),
                 '\n'.join(INC)))
    if real:
        for scope, lang in (('basic', LANGS[0]), ('complete', 'c'),
                            ('extended', LANGS[0])):
            jobs.append((real_tzdb(), u.argv_for(
                scope, 2000, 2050, lang, actions='zonedb,json,zonelist',
                more=MORE), None))
    return jobs


def child(seed, k, jobs):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    o = subprocess.run([sys.executable, '-B', os.path.join(
        here, 'seedrun.py')], input=json.dumps(
            {'jobs': jobs, 'probes': probes(k)}).encode(), env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if o.returncode:
        raise Exception('child failed: ' + o.stderr.decode()[-500:])
    return json.loads(o.stdout)


def seeds(item):
    from ..harness import Out
    out = Out()
    k, real, first, group = item
    jobs = seed_jobs(real)
    ref = child(first, k, jobs)
    for s in group:
        o = child(s, k, jobs)
        out.states += 1
        for n, (a, b) in enumerate(zip(ref['digests'], o['digests'])):
            out.traces += 1
            out.outcome('hash seed: ' + ('same' if a == b else 'DIFFERENT'))
            if a != b:
                fs = [f for f in sorted(set(a) | set(b))
                      if a.get(f) != b.get(f)]
                out.bad('hash seed', 'seeds %d and %d give different %s for '
                        '%s' % (first, s, fs, jobs[n][1]),
                        {'seeds': [first, s], 'k': k, 'real': real})
                break
    return out


def repeats(item):
    from ..harness import Out
    out = Out()
    scope, lang = item
    files = real_tzdb()
    av = u.argv_for(scope, 2000, 2050, lang, actions='zonedb,json,zonelist',
                    more=MORE)
    a = canon.canon(runner.run_main(files, av, timeout=300))
    cmp(a, runner.run_main(files, av, timeout=300), out, 'repeat',
        {'repeat': [scope, lang]}, 'real TZDB')
    # whole region files swapped, and all text in one file
    ns = sorted(files)
    sw = {n: files[ns[-1 - i]] for i, n in enumerate(ns)}
    cmp(a, runner.run_main(sw, av, timeout=300), out, 'repeat',
        {'repeat': [scope, lang]}, 'real TZDB, files swapped')
    one = {'europe': ''.join(files[n] for n in ns)}
    cmp(a, runner.run_main(one, av, timeout=300), out, 'repeat',
        {'repeat': [scope, lang]}, 'real TZDB, one file')
    return out


def check(ctx):
    scopes = ['basic', 'extended', 'complete']
    items = []
    for di, db in enumerate(DBS):
        n = 7 if ctx.thorough else 6
        ps = list(itertools.permutations(range(n)))
        fs = list(itertools.product(['africa', 'asia', 'southamerica'],
                                    repeat=5))
        for si, scope in enumerate(scopes):
            for li, lang in enumerate(LANGS):
                if not ctx.thorough and (si + li + di) % 3:
                    continue
                for b in explore.batches(ps, 180):
                    items.append((db, n, scope, lang, b, False))
                items.append((db, 5, scope, lang, fs, True))
    ctx.transitions += sum(len(i[4]) for i in items)
    ctx.pmap(perms, items, 'orders')
    it = []
    n = 4 if ctx.thorough else 3
    for scope in scopes:
        for lang in LANGS:
            it.append((n, scope, lang, list(interleavings(n, 3))))
    ctx.pmap(inter, it, 'interleavings')
    ctx.pmap(includes, [(s, l) for s in scopes for l in LANGS], 'include')
    k = 4 if ctx.thorough else 3
    sd, got, missing = find_seeds(k)
    ctx.notes['hash_seeds'] = len(sd)
    ctx.notes['set_iteration_orders_realised'] = got
    ctx.notes['set_iteration_orders_missing'] = missing
    if missing:
        ctx.cap('%d set iteration orders not realised by 400 seeds' % missing)
    ctx.pmap(seeds, [(k, ctx.thorough, sd[0], sd[i::8]) for i in range(8)],
             'seeds')
    ctx.pmap(repeats, [(s, l) for s in scopes for l in LANGS]
             if ctx.thorough else [('basic', 'c'), ('complete', LANGS[0])],
             'repeat')


def replay(p):
    from ..harness import Out
    out = Out()
    if 'seeds' in p:
        out = seeds((p['k'], p['real'], p['seeds'][0], [p['seeds'][1]]))
    elif 'repeat' in p:
        out = repeats(tuple(p['repeat']))
    elif 'include' in p:
        out = includes((p['scope'], p['lang']))
    elif 'text' in p:
        a = canon.canon(runner.run_main({'asia': p['base']}, argv(
            p['scope'], p['lang'])))
        cmp(a, runner.run_main({'asia': p['text']}, argv(
            p['scope'], p['lang'])), out, 'x', p, '')
    else:
        a = reference(p['db'], p['n'], p['scope'], p['lang'])
        cmp(a, runner.run_main(p['files'], argv(p['scope'], p['lang'])), out,
            'x', p, '')
    return [m for _, m, _ in out.viol]
