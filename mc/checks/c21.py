"""C21: command-line options mean what they document."""
import itertools
import json
from .. import canon, cal, decode_c, decode_py, explore, runner
from .. import universe as u

ID = 'C21'
BOUNDS = (
    'A: the product of 3 scopes x 15 language sets x 7 action sets x strict x '
    'compress x skip_bufestimator, and the same without a namespace; B: the '
    'product of 4 granularity options over {absent,1,60,900} (thorough: also '
    '16, 300, 3600) x 3 scopes x strict x 5 probe zones; C: start years '
    '1960..1990 and far values in each scope; D: every option given an unknown '
    'or missing value, every list of <=3 words of a vocabulary with unknown '
    'ones; E: every subset of the options that have defaults; F: namespaces, '
    'versions, file names; G: every subset of 3 zones and 2 links as an '
    'include list in 6 spellings')
ASSUMPTIONS = [
    'the documented meanings are those of the module text, --help texts and '
    'README of the compiler',
    'granularities of 0 or below and start_year >= until_year are not '
    'documented and not judged',
]
MORE = ('--ignore_buf_size_too_large',)
LANGS = ('arduino', 'c', 'python', 'go')
ACTIONS = ('zonedb', 'json', 'zonelist')
SCOPES = ('basic', 'extended', 'complete')
FILES = {
    'arduino': ['zone_%s.%s' % (a, b) for a in ('infos', 'policies',
                                                'registry')
                for b in ('h', 'cpp')],
    'c': ['zone_%s.%s' % (a, b) for a in ('infos', 'policies', 'registry')
          for b in ('h', 'c')],
    'python': ['zone_%s.py' % a for a in ('infos', 'policies', 'registry')],
    'go': ['zone_%s%s.go' % (a, b) for a in ('infos', 'policies', 'registry')
           for b in ('', '_test')] + ['reader_test.go'],
}
TEXT = (
    'Rule\tP\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tD\n'
    'Rule\tP\t1990\tmax\t-\tOct\tlastSun\t1:00u\t0\tS\n'
    'Zone\tAmerica/First/Name\t1:00\tP\tA%sT\n'
    'Zone\tAmerica/Second/Name\t2:00\t-\tB/C\t2002\n\t\t\t3:00\tP\tX%sT\n'
    'Zone\tEtc/GMT+1\t-1:00\t-\t%z\n'
    'Link\tAmerica/First/Name\tAmerica/Third/Name\n'
    'Link\tEtc/GMT+1\tAmerica/X\n')
SRC = {'europe': TEXT}
NAMES = ['America/First/Name', 'America/Second/Name', 'America/Third/Name',
         'America/X', 'Etc/GMT+1']


def expected_files(langs, acts, json_file='zonedb.json'):
    out = set()
    if 'zonedb' in acts:
        for l in langs:
            out |= set(FILES[l])
    if 'json' in acts:
        out.add(json_file)
    if 'zonelist' in acts:
        out.add('zones.txt')
    return out


def powerset(xs):
    return [c for k in range(1, len(xs) + 1)
            for c in itertools.combinations(xs, k)]


def refused(res, what, out, p):
    """Must be refused with a message and without any file."""
    out.traces += 1
    if res.ok:
        out.outcome('NOT refused')
        out.bad('accepted', 'accepted: %s' % what, p)
        return
    out.outcome('refused')
    if res.kind == 'hang':
        out.bad('hang', 'does not end: %s' % what, p)
    if not (res.exc or '').strip() and not res.stdout.strip():
        out.bad('message', 'refused without a message: %s' % what, p)
    if res.kind == 'exit' and not res.stdout.strip():
        out.bad('message', 'exits without a message: %s' % what, p)
    if res.files:
        out.bad('partial', 'refused after writing %s: %s' % (
            sorted(res.files), what), p)


def accepted(res, files, what, out, p):
    out.traces += 1
    if not res.ok:
        out.outcome('REFUSED')
        out.bad('refused', '%s: %s' % (res.exc, what), p)
        return False
    out.outcome('completed')
    if set(res.files) != files:
        out.bad('files', 'files written %s, expected %s: %s' % (
            sorted(res.files), sorted(files), what), p)
        return False
    return True


# --- A ---------------------------------------------------------------------

def product(item):
    from ..harness import Out
    out = Out()
    scope, langs = item
    for acts in powerset(ACTIONS):
        for strict, comp, skip in itertools.product((1, 0), repeat=3):
            out.states += 1
            av = u.argv_for(scope, 2000, 2050, ','.join(langs),
                            actions=','.join(acts), more=(
                '--strict' if strict else '--nostrict',
                '--compress' if comp else '--nocompress') + (
                ('--skip_bufestimator',) if skip else ()))
            p = {'argv': av, 'part': 'A', 'item': list(item)}
            runner.Env.calls = []
            res = runner.run_main(SRC, av)
            calls, runner.Env.calls = runner.Env.calls, None
            what = ' '.join(av)
            if not accepted(res, expected_files(langs, acts), what, out, p):
                continue
            if bool(calls) == bool(skip):
                out.bad('bufestimator', 'estimator %s: %s' % (
                    'ran' if calls else 'did not run', what), p)
            if 'json' in acts:
                j = json.loads(res.files['zonedb.json'])
                for k, v in (('scope', scope), ('strict', bool(strict)),
                             ('compress', bool(comp)), ('start_year', 2000),
                             ('until_year', 2050), ('tz_version', '2026e')):
                    if j[k] != v:
                        out.bad('setting', 'JSON %s is %r: %s' % (k, j[k],
                                                                 what), p)
                if bool(j['buf_sizes']) == bool(skip):
                    out.bad('bufestimator', 'buf_sizes %s: %s' % (
                        j['buf_sizes'], what), p)
            for l in ('arduino', 'c'):
                if l in langs and 'zonedb' in acts and not (
                        'arduino' in langs and 'c' in langs):
                    t = decode_c.decode(res.files, l, scope)
                    if sorted(list(t.db.zones) + list(t.db.links)) != NAMES:
                        out.bad('names', 'names decode to %s: %s' % (
                            sorted(t.db.zones), what), p)
                    raw = b''.join(x if isinstance(x, bytes) else x.encode()
                                   for x in t.raw_names.values())
                    packed = any(b < 32 for b in raw)
                    if packed != bool(comp):
                        out.bad('compress', 'names are %scompressed: %s' % (
                            '' if packed else 'not ', what), p)
            if strict and comp and not skip:
                # the same without a namespace
                i = av.index('--db_namespace')
                a2 = av[:i] + av[i + 2:]
                r2 = runner.run_main(SRC, a2)
                out.states += 1
                if 'zonedb' in acts and set(langs) - {'python'}:
                    refused(r2, ' '.join(a2), out, p)
                else:
                    accepted(r2, expected_files(langs, acts), ' '.join(a2),
                             out, p)
    return out


# --- B ---------------------------------------------------------------------

P_AT = ('Rule\tP\t1990\tmax\t-\tMar\t5\t4:56:47\t1:00\tD\n'
        'Rule\tP\t1990\tmax\t-\tOct\t5\t2:00\t0\tS\n')
P_SAVE = ('Rule\tP\t1990\tmax\t-\tMar\t5\t4:00\t0:25\tD\n'
          'Rule\tP\t1990\tmax\t-\tOct\t5\t2:00\t0\tS\n')
# probe: text, [(option, seconds, reader)]
PROBES = {
    'stdoff': ('Zone\tZ\t1:23:45\t-\tA\n', 'offset', 5025,
               lambda d: d.zones['Z'][0].off),
    'west': ('Zone\tZ\t-1:23:45\t-\tA\n', 'offset', -5025,
             lambda d: d.zones['Z'][0].off),
    'until': ('Zone\tZ\t1:00\t-\tA\t2003 May 2 1:23:45\n\t\t2:00\t-\tB\n',
              'until_at', 5025, lambda d: d.zones['Z'][0].until[2]),
    'at': (P_AT + 'Zone\tZ\t1:00\tP\tA%sT\n', 'until_at', 17807,
           lambda d: [r for r in d.policies['P'] if r.month == 3][0].at),
    'save': (P_SAVE + 'Zone\tZ\t1:00\tP\tA%sT\n', 'delta', 1500,
             lambda d: [r for r in d.policies['P'] if r.month == 3][0].save),
    'fixed': ('Zone\tZ\t1:00\t0:25\tA\n', 'delta', 1500,
              lambda d: d.zones['Z'][0].save),
}
DEFAULT = {'basic': (60, 60, 900), 'extended': (60, 60, 900),
           'complete': (1, 1, 60)}
OPTS = ('until_at', 'offset', 'delta')


def trunc(v, g):
    return v // g * g if v >= 0 else -(-v // g * g)


def granularity(item):
    from ..harness import Out
    out = Out()
    scope, strict, combos = item
    for combo in combos:
        *three, allg = combo
        more = MORE
        for o, g in zip(OPTS, three):
            if g:
                more += ('--%s_granularity' % o, str(g))
        if allg:
            more += ('--granularity', str(allg))
        more += ('--strict',) if strict else ('--nostrict',)
        eff = [allg or g or d for g, d in zip(three, DEFAULT[scope])]
        for name, (text, opt, secs, read) in PROBES.items():
            if scope == 'basic' and name in ('until', 'fixed'):
                continue
            out.states += 1
            out.traces += 1
            g = eff[OPTS.index(opt)]
            ok = secs % g == 0
            av = u.argv_for(scope, 2000, 2050, 'python', more=more)
            p = {'part': 'B', 'item': [scope, strict, [list(combo)]]}
            res = runner.run_main({'asia': text + 'Zone\tGood\t0\t-\tG\n'},
                                  av)
            what = '%s %s' % (name, ' '.join(av))
            drop = strict and not ok
            if drop and scope != 'basic':
                if res.ok:
                    out.bad('strict', 'unaligned %s accepted: %s' % (name,
                                                                    what), p)
                elif res.files:
                    out.bad('partial', 'files %s: %s' % (sorted(res.files),
                                                         what), p)
                out.outcome('refused')
                continue
            if not res.ok:
                out.bad('refused', '%s: %s' % (res.exc, what), p)
                continue
            j = json.loads(res.files['zonedb.json'])
            have = [j[o + '_granularity'] for o in OPTS]
            if have != eff:
                out.bad('granularity', 'JSON %s, expected %s: %s' % (
                    have, eff, what), p)
            db = decode_py.decode(res.files)[0]
            if drop:
                out.outcome('removed')
                if 'Z' in db.zones:
                    out.bad('strict', 'unaligned %s kept: %s' % (name, what),
                            p)
                continue
            if 'Z' not in db.zones:
                out.bad('strict', 'aligned %s removed %s: %s' % (
                    name, j['removed_zones'], what), p)
                continue
            out.outcome('kept' if ok else 'truncated')
            if read(db) != trunc(secs, g):
                out.bad('truncate', '%s is %s, expected %s: %s' % (
                    name, read(db), trunc(secs, g), what), p)
            noted = 'truncated' in json.dumps(
                j['merged_notable_zones'].get('Z'))
            if noted == ok:
                out.bad('note', 'notes %s: %s' % (
                    j['merged_notable_zones'].get('Z'), what), p)
    return out


# --- C, D, E, F ------------------------------------------------------------

MINIMUM = {'basic': 1980, 'extended': 1974, 'complete': None}


def start_years(item):
    from ..harness import Out
    out = Out()
    scope, years = item
    for y in years:
        for lang in LANGS:
            out.states += 1
            av = u.argv_for(scope, y, 2050, lang,
                            actions='zonedb,json,zonelist', more=MORE)
            p = {'part': 'C', 'item': [scope, [y]]}
            res = runner.run_main(SRC, av)
            if MINIMUM[scope] is not None and y < MINIMUM[scope]:
                refused(res, ' '.join(av), out, p)
            else:
                accepted(res, expected_files([lang], ACTIONS), ' '.join(av),
                         out, p)
    return out


def base_args():
    return {'--actions': 'zonedb,json', '--languages': 'python',
            '--scope': 'basic', '--start_year': '2000', '--until_year':
            '2050', '--tz_version': '2026e', '--db_namespace': 'ns'}


def flat(d):
    return [x for kv in d.items() for x in kv if x is not None]


def unknown(item):
    from ..harness import Out
    out = Out()
    bad = []
    for opt, vocab, good in (
            ('--actions', ['zonedb', 'json', 'zonelist', 'zones', 'JSON', '',
                           'tzdb', ' json'], set(ACTIONS)),
            ('--languages', ['arduino', 'c', 'python', 'go', 'C', 'rust', '',
                             'golang', ' c'], set(LANGS))):
        for k in (1, 2, 3):
            for words in itertools.product(vocab, repeat=k):
                if set(words) <= good:
                    continue
                d = base_args()
                d[opt] = ','.join(words)
                bad.append(d)
    for opt, vals in (
            ('--scope', ['', 'Basic', 'all', 'basic,extended', 'complet']),
            ('--start_year', ['', 'two', '2000.5', '2000-2001']),
            ('--until_year', ['', 'two', '2000.5']),
            ('--tiny_base_year', ['', 'x']),
            ('--granularity', ['', 'x', '1.5']),
            ('--until_at_granularity', ['', 'x', '0.5']),
            ('--offset_granularity', ['x']),
            ('--delta_granularity', ['x']),
            ('--no_such_option', ['1'])):
        for v in vals:
            d = base_args()
            d[opt] = v
            bad.append(d)
    for opt in ('--actions', '--languages', '--scope', '--tz_version'):
        d = base_args()
        del d[opt]
        bad.append(d)
    part, parts = item
    for d in bad[part::parts]:
        out.states += 1
        res = runner.run_main(SRC, flat(d))
        refused(res, ' '.join(map(repr, flat(d))), out,
                {'part': 'D', 'argv': flat(d)})
    return out


def defaults(item):
    """Leaving out an option equals giving its documented default."""
    from ..harness import Out
    out = Out()
    scope, lang = item
    dflt = [('--start_year', '2000'), ('--until_year', '2100'),
            ('--tiny_base_year', '2100'), ('--json_file', 'zonedb.json'),
            ('--strict', None), ('--compress', None),
            ('--include_list', '')]
    du, do, dd = DEFAULT[scope]
    dflt += [('--until_at_granularity', str(du)),
             ('--offset_granularity', str(do)),
             ('--delta_granularity', str(dd))]
    base = {'--actions': 'zonedb,json,zonelist', '--languages': lang,
            '--scope': scope, '--tz_version': '2026e',
            '--db_namespace': 'ns'}

    def strip(c):
        # the command line is recorded
        return {n: '\n'.join(l for l in t.split('\n')
                             if not l.lstrip('/# ').startswith('--')
                             and '$ tzcompiler' not in l)
                for n, t in c.items()}
    ref = runner.run_main(SRC, flat(base))
    p = {'part': 'E', 'item': list(item)}
    if not accepted(ref, expected_files([lang], ACTIONS), 'defaults', out,
                    p):
        return out
    ref = strip(canon.canon(ref))
    for k in range(1, len(dflt) + 1):
        for sub in itertools.combinations(dflt, k):
            if 4 < k < len(dflt) - 1:
                continue
            out.states += 1
            out.traces += 1
            d = dict(base)
            d.update(sub)
            c = strip(canon.canon(runner.run_main(SRC, flat(d))))
            out.outcome('default')
            if c != ref:
                out.bad('default', 'giving the defaults %s changes %s' % (
                    sub, canon.first_diff(ref, c)), p)
    # an empty output directory means the current one
    d = dict(base)
    d['--output_dir'] = ''
    out.states += 1
    if strip(canon.canon(runner.run_main(SRC, flat(d)))) != ref:
        out.bad('output_dir', 'empty --output_dir differs', p)
    return out


def texts(item):
    """Namespace, version and JSON name reach the output unchanged."""
    from ..harness import Out
    out = Out()
    scope, lang, comp = item
    more = MORE + (() if comp else ('--nocompress',))
    p = {'part': 'F', 'item': list(item)}

    def get(ns, ver, jf):
        av = u.argv_for(scope, 2000, 2050, lang,
                        actions='zonedb,json,zonelist', more=more)
        av[av.index('--db_namespace') + 1] = ns
        av[av.index('--tz_version') + 1] = ver
        out.states += 1
        out.traces += 1
        r = runner.run_main(SRC, av + ['--json_file', jf])
        if not accepted(r, expected_files([lang], ACTIONS, jf),
                        'namespace %s version %s json %s' % (ns, ver, jf),
                        out, p):
            return None
        c = canon.canon(r)
        c['json'] = c.pop(jf)
        return c
    a = get('nsqqq', '2026e', 'zonedb.json')
    for ns in ('zonedb', 'zonedbx', 'NsB', 'n1_x'):
        b = get(ns, '2026e', 'zonedb.json')
        if a is None or b is None:
            continue
        c = {n: t.replace('nsqqq', ns).replace('NSQQQ', ns.upper())
             for n, t in a.items()}
        if b != c:
            out.bad('namespace', 'namespace %s: %s' % (
                ns, canon.first_diff(c, b)), p)
        if lang != 'python' and not any(ns in t.split('DO NOT EDIT')[-1]
                                        for n, t in b.items()):
            out.bad('namespace', 'namespace %s not used' % ns, p)
    for ver in ('2031b', '1999z', '2024aa', 'main'):
        b = get('nsqqq', ver, 'zonedb.json')
        if a is None or b is None:
            continue
        ja, jb = json.loads(a['json']), json.loads(b['json'])
        if jb['tz_version'] != ver:
            out.bad('version', 'JSON has %s' % jb['tz_version'], p)
        for n in a:
            if n != 'json' and a[n].replace('2026e', ver) != b[n]:
                out.bad('version', 'version %s: %s' % (
                    ver, canon.first_diff({n: a[n].replace('2026e', ver)},
                                          {n: b[n]})), p)
        for k in ja:
            if not k.startswith('tz_version') and ja[k] != jb[k]:
                out.bad('version', 'JSON %s differs for version %s' % (
                    k, ver), p)
    for jf in ('zonedbx.json', 'a.txt', 'x-y.json'):
        b = get('nsqqq', '2026e', jf)
        if a is None or b is None:
            continue
        c = {n: t.replace('--json_file zonedb.json', '--json_file ' + jf)
             for n, t in a.items()}
        if b != c:
            out.bad('json_file', 'json file %s: %s' % (
                jf, canon.first_diff(c, b)), p)
    return out


# --- G: the include list ---------------------------------------------------

ZONES = [n for n in NAMES if ('Link\t' not in n) and any(
    l.startswith('Zone\t%s\t' % n) for l in TEXT.splitlines())]
LINKS = {l.split()[2]: l.split()[1] for l in TEXT.splitlines()
         if l.startswith('Link')}
STYLES = {
    'plain': lambda ns: ''.join(n + '\n' for n in ns),
    'no final newline': lambda ns: '\n'.join(ns),
    'spaces': lambda ns: ''.join('  %s \t\n' % n for n in ns),
    'comments': lambda ns: '# America/X\n\n' + ''.join(
        '#%s\n%s\n\n  # %s\n' % (NAMES[0], n, NAMES[1]) for n in ns),
    'reversed twice': lambda ns: ''.join(
        n + '\n' for n in list(reversed(ns)) + list(ns)),
    'unknown too': lambda ns: 'America/Nowhere\n' + ''.join(
        n + '\n' for n in ns) + 'Etc\n',
}


def includes(item):
    from ..harness import Out
    out = Out()
    scope, style, subs = item
    for names in subs:
        out.states += 1
        out.traces += 1
        p = {'part': 'G', 'item': [scope, style, [list(names)]]}
        text = STYLES[style](list(names))
        what = '%s include list %r' % (scope, text)
        res = runner.run_main(SRC, u.argv_for(
            scope, 2000, 2050, 'python', actions='zonedb,json,zonelist',
            more=MORE), include=text)
        want = set(names) or set(NAMES)
        if not names and style == 'unknown too':
            want = set()
        zones = want & set(ZONES)
        links = {x for x in want & set(LINKS) if LINKS[x] in want}
        broken = want & set(LINKS) != links
        if not zones or (broken and scope != 'basic'):
            out.outcome('no zone' if not zones else 'link without target')
            if res.ok and broken and scope != 'basic':
                out.bad('include', 'accepted: ' + what, p)
            elif not res.ok and res.files:
                out.bad('partial', 'files %s: %s' % (sorted(res.files), what),
                        p)
            continue
        if not res.ok:
            out.bad('refused', '%s: %s' % (res.exc, what), p)
            continue
        out.outcome('included')
        j = json.loads(res.files['zonedb.json'])
        if set(j['zones_map']) != zones or set(j['links_map']) != links:
            out.bad('include', 'emitted %s and %s, expected %s and %s: %s' % (
                sorted(j['zones_map']), sorted(j['links_map']), sorted(zones),
                sorted(links), what), p)
        gone = (set(j['removed_zones']), set(j['removed_links']))
        if gone != (set(ZONES) - zones, set(LINKS) - links):
            out.bad('include', 'removed %s: %s' % (gone, what), p)
        db = decode_py.decode(res.files)[0]
        if set(db.zones) - set(LINKS) != zones:
            out.bad('include', 'python has %s: %s' % (sorted(db.zones), what),
                    p)
        got = {l for l in res.text('zones.txt').splitlines()
               if l and l[0] != '#'}
        if got != zones:
            out.bad('include', 'zones.txt has %s: %s' % (sorted(got), what), p)
    return out


def check(ctx):
    ctx.pmap(product, [(s, l) for s in SCOPES for l in powerset(LANGS)],
             'product')
    gs = (None, 1, 60, 900) + ((16, 300, 3600) if ctx.thorough else ())
    combos = [c for c in itertools.product(gs, repeat=4)
              if ctx.thorough or sum(x is None for x in c) >= 1]
    ctx.pmap(granularity, [(s, st, b) for s in SCOPES for st in (True, False)
                           for b in explore.batches(combos, 60)],
             'granularity')
    years = list(range(1960, 1991)) + [1, 1000, 1900, 1949, 2049]
    ctx.pmap(start_years, [(s, b) for s in SCOPES
                           for b in explore.batches(years, 12)],
             'start years')
    ctx.pmap(unknown, [(i, 16) for i in range(16)], 'unknown')
    subs = explore.subsets(NAMES, 0, len(NAMES)).states
    ctx.pmap(includes, [(s, y, b) for s in SCOPES for y in STYLES
                        for b in explore.batches(subs, 16)], 'include lists')
    ctx.pmap(defaults, [(s, l) for s in SCOPES for l in LANGS], 'defaults')
    ctx.pmap(texts, [(s, l, c) for s in SCOPES for l in LANGS
                     for c in (True, False)], 'texts')


def replay(p):
    from ..harness import Out
    part = p['part']
    if part == 'D':
        out = Out()
        refused(runner.run_main(SRC, p['argv']), str(p['argv']), out, p)
    elif part == 'A':
        out = product((p['item'][0], tuple(p['item'][1])))
    else:
        f = {'B': granularity, 'C': start_years, 'E': defaults,
             'F': texts, 'G': includes}[part]
        out = f(tuple(p['item']))
    return [m for _, m, _ in out.viol]
