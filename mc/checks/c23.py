"""C23: headers, counts and metadata agree with the emitted data."""
import itertools
import json
import re
from .. import (decode_c, decode_go, decode_py, explore, hdr, mix, notes,
                runner, tzmodel)
from .. import universe as u
from ..decode_py import Artifact
from ..zonesrc import real_tzdb
from .c04 import json_db

ID = 'C23'
BOUNDS = (
    'A: every set of <=2 (thorough: <=3) zones out of 28 kinds (good, removed, '
    'off granularity) x 4 arrangements of links, in every scope; B: sizes: '
    'every number 0..6 (thorough 0..12) of zones, links, extra eras, policies '
    'and rules, one or two at a time, name components crossing the '
    'fragment threshold, letters and formats; C: options: windows, '
    'strictness, compression, granularities, include lists, namespaces, '
    'versions, estimator answers, file sets; Y: every order of <=3 (thorough 4) '
    'of 5 FROM years with every set of <=1 (3) UNTIL years; D: the real TZDB.  Every label of '
    'every header, section title, record block and context of every file of '
    'every language is compared with the value recomputed from the decoded '
    'tables of that language, the source text and the options')
ASSUMPTIONS = [
    'the record sizes of the memory tables are the documented C++/Go struct '
    'sizes; names of labels are part of the output',
    'a memory table counts the larger of the two registries, and format '
    'strings once each, as the file says']
LANGS = ('python', 'arduino', 'c', 'go')
LOW8 = dict(context=16, rule=9, policy=3, era=11, info=13, ptr=2)
LOW32 = dict(context=24, rule=12, policy=8, era=16, info=24, ptr=4)
HIGH8 = dict(context=16, rule=12, policy=3, era=15, info=13, ptr=2)
HIGH32 = dict(context=24, rule=12, policy=8, era=20, info=24, ptr=4)


# --- reading -------------------------------------------------------------------

def header(text):
    """-> (invocation, files, version, {label: text}) of the first comment"""
    lines = []
    for line in text.split('\n'):
        if not line.startswith(('//', '#')):
            break
        lines.append(re.sub('^(//|#) ?', '', line))
    t = '\n'.join(lines)
    m = re.match(r'This file was generated by the following script:\n\n'
                 r'  \$ (.*?)\n\nusing the TZ Database files\n\n(.*?)\n\n'
                 r'from https://github\.com/eggert/tz/releases/tag/(\S*)\n',
                 t, re.S)
    if not m:
        raise Artifact('header is not recognised')
    labels, group = {}, ''
    for line in t[m.end():].split('\n'):
        k = re.match(r'^( *)([^:]+):\s*(.*)$', line)
        if not k:
            continue
        if not k.group(1):
            group = '' if k.group(3) else k.group(2) + '/'
        key = (group if k.group(1) else '') + k.group(2)
        if k.group(3):
            if key in labels:
                raise Artifact('header label %s occurs twice' % key)
            labels[key] = k.group(3)
    return (re.sub(r'\s+', ' ', m.group(1)), m.group(2).split(),
            m.group(3), labels)


def blocks(text):
    """[{label: value}] of every comment block of the body of the file"""
    out, cur = [], {}
    body = text[text.index('DO NOT EDIT'):]
    for line in body.split('\n'):
        m = re.match(r'^\s*(?://|#)(.*)$', line)
        if not m or re.match(r'^\s*-{5,}$', m.group(1)):
            if cur:
                out.append(cur)
                cur = {}
            continue
        k = re.match(r'^ ([A-Z]?[A-Za-z ]+): (\S.*)$', m.group(1))
        if k:
            cur[k.group(1)] = k.group(2)
    if cur:
        out.append(cur)
    return out


# --- expectation ------------------------------------------------------------------

def years(db):
    """[min, max] over UNTIL years and rule FROM years (anchors aside)"""
    lo, hi = tzmodel.MAX_TO, tzmodel.MIN_YEAR
    ys = [e.until[0] for es in db.zones.values() for e in es if e.until]
    ys += [r.frm for rs in db.policies.values() for r in rs
           if r.frm != tzmodel.MIN_YEAR]
    return min([lo] + ys), max([hi] + ys)


def size_up(db, low, small, names, fragments, letters):
    """the memory table of arduino and c; small = 8-bit processors"""
    s = (LOW8 if low else HIGH8) if small else (LOW32 if low else HIGH32)
    nz, nl = len(db.zones), len(db.links)
    eras = [e for es in db.zones.values() for e in es]
    d = {
        'Context': s['context'],
        'Rules': s['rule'] * sum(map(len, db.policies.values())),
        'Policies': s['policy'] * len(db.policies),
        'Eras': s['era'] * len(eras),
        'Zones': s['info'] * nz, 'Links': s['info'] * nl,
        'Registry': s['ptr'] * (nz + nl),
        'Formats': sum(len(f) + 1 for f in {e.fmt for e in eras}),
        'Letters': sum(len(x) + 1 + s['ptr'] for x in letters),
        'Fragments': sum(len(x) + 1 for x in fragments if x)
        + s['ptr'] * len(fragments),
        'Names': sum(len(n) + 1 for n in names.values())}
    d['TOTAL'] = sum(d.values())
    orig = sum(len(n) + 1 for n in list(db.zones) + list(db.links))
    d['Names'] = '%d (original: %d)' % (d['Names'], orig)
    return d


def go_size(g):
    d = {'Rules': len(g.g['ZoneRulesData']),
         'Policies': len(g.g['ZonePoliciesData']),
         'Eras': len(g.g['ZoneErasData']),
         'Zones': 12 * len(g.db.zones), 'Links': 12 * len(g.db.links),
         'Registry': 0, 'Fragments': 0,
         'Formats': len(g.g['FormatData']) + 2 * len(g.g['FormatOffsets']),
         'Letters': len(g.g['LetterData']) + len(g.g['LetterOffsets']),
         'Names': len(g.g['NameData']) + 2 * len(g.g['NameOffsets'])}
    if len(g.g['ZoneInfosData']) != d['Zones'] + d['Links']:
        raise Artifact('ZoneInfosData has %d bytes' % len(
            g.g['ZoneInfosData']))
    d['TOTAL'] = sum(d.values())
    return d


class Want:
    """what the run should say about itself"""

    def __init__(self, src, argv, j, scope):
        a = dict(zip(argv, argv[1:]))
        self.j, self.scope = j, scope
        self.start, self.until = int(a['--start_year']), int(
            a['--until_year'])
        self.version = a['--tz_version']
        self.src = years(src) if src else None

    def common(self, db, lang):
        j = self.j
        nz, nl = len(db.zones), len(db.links)
        rz, rl = len(j['removed_zones']), len(j['removed_links'])
        d = {'Supported Zones': '%d (%d zones, %d links)' % (nz + nl, nz, nl),
             'Unsupported Zones': '%d (%d zones, %d links)' % (
                 rz + rl, rz, rl),
             'Requested Years': '[%d,%d]' % (self.start, self.until),
             'Accurate Years': '[%d,%d]' % (j['start_year_accurate'],
                                            j['until_year_accurate']),
             'Generated Years': '[%d,%d]' % years(json_full(j)),
             'Lower/Upper Truncated': '[%s,%s]' % (j['lower_truncated'],
                                                   j['upper_truncated']),
             'Records/Infos': nz + nl,
             'Records/Eras': sum(map(len, db.zones.values())),
             'Records/Policies': len(db.policies),
             'Records/Rules': sum(map(len, db.policies.values()))}
        if self.src:
            d['Original Years'] = '[%d,%d]' % self.src
        if lang != 'python':
            d['Estimator Years'] = '[%d,%d]' % (j['estimator_min_year'],
                                                j['estimator_max_year'])
            d['Max Buffer Size'] = biggest(j)
        return d


def biggest(j):
    return max([s for s, _ in j['buf_sizes'].values()] or [0])


def json_full(j):
    """a Db of the JSON that keeps only what years() needs"""
    E = tzmodel.Era
    z = {n: [E(0, None, 0, '', None if e['until_year'] == 32767 else
               (e['until_year'],)) for e in i['eras']]
         for n, i in j['zones_map'].items()}
    p = {n: [tzmodel.Rule(r['from_year'], 0, 0, 0, 0, 0, 0, 0)
             for r in q['rules'] if not r.get('anchor')]
         for n, q in j['policies_map'].items()}
    return tzmodel.Db(z, p, {})


def record_counts(text, lang, db):
    """Complain about counts in the body: yields messages."""
    nz, nl, np = len(db.zones), len(db.links), len(db.policies)
    ne = sum(map(len, db.zones.values()))
    nr = sum(map(len, db.policies.values()))
    totals = {
        'Supported zones': nz, 'Supported Zones': nz, 'Zones': nz,
        'Supported links': nl, 'Links': nl,
        'Supported zone policies': np, 'Supported policies': np,
        'Policies': np, 'Rules': nr, 'numRules': nr, 'Eras': ne,
        'numEras': ne, 'Supported eras': ne, 'numZones': nz,
        'Supported Zones and Links': nz + nl,
        'Total': '%d (%d zones, %d links)' % (nz + nl, nz, nl)}
    at = {}
    i = 0
    for z in sorted(db.zones):
        at['z', z] = i
        i += len(db.zones[z])
    i = 0
    for p in sorted(db.policies):
        at['p', p] = i
        i += len(db.policies[p])
    seen = {'z': [], 'p': []}
    for b in blocks(text):
        z = b.get('Zone name') or b.get('ZoneName')
        p = b.get('Policy name') or b.get('PolicyName')
        if z is None and p is None:
            for k, v in b.items():
                if k in totals and v != str(totals[k]):
                    yield 'label', '%s: %s, expected %s' % (k, v, totals[k])
            continue
        kind, name = ('z', z) if z is not None else ('p', p)
        of = db.zones if kind == 'z' else db.policies
        if name not in of:
            if name in db.links or name in ('(none)', '', '""'):
                continue
            yield 'record name', 'block of unknown record %s' % name
            continue
        seen[kind].append(name)
        for k, v in b.items():
            w = None
            if k in ('Era count', 'Zone Eras', 'EraCount', 'Eras',
                     'Rule count', 'RuleCount', 'Rules'):
                w = len(of[name])
            elif k in ('EraIndex', 'RuleIndex'):
                w = at[kind, name]
            if w is not None and v != str(w):
                yield 'record count', '%s of %s: %s, expected %s' % (
                    k, name, v, w)
    for kind, of in (('z', db.zones), ('p', db.policies)):
        for n, k in ((n, seen[kind].count(n)) for n in set(seen[kind])):
            if k > 2:
                yield 'record twice', '%s has %d blocks' % (n, k)


def judge(res, lang, want, out, p, what):
    """one compiled language"""
    n0 = len(out.viol)
    j = want.j
    low = want.scope != 'complete'
    try:
        if lang == 'python':
            db = decode_py.decode(res.files)[0]
            mem = {}
            ctxs = [py_context(res.text('zone_infos.py'))]
        elif lang == 'go':
            g = decode_go.decode(res.files)
            order = [''] + sorted(j['policies_map'])
            pk = list(g.db.policies)
            if len(pk) != len(order) - 1:
                raise Artifact('%d policies, JSON has %d' % (
                    len(pk), len(order) - 1))
            db = g.db._replace(policies=go_named(g.db.policies, order))
            for msg in go_indexes(res, g, order):
                out.bad('index comment', '%s: %s' % (what, msg), p)
            m = go_size(g)
            mem = {'Memory/' + k: v for k, v in m.items()}
            jm = {k.lower(): v for k, v in m.items()}
            if jm != {k: v for k, v in j['go_memory_map'].items()
                      if k in jm}:
                out.bad('json go memory', '%s: go_memory_map is %s, expected '
                        '%s' % (what, j['go_memory_map'], jm), p)
            ctxs = go_contexts(res)
        else:
            t = decode_c.decode(res.files, lang, want.scope)
            db = t.db._replace(policies=named(t.db.policies, j))
            mem = {}
            for bits in (8, 32):
                m = size_up(db, low, bits == 8, t.raw_names, t.fragments,
                            t.letters)
                for k, v in m.items():
                    mem['Memory (%d-bits)/%s' % (bits, k)] = v
                names = re.match(r'(\d+) \(original: (\d+)\)', m['Names'])
                jm = {k.lower(): v for k, v in m.items()}
                jm['names'] = int(names.group(1))
                jm['names_original'] = int(names.group(2))
                if jm != j['memory_map%d' % bits]:
                    out.bad('json memory', '%s: memory_map%d is %s, expected '
                            '%s' % (what, bits, j['memory_map%d' % bits], jm),
                            p)
            ctxs = [{k.replace('_', '').lower(): v
                     for k, v in t.context.items()}]
            if len(t.fragments) != ctxs[0].get('numfragments') or \
                    len(t.letters) != ctxs[0].get('numletters'):
                out.bad('context', '%s: table sizes %s' % (what, ctxs[0]), p)
            sizes = hdr.buf_sizes(res.files, lang)
            got = sorted(int(s) for s, _ in sizes.values())
            exp = sorted(s for s, _ in j['buf_sizes'].values())
            exp += [j['buf_sizes'][x][0] for x in db.links.values()
                    if x in j['buf_sizes']]
            if got not in (sorted(s for s, _ in j['buf_sizes'].values()),
                           sorted(exp)):
                out.bad('buffer sizes', '%s: %s, expected %s' % (
                    what, got, exp), p)
        exp = want.common(db, lang)
        exp.update(mem)
        for name in sorted(res.files):
            if name.endswith('.json'):
                continue
            text = res.text(name)
            where = '%s %s' % (what, name)
            inv, files, version, labels = header(text)
            if inv != ' '.join(res.argv):
                out.bad('invocation', '%s says %r, was %r' % (
                    where, inv, ' '.join(res.argv)), p)
            if files != j['tz_files'] or sorted(files) != tzmodel.FILES:
                out.bad('files', '%s lists %s' % (where, files), p)
            if version != want.version:
                out.bad('version', '%s says %s' % (where, version), p)
            for k in set(exp) | set(labels):
                if k not in labels:
                    out.bad('header missing', '%s has no %s' % (where, k), p)
                elif k in exp and labels[k] != str(exp[k]):
                    out.bad('header ' + k.split('/')[0],
                            '%s: %s: %s, expected %s' % (
                                where, k, labels[k], exp[k]), p)
            for key, msg in record_counts(text, lang, db):
                out.bad(key, '%s: %s' % (where, msg), p)
            for kind, group, n, listed in notes.sections(text):
                if n != len(listed):
                    out.bad('section count', '%s: %s %s: %d, but %d are '
                            'listed: %s' % (where, kind, group, n, len(listed),
                                            sorted(listed)[:9]), p)
            m = re.findall(r'^// MaxBufSize: (\d+)', text, re.M)
            if [x for x in m if int(x) != biggest(j)]:
                out.bad('max buf size', '%s: MaxBufSize %s, expected %d' % (
                    where, m, biggest(j)), p)
            out.states += 1
        c_exp = {'startyear': want.start, 'untilyear': want.until,
                 'startyearaccurate': j['start_year_accurate'],
                 'untilyearaccurate': j['until_year_accurate'],
                 'maxtransitions': biggest(j), 'tzversion': want.version}
        for c in ctxs:
            for k, v in c.items():
                if k in c_exp and v != c_exp[k]:
                    out.bad('context', '%s: context %s is %r, expected %r' % (
                        what, k, v, c_exp[k]), p)
            if len(set(c) & set(c_exp)) < 5:
                out.bad('context missing', '%s: context has only %s' % (
                    what, sorted(c)), p)
        if lang in ('arduino', 'c'):
            sz = hdr.registry_sizes(res.files, lang)
            bad = [(k, v) for k, v in flat(sz)
                   if v != len(db.zones) + (len(db.links) if 'Link' in k
                                            else 0)]
            if bad:
                out.bad('registry size', '%s: %s' % (what, bad), p)
        exp_json(j, db, want, out, p, what)
    except Artifact as e:
        out.bad('unreadable', '%s: %s' % (what, e), p)
    out.traces += 1
    out.outcome('%s %s' % (lang, 'consistent' if len(out.viol) == n0
                           else 'WRONG'))


def named(policies, j):
    """C policies are known by symbol only: give them their names"""
    of = {}
    for n in j['policies_map']:
        sym = re.sub(r'[^0-9a-zA-Z]', '_', n.replace('+', '_PLUS_'))
        of[sym] = n
    return {of.get(re.sub(r'^k\w*?ZonePolicy', '', s), s): rs
            for s, rs in policies.items()}


def go_named(policies, order):
    """Go policies are known by index only"""
    out = {}
    for k, rs in policies.items():
        i = int(re.search(r'(\d+)$', str(k)).group(1))
        out[order[i]] = rs
    return out


def go_indexes(res, g, order):
    """the names written beside the indexes of the Go records"""
    t = res.text('zone_policies_test.go')
    got = [x for _, x in re.findall(
        r'RuleCount: \d+\}, // (\d+): PolicyName: (.*)$', t, re.M)]
    if got[1:] != order[1:]:
        yield 'policy records are labelled %s' % got
    t2 = res.text('zone_infos_test.go')
    for i, x in re.findall(r'PolicyIndex: (\d+), // PolicyName: (.*)$', t2,
                           re.M):
        if int(i) and order[int(i)] != x:
            yield 'policy %s is %s, labelled %s' % (i, order[int(i)], x)
    for text, what, tab in ((t, 'LetterIndex', g.letters),
                            (t2, 'FormatIndex', g.formats),
                            (t2, 'NameIndex', g.names)):
        for i, x in re.findall(r'%s: (\d+), // "(.*)"$' % what, text, re.M):
            if tab[int(i)] != x:
                yield '%s %s is %r, labelled %r' % (what, i, tab[int(i)], x)


def flat(sz):
    """pairs (symbol, number) of whatever hdr.registry_sizes gives"""
    for k, v in sz.items():
        if isinstance(v, int):
            yield k, v
        elif isinstance(v, dict):
            for k2, v2 in v.items():
                yield '%s %s' % (k, k2), v2
        elif isinstance(v, (tuple, list)):
            for x in v:
                if isinstance(x, int):
                    yield k, x


def exp_json(j, db, want, out, p, what):
    exp = {'num_zones': len(db.zones), 'num_links': len(db.links),
           'num_policies': len(db.policies),
           'num_eras': sum(map(len, db.zones.values())),
           'num_rules': sum(map(len, db.policies.values())),
           'start_year': want.start, 'until_year': want.until,
           'scope': want.scope, 'tz_version': want.version,
           'max_buf_size': biggest(j)}
    m = re.match('([0-9]{4})([a-z])', want.version)
    exp['tz_version_number'] = (int(m.group(1)) - 2000) * 100 + ord(
        m.group(2)) - 96 if m else 0
    exp['generated_min_year'], exp['generated_max_year'] = years(json_full(j))
    if want.src:
        exp['original_min_year'], exp['original_max_year'] = want.src
    for k, n in (('zones_map', 'num_zones'), ('links_map', 'num_links'),
                 ('policies_map', 'num_policies')):
        if len(j[k]) != j[n]:
            out.bad('json maps', '%s: %s has %d entries, %s is %s' % (
                what, k, len(j[k]), n, j[n]), p)
    for k, v in exp.items():
        if j[k] != v:
            out.bad('json ' + k, '%s: JSON %s is %r, expected %r' % (
                what, k, j[k], v), p)


def py_context(text):
    d = dict(re.findall(r'^([A-Z_]+) = (\S+)$', text, re.M))
    try:
        return {'tzversion': d['TZDB_VERSION'].strip('\'"'),
                'startyear': int(d['START_YEAR']),
                'untilyear': int(d['UNTIL_YEAR']),
                'startyearaccurate': int(d['START_YEAR_ACCURATE']),
                'untilyearaccurate': int(d['UNTIL_YEAR_ACCURATE'])}
    except KeyError as e:
        raise Artifact('zone context lacks %s' % e)


def go_contexts(res):
    out = []
    t = res.text('zone_registry.go')
    v = re.search(r'const TzDatabaseVersion string = "([^"]*)"', t)
    for name in ('zone_registry.go', 'zone_registry_test.go'):
        d = {k.lower(): int(n) for k, n in re.findall(
            r'^\s*(\w+): (-?\d+),$', res.text(name), re.M)}
        d['tzversion'] = v.group(1) if v else None
        out.append(d)
    return out


# --- one database ----------------------------------------------------------------

def compiled(files, scope, argv_of, out, p, what, src=None, langs=LANGS,
             include=None, env=None):
    """compile in every language and judge; argv_of(languages) -> argv"""
    if src is None and files is not None:
        try:
            src = tzmodel.parse_source(files)
        except Exception:
            src = None
    for lang in langs:
        argv = argv_of(lang)
        if env:
            env()
        try:
            res = runner.run_main(files, argv, 120, include=include)
        finally:
            if env:
                reset()
        out.transitions += 1
        if not res.ok:
            out.outcome('refused')
            continue
        a = dict(zip(res.argv, res.argv[1:]))
        jf = a.get('--json_file', 'zonedb.json')
        j = json.loads(res.text(jf))
        w = Want(src, res.argv, j, scope)
        w.flags(res.argv, scope, out, p, what)
        judge(res, lang, w, out, p, '%s %s' % (what, lang))


def flags(self, argv, scope, out, p, what):
    """the settings stored in the JSON are the ones given or the defaults"""
    a = dict(zip(argv, argv[1:]))
    g = {'basic': (60, 60, 900), 'extended': (60, 60, 900),
         'complete': (1, 1, 60)}[scope]
    g = [int(a.get('--granularity', a.get('--%s_granularity' % o, g[i])))
         for i, o in enumerate(('until_at', 'offset', 'delta'))]
    exp = {'until_at_granularity': g[0], 'offset_granularity': g[1],
           'delta_granularity': g[2],
           'strict': '--nostrict' not in argv,
           'compress': '--nocompress' not in argv}
    for k, v in exp.items():
        if self.j[k] != v:
            out.bad('json ' + k, '%s: JSON %s is %r, expected %r' % (
                what, k, self.j[k], v), p)


Want.flags = flags


_default = (runner.Env.sizes, runner.Env.terminal)


def reset():
    runner.Env.sizes = staticmethod(_default[0])
    runner.Env.terminal = staticmethod(_default[1])


LINKS = [
    '', 'Link\tZ/K0\tL/One\n',
    'Link\tZ/K0\tL/One\nLink\tZ/K0\tL/Two\nLink\tZ/K1\tA/Three\n',
    'Link\tZ/K1\tZ/Xk\nLink\tNo/Where\tL/Lost\n']
GOODZ = 'Zone\tA/Good\t1:00\t-\tGGG\n'


def mixed_text(kinds, links):
    return GOODZ + ''.join(mix.render(k, i) for i, k in enumerate(kinds)) + \
        LINKS[links]


def mixtures(items):
    from ..harness import Out
    out = Out()
    for kinds, links, scope, nostrict in items:
        p = {'part': 'A', 'kinds': list(kinds), 'links': links,
             'scope': scope, 'nostrict': nostrict}
        one_mix(p, out)
    return out


def one_mix(p, out):
    text = mixed_text(p['kinds'], p['links'])
    more = ['--nostrict'] if p['nostrict'] else []
    compiled({'africa': text}, p['scope'],
             lambda lang: u.argv_for(p['scope'], 2000, 2004, lang, more=more),
             out, p, 'zones %s links %d %s' % (
                 ','.join(p['kinds']), p['links'], p['scope']))


# --- B: sizes ----------------------------------------------------------------------

def sized(n):
    """text of a database with n[...] of each; all supported everywhere"""
    t = ''
    pols = n.get('policies', 0)
    rules = n.get('rules', 0)
    for i in range(pols):
        t += ('Rule\tP%d\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tD%s\n'
              'Rule\tP%d\t1990\tmax\t-\tOct\tlastSun\t1:00u\t0\tS\n' % (
                  i, 'ABCDEFGHIJKLMNOP'[i % max(1, n.get('letters', 1))]
                  if n.get('letters') else '', i))
        if i == 0:
            for r in range(rules):
                t += 'Rule\tP0\t%d\tonly\t-\tJul\t%d\t2:00\t%s\tX\n' % (
                    2000 + r % 4, r // 4 + 1, '1:00')
    for i in range(n.get('zones', 0)):
        pre = 'Comp%d/' % (i % n['comps']) if n.get('comps') else 'Z/'
        t += 'Zone\t%sN%d' % (pre, i)
        for e in range(n.get('eras', 0) if i == 0 else 0):
            t += '\t1:00\t-\tE%d\t%d\n\t\t' % (e % max(1, n.get('fmts', 1)),
                                               2000 + e)
        t += '\t1:00\t%s\n' % ('P%d\tA%%sT' % (i % pols) if pols
                               else '-\tAAA')
    z0 = 'Comp0/N0' if n.get('comps') else 'Z/N0'
    for i in range(n.get('links', 0)):
        t += 'Link\t%s\t%sL%d\n' % (z0, 'Link/' if i % 2 else 'Comp0/', i)
    return t


AXES = ('zones', 'links', 'eras', 'policies', 'rules', 'comps', 'letters',
        'fmts')


def size_points(top):
    base = {'zones': 2, 'policies': 1, 'links': 1}
    pts = [dict(base)]
    vals = list(range(0, top + 1))
    for a in AXES:
        for v in vals:
            pts.append(dict(base, **{a: v}))
    few = [0, 1, 3, 4, 5] if top < 10 else [0, 1, 2, 3, 4, 5, 9]
    for a, b in itertools.combinations(AXES, 2):
        for x, y in itertools.product(few, repeat=2):
            pts.append(dict(base, **{a: x, b: y}))
    pts += [{'zones': 16, 'comps': k, 'links': 4, 'policies': 2}
            for k in range(1, 6)]
    pts += [{'zones': 130, 'comps': 30, 'policies': 40, 'links': 20,
             'letters': 10}]
    out = []
    for q in pts:
        # an input the compiler supports: something must remain, and the
        # policy of extra rules exists
        if q.get('zones', 0) < 1:
            q['links'] = 0
        if q.get('rules') and not q.get('policies'):
            continue
        if q.get('policies', 0) > q.get('zones', 0):
            q['zones'] = q['policies']
        if q not in out:
            out.append(q)
    return out


def sizes(items):
    from ..harness import Out
    out = Out()
    for q, scope, flag in items:
        one_size({'part': 'B', 'n': q, 'scope': scope, 'flag': flag}, out)
    return out


def one_size(p, out):
    more = ['--nocompress'] if p['flag'] else []
    compiled({'africa': sized(p['n'])}, p['scope'],
             lambda lang: u.argv_for(p['scope'], 2000, 2050, lang, more=more),
             out, p, 'sizes %s %s %s' % (p['n'], p['scope'], ' '.join(more)))


# --- C: options ----------------------------------------------------------------------

OPT_TEXT = (
    GOODZ + mix.render('two', 0) + mix.render('old', 1) +
    mix.render('seconds', 2) + mix.render('month', 3) +
    mix.render('save10', 4) + mix.render('at30', 5) +
    'Zone\tA/Late\t1:00\t-\tA\t2044\n\t\t\t2:00\tPast\tB%sT\n'
    'Rule\tPast\t1991\t2003\t-\tMar\t1\t0:00\t1:00\tD\n'
    'Rule\tPast\t1991\t2003\t-\tOct\t1\t0:00\t0\tS\n'
    'Link\tZ/K0\tL/One\nLink\tZ/K2\tL/Two\nLink\tA/Late\tL/Three\n')
OPTS = [
    ['--nostrict'], ['--nocompress'], ['--skip_bufestimator'],
    ['--granularity', '60'], ['--granularity', '900'],
    ['--until_at_granularity', '1'], ['--offset_granularity', '900'],
    ['--delta_granularity', '60'], ['--json_file', 'other.json'],
    ['--ignore_buf_size_too_large'], ['--tiny_base_year', '2050'],
    ['--compress'], ['--strict']]
WINDOWS = [(1980, 2100), (2000, 2050), (2000, 2045), (2000, 2044),
           (1992, 2004), (1995, 2010), (2010, 2050)]
VERSIONS = ['2026a', '2026z', '2000a', '1999m', '2025b', 'HEAD', 'master',
            '2026', '2100c']
ENVS = {
    'flat': (lambda z, y: (4, 4), lambda z, y: False),
    'grow': (lambda z, y: (4, 4 + (y % 3)), lambda z, y: False),
    'zone': (lambda z, y: (3, 3 + len(z['name'] if isinstance(z, dict)
                                      else str(z)) % 5),
             lambda z, y: y > 2005),
    'term': (lambda z, y: (2, 2), lambda z, y: True),
    'zero': (lambda z, y: (0, 0), lambda z, y: y >= 2001)}


def set_env(name):
    s, t = ENVS[name]

    def go():
        runner.Env.sizes = staticmethod(s)
        runner.Env.terminal = staticmethod(t)
    return go


def options(items):
    from ..harness import Out
    out = Out()
    for it in items:
        one_opt(dict(it, part='C'), out)
    return out


def one_opt(p, out):
    inc = p.get('include')

    def argv(lang):
        a = u.argv_for(p['scope'], p['win'][0], p['win'][1], lang,
                       more=p['more'])
        a[a.index('--tz_version') + 1] = p.get('version', '2026e')
        return a
    compiled(p.get('files') or {'africa': OPT_TEXT}, p['scope'], argv, out, p,
             'options %s %s %s%s' % (p['scope'], p['win'], p['more'],
                                     ' include' if inc is not None else ''),
             include=inc, env=set_env(p.get('env', 'flat')))


def option_points(deep):
    pts = []
    scopes = ('basic', 'extended', 'complete')
    for scope, win in itertools.product(scopes, WINDOWS):
        pts.append(dict(scope=scope, win=win, more=[]))
        for env in ENVS:
            pts.append(dict(scope=scope, win=win, more=[], env=env))
    n = 3 if deep else 2
    for k in range(1, n + 1):
        for os in itertools.combinations(OPTS, k):
            heads = [o[0] for o in os]
            if len(set(heads)) < k or {'--strict', '--nostrict'} <= set(
                    heads) or {'--compress', '--nocompress'} <= set(heads):
                continue
            for scope in scopes:
                pts.append(dict(scope=scope, win=(2000, 2050),
                                more=sum(os, [])))
    for v in VERSIONS:
        for scope in scopes:
            pts.append(dict(scope=scope, win=(2000, 2050), more=[],
                            version=v))
    names = ['A/Good', 'Z/K0', 'Z/K2', 'L/One', 'L/Two', 'L/Three', 'A/Late']
    for k in range(0, 8 if deep else 4):
        for sub in itertools.combinations(names, k):
            pts.append(dict(scope='extended', win=(2000, 2050), more=[],
                            include='\n'.join(sub) + '\n'))
    for fs in itertools.combinations(tzmodel.FILES, 2):
        pts.append(dict(scope='extended', win=(2000, 2050), more=[],
                        files={fs[0]: GOODZ, fs[1]: mix.render('policy', 0)}))
    return pts


# --- Y: the order of years in the source -------------------------------------------------

YEARS = (1985, 1999, 2003, 2012, 2061)


def year_text(p):
    t = ''
    if p['rules']:
        for y in p['rules']:
            to = 'max' if y == p.get('open') else 'only'
            t += 'Rule\tP\t%d\t%s\t-\tMar\t5\t2:00\t1:00\tD\n' % (y, to)
            t += 'Rule\tP\t%d\t%s\t-\tSep\t5\t2:00\t0\tS\n' % (y, to)
        t += 'Zone\tA/P\t1:00\tP\tP%sT\n'
    t += 'Zone\tA/U'
    for y in p['untils']:
        t += '\t1:00\t-\tE%d\t%d\n\t\t' % (y, y)
    return t + '\t2:00\t-\tEND\n'


def year_points(deep):
    """every order of every set of FROM years x every set of UNTIL years"""
    pts = []
    for k in range(0, 5 if deep else 4):
        for rules in itertools.permutations(YEARS, k):
            for m in range(0, 4 if deep else 2):
                for untils in itertools.combinations(YEARS, m):
                    for op in sorted({None, *rules[:1], *rules[-1:]},
                                     key=str):
                        pts.append(dict(part='Y', rules=rules, untils=untils,
                                        open=op))
    return pts


def year_orders(items):
    from ..harness import Out
    out = Out()
    for p, scope, win, lang in items:
        one_order(dict(p, scope=scope, win=win, lang=lang), out)
    return out


def one_order(p, out):
    compiled({'africa': year_text(p)}, p['scope'],
             lambda lang: u.argv_for(p['scope'], p['win'][0], p['win'][1],
                                     lang, more=('--skip_bufestimator',)),
             out, p, 'years %s %s' % (p['rules'], p['untils']),
             langs=(p['lang'],))


# --- zones.txt and the real database ---------------------------------------------------

def zone_list(items):
    from ..harness import Out
    out = Out()
    for kinds, scope in items:
        one_list({'part': 'L', 'kinds': list(kinds), 'scope': scope}, out)
    return out


def one_list(p, out):
    text = mixed_text(p['kinds'], 0)
    argv = u.argv_for(p['scope'], 2000, 2004, 'python',
                      actions='zonelist,json')
    res = runner.run_main({'africa': text}, argv, 60)
    out.transitions += 1
    what = 'zones.txt of %s %s' % (','.join(p['kinds']), p['scope'])
    if not res.ok:
        out.outcome('refused')
        return
    j = json.loads(res.text('zonedb.json'))
    t = res.text('zones.txt')
    out.states += 1
    out.traces += 1
    lines = [x for x in t.split('\n') if x and not x.startswith('#')]
    if lines != sorted(j['zones_map']):
        out.bad('zone list', '%s lists %s' % (what, lines), p)
    m = re.findall(r'^# numZones: (\d+)$', t, re.M)
    if m != [str(len(lines))]:
        out.bad('zone list count', '%s: numZones %s of %d' % (
            what, m, len(lines)), p)
    try:
        inv, files, version, _ = header(t)
        if inv != ' '.join(res.argv) or version != '2026e' or \
                files != j['tz_files']:
            out.bad('zone list header', '%s: %s' % (what, (inv, version)), p)
    except Artifact as e:
        out.bad('unreadable', '%s: %s' % (what, e), p)


def real(item):
    from ..harness import Out
    out = Out()
    scope, win, lang, more = item
    one_real({'part': 'R', 'scope': scope, 'win': list(win), 'lang': lang,
              'more': list(more)}, out)
    return out


def one_real(p, out):
    compiled(real_tzdb(), p['scope'],
             lambda lang: u.argv_for(p['scope'], p['win'][0], p['win'][1],
                                     lang, more=p['more']),
             out, p, 'TZDB %s %s' % (p['scope'], p['win']),
             langs=(p['lang'],))


def check(ctx):
    kinds = list(mix.KINDS)
    items = []
    for k in range(1, 4 if ctx.thorough else 3):
        for ks in itertools.combinations(kinds, k):
            if k == 3 and sum(map(kinds.index, ks)) % 3:
                continue
            for li, sc in enumerate(('basic', 'extended', 'complete')):
                h = (kinds.index(ks[0]) + li + k) % 4
                for links in (range(4) if k == 1 or (ctx.thorough and k == 2)
                              else (h,)):
                    items.append((ks, links, sc, False))
                if k == 1:
                    items.append((ks, 1, sc, True))
    ctx.pmap(mixtures, list(explore.batches(items, 12)), 'A mixtures')
    pts = size_points(12 if ctx.thorough else 6)
    its = [(q, sc, fl) for q in pts for sc in ('basic', 'extended', 'complete')
           for fl in (0, 1)
           if ctx.thorough or fl == 0 or q.get('comps') or sc == 'extended']
    if not ctx.thorough:
        its = [it for i, it in enumerate(its)
               if it[1] == 'extended' or i % 3 == 0]
    ctx.pmap(sizes, list(explore.batches(its, 8)), 'B sizes')
    ctx.pmap(options, list(explore.batches(option_points(ctx.thorough), 6)),
             'C options')
    ys = []
    for k, p in enumerate(year_points(ctx.thorough)):
        for j, sc in enumerate(('basic', 'extended', 'complete')):
            if ctx.thorough or j == k % 3:
                ys.append((p, sc, ((2000, 2050), (1990, 2004), (1984, 2100),
                                   (2013, 2020))[(k // 3 + j) % 4],
                           LANGS[(k // 12 + j) % 4]))
    ctx.pmap(year_orders, list(explore.batches(ys, 40)), 'Y years')
    ctx.pmap(zone_list, list(explore.batches(
        [(ks, sc) for k in (1, 2) for ks in itertools.combinations(kinds, k)
         for sc in ('basic', 'extended', 'complete')], 40)), 'L zone lists')
    rs = [(sc, w, lang, m)
          for sc, w in (('basic', (2000, 2050)), ('extended', (2000, 2100)),
                        ('complete', (1800, 2100)), ('extended', (1974, 2050)))
          for lang in LANGS for m in ((), ('--nocompress',))
          if ctx.thorough or (not m and w != (1974, 2050))]
    ctx.pmap(real, rs, 'D TZDB')


def replay(payload):
    from ..harness import Out
    out = Out()
    p = payload
    f = {'A': one_mix, 'B': one_size, 'C': one_opt, 'L': one_list, 'Y': one_order,
         'R': one_real}[p['part']]
    if p['part'] == 'C':
        p = dict(p, win=tuple(p['win']))
    f(p, out)
    return [m for _, m, _ in out.viol]
