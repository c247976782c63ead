"""C09: all outputs of one compile describe the same database."""
import itertools
import json
from .. import cal, decode_c, decode_go, decode_py, explore, mix, runner
from .. import sweep, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from . import c16
from .c03 import source_text, link_sets
from .c04 import json_db

ID = 'C09'
BOUNDS = (
    'A: every rule set of 1..2 (partly 3; thorough: 4) rules over years, '
    'dates, times, suffixes, savings and letters, each under up to 4 zone '
    'histories; B: every zone history of <=3 eras; C: every database of <=2 '
    '(thorough: <=3) of 25 zone kinds with link sets; D: every letter, format '
    'and name of an alphabet of spellings; E: the real TZDB in several '
    'windows; coarse: every field of an era and a rule on and off each '
    'granularity, strict and not; F: the sweeps of every field of eras and '
    'rules of C07; in every scope.  Python, Go, JSON, zone list, estimator '
    'argument and Arduino (or C) output of one compile are decoded and '
    'compared record by record')
ASSUMPTIONS = [
    'Arduino and C write header files of the same name, so they are compared '
    'through the other outputs, in two compiles',
    'the decoders in mc/decode_*.py read the artifacts as the target '
    'languages do',
]
MORE = ('--ignore_buf_size_too_large',)


def short(fmt):
    """The documented short form of a FORMAT."""
    return '' if fmt == '%z' else fmt.replace('%s', '%')


def tiny(y, kind, base=2100):
    """The year a one-byte year field stands for."""
    c = c16.ref(kind, y, base)
    if c == -127:
        return tzmodel.MIN_YEAR
    if c == (126 if kind == 'rule' else 127):
        return tzmodel.MAX_TO if kind == 'rule' else tzmodel.MAX_UNTIL
    return base + c


def saturate(db):
    """The database as one-byte years can hold it."""
    def r2(r):
        return r._replace(frm=tiny(r.frm, 'rule'), to=tiny(r.to, 'rule'))

    def e2(e):
        if e.until is None:
            return e
        y = tiny(e.until[0], 'until')
        if y == e.until[0]:
            return e
        # the year is lost, so the day number is counted from another
        d = cal.days(y, *cal.civil(e.until[1])[1:])
        return e._replace(until=(y, d) + e.until[2:])
    return tzmodel.Db({z: [e2(e) for e in es] for z, es in db.zones.items()},
                      {p: [r2(r) for r in rs]
                       for p, rs in db.policies.items()}, db.links)


def res_db(db, shorten=False):
    """zone -> eras with the policy replaced by its rules"""
    def e2(e):
        if shorten:
            e = e._replace(fmt=short(e.fmt))
        if e.policy is None:
            return e
        return e._replace(policy=tuple(db.policies[e.policy]))
    return {z: [e2(e) for e in es] for z, es in db.zones.items()}


def policies_of(db):
    return sorted(map(tuple, db.policies.values()), key=repr)


def info_db(infos):
    """The in-memory database handed to the estimator."""
    zones, pol = {}, {}
    for n, i in infos.items():
        es = []
        for e in i['eras']:
            p = e['zone_policy']
            if p is not None:
                rs = [decode_py.rule_of(r) for r in p['rules']]
                if pol.setdefault(p['name'], rs) != rs:
                    raise Exception('two policies called %s' % p['name'])
                p = p['name']
            es.append(tzmodel.Era(
                e['offset_seconds'], p, e['era_delta_seconds'], e['format'],
                decode_py.until_of(e['until_year'], e['until_month'],
                                   e['until_day'], e['until_seconds'],
                                   e['until_time_suffix'])))
        zones[n] = es
    return tzmodel.Db(zones, pol, {})


def first_diff(a, b):
    for z in sorted(set(a) | set(b)):
        if a.get(z) != b.get(z):
            x, y = a.get(z), b.get(z)
            if x is None or y is None:
                return '%s only in %s' % (z, 'first' if x else 'second')
            for i, (p, q) in enumerate(itertools.zip_longest(x, y)):
                if p != q:
                    return '%s[%d]:\n  %s\n  %s' % (z, i, p, q)
    return None


def compare(files, scope, lang, s, un, out, p, more=MORE, extra_ok=False,
            timeout=120, include=None):
    """Compile once for {lang, python, go} and compare everything.  Returns
    the Result."""
    runner.Env.infos = {}
    try:
        res = runner.run_main(files, u.argv_for(
            scope, s, un, lang + ',python,go', actions='zonedb,json,zonelist',
            more=more), timeout=timeout, include=include)
    finally:
        infos, runner.Env.infos = runner.Env.infos, None
    if not res.ok:
        return res
    dbs = {}
    py, zreg, reg = decode_py.decode(res.files)
    dbs['python'] = py
    dbs['json'] = json_db(res.files['zonedb.json'])
    go = decode_go.decode(res.files)
    dbs['go'] = go.db
    dbs[lang] = decode_c.decode(res.files, lang, scope).db
    dbs['estimator'] = info_db(infos)
    j = json.loads(res.files['zonedb.json'])
    js = dbs['json']
    own = js if scope == 'complete' else saturate(js)
    refs = {'go': res_db(js, True), lang: res_db(own, True)}
    plain = res_db(js)
    pols = policies_of(js)
    owns = policies_of(own)
    out.traces += 1
    for n, db in dbs.items():
        d = first_diff(refs.get(n, plain), res_db(db))
        if d:
            out.bad('zones:' + n, 'JSON and %s differ: %s\n%s' % (
                n, d, p), p)
        if n != 'estimator' and db.links != dbs['json'].links:
            out.bad('links:' + n, 'JSON and %s differ in links: %s' % (
                n, sorted(set(db.links.items()) ^
                          set(dbs['json'].links.items()))[:4]), p)
        if n != 'estimator' and policies_of(db) != (
                owns if n == lang else pols):
            out.bad('policies:' + n, 'JSON and %s differ in policies' % n, p)
    for n in ('python', 'estimator'):
        for name, rs in dbs[n].policies.items():
            if dbs['json'].policies.get(name) != rs:
                out.bad('policies:' + n, 'policy %s differs' % name, p)
    for z, i in j['zones_map'].items():
        for e in i['eras']:
            if e['format_short'] != short(e['format']):
                out.bad('format_short', '%s: %s' % (z, e), p)
    zs, ls = set(dbs['json'].zones), set(dbs['json'].links)
    if set(zreg) != zs or set(reg) != zs | ls:
        out.bad('python registry', 'registries hold %s / %s' % (
            sorted(set(zreg) ^ zs)[:4], sorted(set(reg) ^ (zs | ls))[:4]), p)
    for n, i in reg.items():
        if i['name'] != n:
            out.bad('python registry', '%s is registered as %s' % (
                i['name'], n), p)
    lines = [x for x in res.text('zones.txt').split('\n')
             if x and x[0] != '#']
    if lines != sorted(zs):
        out.bad('zone list', 'zones.txt has %s' % (
            sorted(set(lines) ^ zs)[:4] or 'another order'), p)
    if set(j['zone_ids']) != zs or set(j['link_ids']) != ls:
        out.bad('ids', 'JSON ids do not match the zones', p)
    return res


def cases(item):
    from ..harness import Out
    out = Out()
    stack = [item[0]]
    _, scope, lang, s, un, *more = item
    more = more[0] if more else ()
    while stack:
        part = stack.pop()
        if not part:
            continue
        text = 'Zone\tA/Good\t1:00\t-\tG\n' + ''.join(
            u.render(c, i) for i, c in part) + ''.join(
            'Link\t%s\tL/C%d\n' % (u.zname(i), i) for i, c in part[::5])
        p = {'part': 'A', 'scope': scope, 'lang': lang, 'win': [s, un],
             'more': list(more)}
        if len(part) == 1:
            p['case'] = [dict(part[0][1].rules), list(part[0][1].eras)]
        o = type(out)()
        res = compare({'asia': text}, scope, lang, s, un, o, p,
                      MORE + tuple(more))
        if res.ok and not o.viol:
            o.states = len(part)
            o.traces = len(part)
            o.outcome('same')
            out.merge(o)
        elif len(part) == 1:
            o.states = 1
            o.outcome('refused' if not res.ok else 'DIFFERENT')
            out.merge(o)
        else:
            m = len(part) // 2
            stack += [part[m:], part[:m]]
            if len(out.viol) > 6:
                break
    return out


def mixes(items):
    from ..harness import Out
    out = Out()
    for kinds, links, scope, lang, strict in items:
        out.states += 1
        text = 'Zone\tA/Good\t1:00\t-\tG\n' + source_text(
            kinds, links, len(kinds) == 1)
        p = {'part': 'C', 'item': [list(kinds), [list(x) for x in links],
                                   scope, lang, strict]}
        res = compare({'asia': text}, scope, lang, 2000, 2010, out, p,
                      MORE + (('--strict',) if strict else ('--nostrict',)))
        out.outcome('mix ' + ('same' if res.ok else 'refused'))
    return out


LETTERS = ['-', 'S', 'D', 'WAT', '+01', '-0330', 'XYZXYZ', 's', 'd', '0']
FORMATS = ['A%sT', '%s', 'A/B', 'AB%s', '%sAB', '+05', '-0330', '%z', 'LMT',
           '+01/+02', 'x%sy', 'ABCDEFGHIJ']
NAMES = ['UTC', 'A/B', 'Etc/GMT+12', 'Etc/GMT-12', 'A/B-C', 'A/B_C', 'a/b',
         'America/Argentina/ComodRivadavia', 'A.B/c', 'Z9', 'GB-Eire',
         'class/in', 'def/None']


def spellings(item):
    """One compile per choice of letters, format and name."""
    from ..harness import Out
    out = Out()
    scope, lang, combos = item
    for n1, fmt, l1, l2 in combos:
        out.states += 1
        text = (
            'Rule\tP\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\t%s\n'
            'Rule\tP\t1990\tmax\t-\tOct\tSun>=1\t2:00s\t0\t%s\n'
            'Zone\t%s\t1:00\tP\t%s\nZone\tA/Good\t1:00\t-\tG\n'
            'Link\t%s\tL/Nk\n' % (l1, l2, n1, fmt, n1))
        p = {'part': 'D', 'item': [scope, lang, [[n1, fmt, l1, l2]]]}
        res = compare({'asia': text}, scope, lang, 2000, 2010, out, p)
        out.outcome('spelling ' + ('same' if res.ok else 'refused'))
        if not res.ok:
            out.bad('refused', '%s\n%s' % (res.exc, text), p)
            continue
        db = decode_py.decode(res.files)[0]
        rs = db.policies['P']
        if sorted({r.letter for r in rs}) != sorted({
                x if x != '-' else '' for x in (l1, l2)}) and \
                sorted({r.letter for r in rs}) != sorted({l1, l2}):
            out.bad('letter', 'letters %s for %s' % (
                [r.letter for r in rs], (l1, l2)), p)
        if n1 not in db.zones or db.zones[n1][0].fmt != fmt:
            out.bad('format', 'zone %s: %s for %s' % (
                n1, db.zones.get(n1), fmt), p)
    return out


def real(item):
    from ..harness import Out
    out = Out()
    scope, s, un, lang, more = item
    out.states += 1
    res = compare(real_tzdb(), scope, lang, s, un, out,
                  {'part': 'E', 'item': list(item)}, MORE + tuple(more),
                  timeout=400)
    out.outcome('real ' + ('same' if res.ok else 'refused'))
    if not res.ok:
        out.bad('refused', res.exc, {'part': 'E', 'item': list(item)})
    return out


COARSE = [('--nostrict',), ('--nostrict', '--granularity', '1800'),
          ('--nostrict', '--delta_granularity', '3600'),
          ('--nostrict', '--until_at_granularity', '3600',
           '--offset_granularity', '900'), ('--strict',)]


def coarse_cases():
    """Every field of an era and a rule on and off the granularity."""
    out = []
    for off in ('1:00', '1:00:31', '-1:07:13', '-0:00:59'):
        for until in ('2001 Mar 3 2:00', '2001 Mar 3 2:07:07s',
                      '2001 Mar 3 0:00:59u'):
            for fix in ('0:10', '0:40', '-0:10', '1:00', '-0:40', '2:05'):
                out.append(u.Case({}, ('%s %s F %s' % (off, fix, until),
                                       '2:00 0:20 G')))
            for at in ('2:00', '2:07:07u', '0:00:59s'):
                for save in ('1:00', '0:40', '0:10', '-0:20'):
                    out.append(u.Case(
                        {'P': ('1990 max Mar 3 %s %s D' % (at, save),
                               '1990 max Oct 3 %s 0 S' % at)},
                        ('%s P A%%sT %s' % (off, until), '2:00 P B%sT')))
    return out


def check(ctx):
    t = ctx.thorough
    cc = list(enumerate(coarse_cases()))
    ctx.transitions += len(cc)
    ctx.pmap(cases, [(b, sc, lg, u.S, u.U, m) for sc in (
        'basic', 'extended', 'complete') for lg in ('arduino', 'c')
        for m in COARSE for b in explore.batches(cc, 60)], 'coarse')
    items = []
    for scope in ('basic', 'extended', 'complete'):
        low = scope != 'complete'
        sw = [c for _, c in sweep.rule_cases(low, 0)] + [
            c for _, c in sweep.era_cases(low, 0)]
        ctx.notes['field sweep ' + scope] = len(sw)
        for n, b in enumerate(explore.batches(list(enumerate(sw)), 250)):
            if not t and low and n % 2 != (scope == 'basic'):
                continue
            for lang in ('arduino', 'c') if t else (('arduino', 'c')[n % 2],):
                items.append((b, scope, lang) + (
                    (1980, 2224) if low else (0, 9998)))
    ctx.transitions += sum(len(i[0]) for i in items)
    ctx.pmap(cases, items, 'field sweeps')
    ps, tr = u.policy_universe(1 if t else 0)
    ctx.transitions += tr
    ca = []
    for n, q in enumerate(ps):
        ks = (0, 1, 2, 3) if t and len(q) < 3 else (n % 4,)
        ca += [u.wrap_policy(q, k) for k in ks]
    hist, tr = u.era_universe(3, u.BODIES, u.UNTILS)
    ctx.transitions += tr
    cb = [u.wrap_eras(h) for h in hist]
    if not t:
        ca = [c for i, c in enumerate(ca) if len(c.rules['P']) < 3 or
              i % 4 == 0]
        cb = cb[:6000]
    n = 0
    items = []
    # basic keeps few eras: 1/3 of the cases each; the tables of a scope
    # differ by unit and year format, not by case
    combos = [('complete', 'arduino'), ('extended', 'c'), ('complete', 'c'),
              ('extended', 'arduino'), ('basic', 'arduino'), ('basic', 'c')]
    for cs in (ca, cb):
        for b in explore.batches(list(enumerate(cs)), 150):
            for scope, lang in (combos if t else
                                (combos[n % 4], combos[4 + n % 2])[:1 + (
                                    n % 3 == 0)]):
                items.append((b, scope, lang, u.S, u.U))
            n += 1
    ctx.notes['cases'] = {'A': len(ca), 'B': len(cb)}
    ctx.pmap(cases, items, 'cases')
    it = []
    r = explore.subsets(list(mix.KINDS), 1, 3 if t else 2)
    ctx.transitions += r.transitions
    for kinds in r.states:
        for links in link_sets(len(kinds), len(kinds) == 1).states:
            if any(i < 0 for _, i in links):
                continue
            for scope in ('basic', 'extended', 'complete'):
                if scope != 'basic' and any(
                        mix.expected(k, scope) == 'drop' for k in kinds):
                    continue
                if len(kinds) == 3 and (n + len(it)) % 3:
                    n += 1
                    continue
                it.append((kinds, links, scope, ('arduino', 'c')[n % 2],
                           n // 2 % 2 == 0))
                n += 1
    ctx.pmap(mixes, list(explore.batches(it, 60)), 'mixes')
    sp = []
    for n1, fmt in itertools.product(NAMES, FORMATS):
        sp.append((n1, fmt, 'D', 'S'))
    for l1, l2, fmt in itertools.product(LETTERS, LETTERS, FORMATS):
        if t or fmt in FORMATS[:4]:
            sp.append(('A/B', fmt, l1, l2))
    sp = [(s, l, b) for i, (s, l) in enumerate(combos) for b in
          explore.batches(sp if t else sp[i % 3::3], 60)]
    ctx.pmap(spellings, sp, 'spellings')
    reals = [('complete', 2000, 2050, 'arduino', ()),
             ('complete', 1900, 2100, 'c', ()),
             ('extended', 2000, 2050, 'c', ('--nocompress',)),
             ('extended', 1980, 2038, 'arduino', ('--nostrict',)),
             ('basic', 2000, 2100, 'arduino', ()),
             ('basic', 2010, 2020, 'c', ('--nostrict',))]
    if t:
        for s in range(1974, 2040, 6):
            reals += [('complete', s - 60, 2050, 'c', ()),
                      ('extended', s, 2060, 'arduino', ('--nostrict',)),
                      ('basic', max(s, 1980), 2060, 'c', ())]
    ctx.pmap(real, reals, 'real TZDB')


def replay(p):
    from ..harness import Out
    if p['part'] == 'A':
        if 'case' not in p:
            return ['batch only']
        rules, eras = p['case']
        c = u.Case({k: tuple(v) for k, v in rules.items()}, tuple(eras))
        o = cases(([(0, c)], p['scope'], p['lang'], *p['win'],
                   tuple(p.get('more', ()))))
    elif p['part'] == 'C':
        k, l, *r = p['item']
        o = mixes([(tuple(k), [tuple(x) for x in l], *r)])
    elif p['part'] == 'D':
        o = spellings((p['item'][0], p['item'][1],
                       [tuple(x) for x in p['item'][2]]))
    else:
        o = real(tuple(p['item']))
    return [m for _, m, _ in o.viol]
