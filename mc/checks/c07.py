"""C07: Arduino and C tables encode each record losslessly and in range."""
import itertools
import json
from .. import decode_c, decode_py, explore, runner, sweep, tzmodel
from .. import universe as u
from . import c09

ID = 'C07'
BOUNDS = (
    'A: every field of eras and rules through its whole domain: STDOFF and '
    'times -25:00..25:00 by the minute (high format: also by the second, '
    'thorough: every second), all suffixes, all SAVE values x remainders x '
    'suffixes (the fields that share a byte), all months and days of the '
    'year, all years of the one-byte format, a dense grid of the two-byte '
    'format, letters and formats; in both formats, both languages, decoded '
    'and compared with the source; B: every number of letters, rules per '
    'policy and eras per zone 1..260 (quick: up to 12 and around 127 and 255) '
    'with the counts and references decoded; values and granularities beyond '
    'the format; C: the real TZDB')
ASSUMPTIONS = [
    'the field order and packing are those of the AceTime and acetimec table '
    'types the generated files name (zoneinfo low and high formats)',
    'years beyond the one-byte range saturate (C16)',
]
MORE = ('--skip_bufestimator',)
WIN = {'extended': (1980, 2224), 'basic': (1980, 2224),
       'complete': (0, 9998)}


def same(db, i, case):
    """'' or how the decoded zone differs from its source."""
    z = u.zname(i)
    if z not in db.zones:
        return 'zone missing'
    want = sweep.plain(sweep.expected(case, i))
    got = sweep.plain(c09.res_db(tzmodel.Db(
        {z: db.zones[z]}, db.policies, {}))[z])
    if want == got:
        return ''
    for a, b in zip(want, got):
        if a != b:
            return 'source %s\ntables %s' % (a, b)
    return 'source has %d eras, tables %d' % (len(want), len(got))


def cases(item):
    from ..harness import Out
    out = Out()
    cs, lang, scope, decoder = item
    s, un = WIN[scope]
    argv = u.argv_for(scope, s, un, lang, more=MORE)
    for res, part in u.compile_batch([(i, c[1]) for i, c in cs], argv,
                                     prefix='Zone\tA/Good\t1:00\t-\tG\n'):
        names = {i: c[0] for i, c in cs}
        if not res.ok:
            i, c = part[0]
            out.states += 1
            out.outcome('refused')
            out.bad('refused:' + names[i], '%s %s: %s\n%s' % (
                lang, scope, res.exc, u.render(c, i)),
                pay(names[i], c, lang, scope))
            continue
        try:
            db = decoder(res.files, lang, scope)
        except decode_py.Artifact as e:
            if len(part) > 1:
                # find the case: each half on its own
                for half in (part[::2], part[1::2]):
                    o = cases(([(i, (names[i], c)) for i, c in half],
                               lang, scope, decoder))
                    out.merge(o)
                if out.viol:
                    continue
            i, c = part[0]
            out.bad('artifact', '%s %s: %s\n%s' % (
                lang, scope, e, u.render(c, i)),
                pay(names[i], c, lang, scope))
            continue
        for i, c in part:
            out.states += 1
            if scope == 'basic' and u.zname(i) not in db.zones:
                out.outcome('not in basic')
                continue
            out.traces += 1
            d = same(db, i, c)
            out.outcome('same' if not d else 'DIFFERENT')
            if d:
                out.bad('field:' + names[i], '%s %s %s: %s\n%s' % (
                    lang, scope, names[i], d, u.render(c, i)),
                    pay(names[i], c, lang, scope))
    return out


def pay(name, c, lang, scope):
    return {'part': 'A', 'name': name, 'rules': dict(c.rules),
            'eras': list(c.eras), 'lang': lang, 'scope': scope}


def c_decoder(files, lang, scope):
    return decode_c.decode(files, lang, scope).db


def sweep_items(level, langs, scopes, decoder):
    memo = {}
    for scope in scopes:
        low = scope != 'complete'
        if low not in memo:
            memo[low] = sweep.rule_cases(low, level), sweep.era_cases(
                low, level)
        rules, eras = memo[low]
        if scope == 'basic':
            eras = [x for x in eras if x[0] in ('offset', 'year')]
        for cs in (rules, eras):
            for n, b in enumerate(explore.batches(list(enumerate(cs)), 180)):
                for lang in langs:
                    yield (b, lang, scope, decoder)


# --- B: counts and limits --------------------------------------------------

def count_text(kind, n):
    """Source whose count of `kind` is n."""
    if kind == 'letters':       # '' is used by the standard rule: n letters
        t = 'Rule\tP\t1985\tmax\t-\tOct\tlastSun\t2:00\t0\t-\n'
        t += 'Rule\tP\t1985\tmax\t-\tMar\tlastSun\t2:00\t1:00\t-\n'
        for i in range(n - 1):
            t += 'Rule\tP%d\t1990\tmax\t-\tMar\t1\t2:00\t1:00\tL%d\n' % (i, i)
            t += 'Rule\tP%d\t1990\tmax\t-\tOct\t1\t2:00\t0\t-\n' % i
            t += 'Zone\tZ/N%d\t1:00\tP%d\tA%%s\n' % (i, i)
        return t + 'Zone\tZ/N\t1:00\tP\tA%s\n'
    if kind == 'rules':         # n rules with the anchor
        t = ''
        for i in range(n - 1):
            t += 'Rule\tP\t%d\tonly\t-\t%s\t%d\t2:00\t%s\n' % (
                1985 + i // 2, 'Oct' if i % 2 == 0 else 'Mar', 1 + i % 20,
                '0\tS' if i % 2 == 0 else '1:00\tD')
        return t + 'Zone\tZ/N\t1:00\tP\tA%s\n'
    if kind == 'eras':
        t = 'Zone\tZ/N\t'
        for i in range(n - 1):
            t += '%d:%02d\t-\tF%d\t%d %s\n\t\t\t' % (
                i % 12, i % 4 * 15, i % 7, 1981 + i // 2,
                'Jan 5' if i % 2 == 0 else 'Jul 5')
        return t + '1:00\t-\tA\n'


def counts(item):
    from ..harness import Out
    out = Out()
    kind, n, lang, scope, decode, limit = item
    out.states += 1
    out.traces += 1
    files = {'asia': count_text(kind, n) + 'Link\tZ/N\tZ/L\n'}
    s, un = WIN[scope]
    res = runner.run_main(files, u.argv_for(scope, s, un, lang, more=MORE))
    p = {'part': 'B', 'item': [kind, n, lang, scope, None, limit]}
    over = limit is not None and n > limit
    out.outcome('%s %s' % (kind, 'beyond' if over else 'fits'))
    if over:
        if res.ok:
            out.bad('limit:' + kind, '%d %s accepted by %s %s' % (
                n, kind, lang, scope), p)
        elif res.files:
            out.bad('partial', '%d %s: files written before the refusal' % (
                n, kind), p)
        elif not res.exc:
            out.bad('message', 'no message', p)
        return out
    if not res.ok:
        out.bad('refused:' + kind, '%d %s refused by %s %s: %s' % (
            n, kind, lang, scope, res.exc), p)
        return out
    try:
        db = decode(res.files, lang, scope)
    except decode_py.Artifact as e:
        out.bad('artifact', '%d %s in %s %s: %s' % (n, kind, lang, scope, e),
                p)
        return out
    src = tzmodel.parse_source(files)
    d = whole(src, db)
    if d:
        out.bad('count:' + kind, '%d %s in %s %s: %s' % (n, kind, lang,
                                                         scope, d), p)
    return out


def whole(src, db):
    """'' or how the zones of the decoded tables differ from the source."""
    if set(src.zones) != set(db.zones):
        return 'zones %s' % sorted(set(src.zones) ^ set(db.zones))[:4]
    if src.links != db.links:
        return 'links %s' % db.links
    got = c09.res_db(db)
    want = c09.res_db(src)
    for z in src.zones:
        a, b = sweep.plain(want[z]), sweep.plain(got[z])
        if a != b:
            return '%s: source %s\ntables %s' % (z, a, b)
    return ''


# values the format cannot hold: (scope, options, source)
G = 'Zone\tA/Good\t1:00\t-\tG\n'
RP = 'Rule\tP\t1990\tmax\t-\tOct\t1\t2:00\t0\tS\nZone\tZ/N\t1:00\tP\tA%s\n'
BEYOND = [
    ('extended', ('--until_at_granularity', '1'),
     'Rule\tP\t1990\tmax\t-\tMar\t1\t2:00:30\t1:00\tD\n' + RP),
    ('extended', ('--until_at_granularity', '1'),
     'Zone\tZ/N\t1:00\t-\tA\t2001 Mar 1 2:00:01\n\t\t2:00\t-\tB\n'),
    ('extended', ('--offset_granularity', '1'), 'Zone\tZ/N\t1:00:30\t-\tA\n'),
    ('basic', ('--offset_granularity', '1'), 'Zone\tZ/N\t1:00:30\t-\tA\n'),
    ('extended', ('--delta_granularity', '60'),
     'Rule\tP\t1990\tmax\t-\tMar\t1\t2:00\t0:20\tD\n' + RP),
    ('extended', ('--delta_granularity', '60'), 'Zone\tZ/N\t1:00\t0:20\tA\n'),
    ('complete', ('--delta_granularity', '1'),
     'Rule\tP\t1990\tmax\t-\tMar\t1\t2:00\t0:20:30\tD\n' + RP),
    ('complete', ('--delta_granularity', '1'),
     'Zone\tZ/N\t1:00\t0:20:30\tA\n'),
]
SEAM = len(BEYOND)


def _beyond():
    '''Every saving outside what the packed formats hold, and every negative
    or too late time of day.'''
    rule = 'Rule\tP\t1990\tmax\t-\tMar\t1\t%s\t%s\tD\n' + RP.replace('%', '%%')
    for scope, top, step in (('extended', 9900, 900), ('complete', 7620, 60)):
        for d in itertools.chain(range(top + step, 93600 + 1, step),
                                 range(-3600 - step, -93600 - 1, -step)):
            yield scope, (), rule % ('2:00', sweep.hm(d))
            yield scope, (), 'Zone\tZ/N\t1:00\t%s\tA\n' % sweep.hm(d)
        for d in itertools.chain(range(90000 + step, 130000, step),
                                 range(-step, -93600 - 1, -step)):
            yield scope, (), rule % (sweep.hm(d), '1:00')
            yield scope, (), ('Zone\tZ/N\t1:00\t-\tA\t2001 Mar 1 %s\n'
                              '\t\t2:00\t-\tB\n' % sweep.hm(d))


BEYOND += list(_beyond())


def beyond_some(thorough):
    """Quick: every value of the low format, and those of the high format next
    to its range or in a coarse grid."""
    for n, (scope, _, text) in enumerate(BEYOND):
        if thorough or n < SEAM or scope == 'extended' or n % 122 < 2 or any(
                x in text for x in NEAR):
            yield n


NEAR = ['\t%s%d:%02d' % (s, h, m) for s, h, lo, hi in (
    ('', 2, 7, 20), ('-', 1, 0, 9), ('', 25, 0, 9)) for m in range(lo, hi)] + [
    ' 25:%02d' % m for m in range(10)] + ['-0:%02d' % m for m in range(10)]


def beyond(item):
    from ..harness import Out
    out = Out()
    n, lang, strict = item
    scope, more, text = BEYOND[n]
    out.states += 1
    out.traces += 1
    res = runner.run_main({'asia': G + text}, u.argv_for(
        scope, 2000, 2050, lang, more=MORE + more + (
            '--strict' if strict else '--nostrict',)))
    p = {'part': 'L', 'item': list(item)}
    if not res.ok:
        out.outcome('beyond: refused')
        if res.files or not res.exc:
            out.bad('partial', '%s: %s' % (text, sorted(res.files)), p)
        return out
    out.outcome('beyond: completed')
    j = json.loads(res.files['zonedb.json'])
    db = c_decoder(res.files, lang, scope) if lang != 'go' else \
        go_decoder(res.files, lang, scope)
    if 'Z/N' in db.zones:
        d = whole(tzmodel.parse_source({'asia': G + text}), db)
        if d:
            out.bad('beyond', '%s %s %s\n%s%s' % (lang, scope, more, text, d),
                    p)
    elif not j['removed_zones'].get('Z/N'):
        out.bad('beyond', 'zone gone without a reason\n%s' % text, p)
    return out


def go_decoder(files, lang, scope):
    from . import c08
    return c08.decoder(files)


def real(item):
    from ..harness import Out
    out = Out()
    scope, s, un, lang, more = item
    from ..zonesrc import real_tzdb
    out.states += 1
    c09.compare(real_tzdb(), scope, lang, s, un, out,
                {'part': 'C', 'item': list(item)}, MORE + tuple(more),
                timeout=400)
    # the estimator did not run: its argument is not compared
    out.viol = [v for v in out.viol if v[0] != 'zones:estimator']
    out.outcome('real')
    return out


def check(ctx):
    level = 1 if ctx.thorough else 0
    items = list(sweep_items(level, ('arduino', 'c'),
                             ('extended', 'complete', 'basic'), c_decoder))
    if not ctx.thorough:
        # the two languages share their encoder; alternate them
        items = [x for n, x in enumerate(items)
                 if x[2] != 'basic' and (n // 2 + n) % 2 == 0]
    ctx.transitions += sum(len(i[0]) for i in items)
    ctx.pmap(cases, items, 'sweeps')
    it = []
    for kind in ('letters', 'rules', 'eras'):
        ns = range(2, 261) if ctx.thorough else list(range(2, 13)) + [
            126, 127, 128, 129, 254, 255, 256, 257, 258]
        for n in ns:
            if kind == 'rules' and n < 3:
                continue
            for lang in ('arduino', 'c'):
                for scope in ('extended', 'complete'):
                    if ctx.thorough or (n + (lang == 'c')) % 2 or n > 250:
                        it.append((kind, n, lang, scope, c_decoder, 255))
    ctx.pmap(counts, it, 'counts')
    ctx.pmap(beyond, [(n, lang, st) for n in beyond_some(ctx.thorough)
                      for lang in ('arduino', 'c') for st in (True, False)],
             'beyond')
    ctx.pmap(real, [('complete', 1800, 2100, 'c', ()),
                    ('extended', 1980, 2060, 'arduino', ('--nostrict',))],
             'real')


def replay(p):
    if p['part'] == 'A':
        c = u.Case({k: tuple(v) for k, v in p['rules'].items()},
                   tuple(p['eras']))
        o = cases(([(0, (p['name'], c))], p['lang'], p['scope'], go_decoder
                   if p['lang'] == 'go' else c_decoder))
    elif p['part'] == 'B':
        k, n, lang, scope, _, limit = p['item']
        o = counts((k, n, lang, scope, go_decoder if lang == 'go' else
                    c_decoder, limit))
    elif p['part'] == 'L':
        o = beyond(tuple(p['item']))
    else:
        o = real(tuple(p['item']))
    return [m for _, m, _ in o.viol]
