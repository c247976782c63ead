"""C01: emitted zonedb reproduces TZDB local time over the requested years."""
import itertools

from .. import cal, decode_c, decode_go, decode_py, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb

ID = 'C01'
BOUNDS = (
    'window [2000,2004) plus one year on each side; A: every rule set reached '
    'by adding <=2 rules (thorough: <=3..4) from 16 year spans x dates x '
    'SAVE/LETTER, each seen through 4 zone shapes; B: every zone history of '
    '<=3 eras over 6 era bodies and 17 UNTIL values; C: every window '
    '1997<=s<u<=2006 over a smaller alphabet; D: the same cases through the '
    'Arduino, C and Go artifacts; E: the real TZDB over a grid of windows, '
    'scopes and languages; F: the reference model against zic; G: 3 (thorough: 4) rules of the '
    'month before the window in every source order, and eras ending around '
    'New Year under 1-2 (thorough: 3) rules around New Year; H: 2 rules of the same '
    'or adjacent months in every ON and AT form, ordered by their resolved '
    'day or time of day, in both source orders, before, in and after the '
    'window')
ASSUMPTIONS = [
    'the TZDB text is interpreted by a reference model (mc/tzmodel.py); it is '
    'compared with zic(8) on the real TZDB and on the universes',
    'a policy all of whose rules start after the window (plus one year) makes '
    'the compile refuse the source: documented design limit',
    'instants within 3 days of the outer edge of the margin years are not '
    'compared, because a fixed year window has no fixed UTC edge',
]
DAY = 86400
MORE = ('--ignore_buf_size_too_large',)


def window(s, un):
    return tzmodel.year_utc(s - 1) + 3 * DAY, tzmodel.year_utc(un + 1) - 3 * DAY


def all_rules_too_new(eras, policies, s, un):
    """Some era in the window uses a policy with no rule up to until_year."""
    for e in tzmodel.kept_eras(eras, s, un):
        if e.policy and all(r.frm > un for r in policies[e.policy]):
            return True
    return False


def mixed_decode(files, lang, scope):
    """-> {language: Db}"""
    if lang == 'python':
        return decode_py.decode(files)[0]
    if lang == 'go':
        return decode_go.decode(files).db
    return decode_c.decode(files, lang, scope).db


def granularity(scope, lang):
    """(until/at, offset, delta) in seconds, as documented defaults."""
    return (1, 1, 60) if scope == 'complete' else (60, 60, 900)


def check_cases(item):
    """Worker: compile a batch of cases and compare timelines."""
    from ..harness import Out
    out = Out()
    cases, scope, s, un, lang = item
    lo, hi = window(s, un)
    argv = u.argv_for(scope, s, un, lang, actions='zonedb',
                      more=MORE + (('--nostrict',) if scope != 'complete'
                                   else ()))
    gran = granularity(scope, lang)
    for res, part in u.compile_batch(cases, argv):
        if not res.ok:
            i, c = part[0]
            out.states += 1
            src = u.source(c, i)
            if res.kind == 'exc' and all_rules_too_new(
                    src.zones[u.zname(i)], src.policies, s, un):
                out.outcome('refused: all rules of a policy too new')
                continue
            out.bad('refused', 'a supported source was refused: %s\n%s' % (
                res.exc or res.kind, u.render(c, i)),
                payload(c, scope, s, un, lang))
            continue
        db = mixed_decode(res.files, lang, scope)
        for i, c in part:
            out.states += 1
            out.traces += 1
            z = u.zname(i)
            src = u.source(c, i)
            if scope != 'complete':
                src = tzmodel.truncate(src, *gran)
            if z not in db.zones:
                out.bad('missing', 'zone not emitted and compile succeeded\n'
                        + u.render(c, i), payload(c, scope, s, un, lang))
                continue
            a = tzmodel.timeline(src.zones[z], src.policies, lo, hi)
            b = tzmodel.timeline(db.zones[z], db.policies, lo, hi)
            d = tzmodel.diff(a, b)
            out.add('local_time_segments', len(a))
            if d:
                out.outcome('difference')
                out.bad('diff', '%s scope=%s years=[%d,%d): at %s source '
                        '(offset, save, abbrev)=%s, emitted %s\n%s' % (
                            lang, scope, s, un, tzmodel.fmt_utc(d[0]), d[1],
                            d[2], u.render(c, i)),
                        payload(c, scope, s, un, lang))
            else:
                out.outcome('same local time')
                if len(a) > 3:
                    out.sample('%s => %d segments identical' % (
                        u.render(c, i).replace('\n', ' | ').replace(
                            '\t', ' '), len(a)))
    return out


def payload(c, scope, s, un, lang):
    return {'rules': c.rules, 'eras': c.eras, 'scope': scope, 'start': s,
            'until': un, 'lang': lang}


def check_real(item):
    from ..harness import Out
    out = Out()
    scope, s, un, langs, lim = item
    files = real_tzdb()
    full = tzmodel.parse_source(files)
    argv = u.argv_for(scope, s, un, ','.join(langs), actions='zonedb',
                      more=MORE + ('--nostrict',))
    for lang in langs:
        argv[3] = lang
        res = runner.run_main(files, argv)
        out.transitions += 1
        if res.kind == 'exc' and any(
                all_rules_too_new(e, full.policies, s, un)
                for e in full.zones.values()):
            out.outcome('refused: all rules of a policy too new')
            continue
        if not res.ok:
            out.bad('real-refused', 'real TZDB %s: %s' % (argv,
                                                          res.exc or res.kind),
                    {'real': 1, 'scope': scope, 'start': s, 'until': un,
                     'lang': lang})
            continue
        db = mixed_decode(res.files, lang, scope)
        src = full if scope == 'complete' else tzmodel.truncate(
            full, *granularity(scope, lang))
        lo, hi = window(max(s, -2000), min(un, lim))
        for z in db.zones:
            out.states += 1
            out.traces += 1
            if z not in src.zones:
                out.bad('real-unknown', 'emitted zone %s is not in the source'
                        % z, {})
                continue
            a = tzmodel.timeline(src.zones[z], src.policies, lo, hi)
            b = tzmodel.timeline(db.zones[z], db.policies, lo, hi)
            d = tzmodel.diff(a, b)
            if d:
                out.bad('real-diff', '%s %s scope=%s years=[%d,%d): at %s '
                        'source %s, emitted %s' % (
                            lang, z, scope, s, un, tzmodel.fmt_utc(d[0]),
                            d[1], d[2]),
                        {'real': 1, 'scope': scope, 'start': s, 'until': un,
                         'lang': lang})
            else:
                out.outcome('real TZDB zone: same local time')
        if scope != 'basic' and set(db.zones) != set(src.zones):
            out.bad('real-missing', 'zones missing: %s' % sorted(
                set(src.zones) - set(db.zones))[:5],
                {'real': 1, 'scope': scope, 'start': s, 'until': un,
                 'lang': lang})
    return out


def zic_conformance(item):
    """The oracle against zic(8)."""
    from .. import zic
    from ..harness import Out
    out = Out()
    if item is None:
        text = '\n'.join(real_tzdb().values())
        src = tzmodel.parse_source({'africa': text})
        lo, hi = tzmodel.year_utc(1850), tzmodel.year_utc(2037)
        n = 'real'
    else:
        cases = []
        for i, c in item:
            if zic_ok(c):
                cases.append((i, c))
        text = ''.join(u.render(c, i) for i, c in cases)
        src = tzmodel.parse_source({'africa': text})
        lo, hi = window(u.S, u.U)
        n = 'universe'
    got, err = zic.compile_text(text)
    if got is None:
        # one input zic does not accept spoils a file: bisect
        if item and len(item) > 1:
            m = len(item) // 2
            out.merge(zic_conformance(item[:m]))
            out.merge(zic_conformance(item[m:]))
        else:
            out.add('zic_rejects')
        return out
    out.add('zic_zones_compared_' + n, len(src.zones))
    for z, d in zic.compare(src, got, lo, hi):
        out.add('zic_disagreements')
        out.sample('ORACLE DISAGREES WITH zic: %s %s' % (z, d))
    return out


def _span(r):
    f = r.split()
    a = int(f[0])
    return a, {'only': a, 'max': 32766}.get(f[1]) or int(f[1])


def zic_ok(c):
    """False for inputs on which zic is no oracle: policies whose rules share
    an instant, that have no standard-time rule, or whose standard-time rules
    all start after the first era of the zone ends (zic then picks an arbitrary
    initial type)."""
    ends = [tzmodel.parse_era(e.split()).until for e in c.eras[:-1]]
    if any(b[1] - a[1] < 2 for a, b in zip(ends, ends[1:])):
        return False        # an era shorter than its UTC offset
    used = {e.split()[1] for e in c.eras}
    for p, rs in c.rules.items():
        if p not in used:
            continue
        if not u.has_std(rs):
            return False
        for i, r in enumerate(rs):
            for q in rs[:i]:
                if r.split()[2:5] == q.split()[2:5] and \
                        _span(r)[0] <= _span(q)[1] and \
                        _span(q)[0] <= _span(r)[1]:
                    return False
        f = c.eras[0].split()
        if f[1] == p and len(f) > 3 and not any(
                int(r.split()[0]) < int(f[3]) and r.split()[5] == '0'
                for r in rs):
            return False
    return True


def small_cases():
    """Alphabet used with every window."""
    r = u.explore.subsets(u.rules_of(
        ['1990 1998', '1998 only', '1999 2001', '2000 max', '2003 only',
         '2004 2006'], u.WHEN3[:2], u.SAVES), 1, 2)
    cases = [u.wrap_policy(x, k) for x in r.states for k in (0, 1)]
    h, tr = u.era_universe(3, u.BODIES[:2] + u.BODIES[3:4],
                           ['1996', '1998', '1999 Jun 15 2:00', '2000',
                            '2001 Mar lastSun 1:00u', '2003', '2004 Dec 31 '
                            '24:00', '2006'])
    cases += [u.wrap_eras(x) for x in h]
    return cases, r.transitions + tr


def multi_policy_cases():
    """Thorough: zones of 2 and 3 eras that use two different policies, all
    pairs of one-/two-rule policies over a small alphabet."""
    alpha = u.rules_of(['1990 1998', '1999 2001', '2000 max', '2004 2005'],
                       u.WHEN3[:2], u.SAVES)
    one = u.explore.subsets(alpha, 1, 2)
    few = u.explore.subsets(alpha[:8:3] + alpha[9:], 1, 1)
    cases = []
    for p in one.states:
        for q in few.states:
            for un in ('1999 Jul 1 2:00', '2002 Oct lastSun 1:00u', '2004'):
                cases.append(u.Case({'P': p, 'Q': q},
                                    ('1:00 P P%sT ' + un, '2:00 Q Q%sT')))
    return cases, one.transitions + few.transitions


def crowded_cases(t):
    """Several rules of the latest year and month before the window, in every
    source order, and 0-1 rule after it."""
    days = ('5', '15', '25') if not t else ('5', '12', '19', '26')
    cases = []
    for order in itertools.permutations(days):
        for spans in itertools.product(
                ('1998 only', '1997 1998', '1990 1998')[:3 if not t else 2],
                repeat=len(days)):
            for sv in itertools.product(('0 S', '1:00 D', '0:30 H'),
                                        repeat=len(days)):
                if len(set(sv)) < 2:
                    continue
                rs = tuple('%s Oct %s 2:00 %s' % (a, d, v)
                           for a, d, v in zip(spans, order, sv))
                cases.append(u.Case({'P': rs}, ('1:00 P A%sT',)))
                if len(set(spans)) == 1:
                    cases.append(u.Case(
                        {'P': ('2001 max Mar lastSun 1:00u 1:00 E',) + rs},
                        ('-2:00 P B%sT',)))
    return cases


def new_year_cases(t):
    """Eras that end around New Year, and rules around it."""
    dates = ['1999 only Dec 25 2:00', '2000 2001 Dec 10 2:00',
             '2001 only Dec 5 2:00', '2001 only Dec 20 2:00',
             '2001 only Dec 31 23:00u', '2002 only Jan 1 0:00',
             '2002 only Jan 5 2:00', '2001 2002 Jan 20 2:00',
             '2003 only Dec 31 24:00']
    r = u.explore.subsets(['%s %s' % (d, s) for d in dates
                           for s in ('0 S', '1:00 D')], 1, 3 if t else 2)
    ends = ['2001 Dec 1', '2001 Dec 15 2:00', '2001 Dec 31 24:00',
            '2002 Jan 1 0:00u', '2002 Jan 1 5:00', '2002 Jan 10']
    shapes = []
    for e in ends:
        shapes += [('1:00 - L ' + e, '2:00 P A%sT'),
                   ('1:00 P A%sT ' + e, '2:00 P B%sT'),
                   ('1:00 P A%sT ' + e, '2:00 1:00 L')]
    for i, e in enumerate(ends):
        for f in ends[i + 1:]:
            if t or i % 2 == 0:
                shapes.append(('1:00 - L ' + e, '2:00 P A%sT ' + f,
                               '3:00 - M'))
    cases = []
    for x in r.states:
        if any(p.split()[:5] == q.split()[:5]
               for p, q in itertools.combinations(x, 2)):
            continue
        for h in shapes[::1 if len(x) < 3 else 3]:
            cases.append(u.Case({'P': (BASE,) + tuple(x)}, h))
    return cases, r.transitions


BASE = '1990 only Mar 1 0:00 0 Z'


def jobs(cases, scope, s, un, lang, size=800):
    num = list(enumerate(cases))
    return [(b, scope, s, un, lang) for b in u.explore.batches(num, size)]


def batch400(item):
    from ..harness import Out
    out = Out()
    cases = item[0]
    for b in u.explore.batches(cases, 400):
        out.merge(check_cases((b,) + item[1:]))
    return out


def close_cases(t):
    """Two rules whose order is decided by the resolved day or time of day.

    They sit before, in, or are the first of, the window, in both source
    orders; which of them is the later one fixes the state (SAVE and LETTER)
    at the start of the window.
    """
    in_month = ('Mar 10 2:00', 'Mar lastSun 2:00', 'Mar Sun>=8 2:00',
                'Mar Sun<=20 2:00', 'Mar 20 2:00')
    months = ('Mar 10 2:00', 'Mar lastSun 2:00', 'Mar Sun>=8 2:00',
              'Apr Sun<=1 2:00', 'Mar 10 5:00', 'Mar 10 3:00u',
              'Mar Sun>=29 2:00', 'Apr 1 0:00')
    border = ('Mar 30 2:00', 'Mar lastSun 2:00', 'Apr Sun<=1 2:00',
              'Mar Sun>=30 2:00', 'Apr 1 2:00', 'Apr 3 2:00')
    hours = ('Oct 31 25:00', 'Oct 31 24:30u', 'Nov 1 0:00', 'Nov 1 0:30s',
             'Nov 1 5:00u', 'Nov 2 0:30', 'Oct 30 23:00', 'Oct 31 2:00u')
    same = (('0 A', '0 B'),)
    other = (('0 A', '1:00 B'), ('1:00 A', '0 B'))
    out = []

    def fam(ons, years, saves, mores, offsets=('1:00',)):
        for y in years:
            for a, b in itertools.permutations(ons, 2):
                for x, z in saves:
                    two = ('%s %s %s' % (y, a, x), '%s %s %s' % (y, b, z))
                    for more in mores:
                        for off in offsets:
                            out.append(u.Case({'P': two + more},
                                              (off + ' P P%sT',)))

    first = ((), ('2002 only Jun 3 2:00 1:00 D',),
             ('2000 max Jan 5 2:00 1:00 D',))
    in_years = ('2001 only', '2002 max', '2005 only', '2010 only', '2010 max')
    fam(in_month, in_years, same + (other if t else ()), first)
    fam(months, in_years, same + (other if t else ()), first)
    before = ('1998 only', '1990 1998', '1997 only', '1999 only', '2005 only')
    fam(border, before, same + other,
        ((), ('2002 only Jun 3 2:00 1:00 D',),
         ('2000 max Oct 5 2:00 0 S', '1980 only Jan 5 0:00 0 K')))
    fam(hours, ('1998 only', '1990 1998', '1999 only'), other,
        (('1980 only Jan 5 0:00 0 K',),), ('-8:00', '1:00', '8:00'))
    if t:
        fam(('Dec 31 25:00', 'Dec 31 24:00u', 'Jan 1 0:00', 'Jan Sun>=1 0:00',
             'Dec lastSun 2:00', 'Dec Sun>=25 2:00'),
            ('1997 only', '1997 1998', '1998 only', '1999 only', '2001 only'),
            same + other, (('1980 only Jan 5 0:00 0 K',), ()),
            ('-8:00', '8:00'))
    return out


def check(ctx):
    t = ctx.thorough
    # A
    ps, tr = u.policy_universe(1 if t else 0)
    ctx.transitions += tr
    ca = [u.wrap_policy(p, k) for p in ps
          for k in ((0, 1, 2, 3) if len(p) < 3 or not t else (0, 2))]
    # B
    hist, tr = u.era_universe(3, u.BODIES, u.UNTILS)
    ctx.transitions += tr
    cb = [u.wrap_eras(h) for h in hist]
    ctx.notes['cases'] = {'A rule sets': len(ps), 'A cases': len(ca),
                          'B histories': len(cb)}
    ctx.pmap(batch400, jobs(ca, 'complete', u.S, u.U, 'python'), 'A')
    ctx.pmap(batch400, jobs(cb, 'complete', u.S, u.U, 'python'), 'B')
    # C
    cc, tr = small_cases()
    ctx.transitions += tr
    wins = [(s, e) for s in range(1997, 2006) for e in range(s + 1, 2007)] \
        if t else [(1999, 2000), (2000, 2001), (2001, 2006), (1998, 2003),
                   (2004, 2005)]
    ctx.notes['cases']['C cases'] = len(cc)
    ctx.notes['cases']['C windows'] = len(wins)
    items = []
    for s, e in wins:
        items += jobs(cc, 'complete', s, e, 'python')
    ctx.pmap(batch400, items, 'C')
    # D
    cd = ca[::1] if t else [u.wrap_policy(p, k) for p in ps if len(p) < 3
                            for k in (3,)][:4000]
    cd = list(cd) + cb[:4000 if not t else None]
    items = []
    for lang, scope in (('arduino', 'complete'), ('c', 'complete'),
                        ('go', 'complete'), ('arduino', 'extended'),
                        ('python', 'extended')):
        items += [(b, scope, u.S, u.U, lang) for b in u.explore.batches(
            list(enumerate(cd)), 120)]
    ctx.notes['cases']['D cases'] = len(cd)
    ctx.pmap(check_cases, items, 'D')
    # G
    cg = crowded_cases(t)
    cn, tr = new_year_cases(t)
    ctx.transitions += tr + len(cg)
    ctx.notes['cases'].update({'G crowded': len(cg), 'G new year': len(cn)})
    ctx.pmap(batch400, jobs(cg + cn, 'complete', u.S, u.U, 'python'), 'G')
    # H
    ch = close_cases(t)
    ctx.notes['cases']['H'] = len(ch)
    ctx.pmap(batch400, jobs(ch, 'complete', u.S, u.U, 'python'), 'H')
    # E
    langs = ('python', 'arduino', 'c', 'go')
    items = []
    if t:
        for s in range(1880, 2060, 3):
            for w in (1, 5, 40):
                items.append(('complete', s, s + w, ('python',), 2200))
        for s in range(1981, 2040, 6):
            for sc in ('complete', 'extended', 'basic'):
                items.append((sc, s, s + 20,
                              langs if sc == 'complete'
                              else ('arduino', 'python'), 2200))
        items.append(('complete', 1800, 10000, langs, 2100))
        items.append(('complete', -3000, 30000, ('python',), 2100))
    else:
        for s, e in ((1800, 2100), (1900, 1950), (1970, 2038), (1999, 2001),
                     (2018, 2022), (2000, 10000), (2024, 2025), (2050, 2060)):
            items.append(('complete', s, e, ('python',), 2100))
        items.append(('complete', 2000, 2050, langs, 2100))
        items.append(('extended', 2000, 2050, ('arduino', 'python'), 2100))
        items.append(('basic', 2000, 2050, ('arduino', 'python'), 2100))
    ctx.pmap(check_real, items, 'E')
    # F
    if ctx.left() > 30:
        from .. import zic
        if zic.available():
            items = [None]
            step = 1 if t else 7
            items += list(u.explore.batches(list(enumerate(
                (ca + cb)[::step] + ch[::1 if t else 3])), 250))
            ctx.pmap(zic_conformance, items, 'F')
        else:
            ctx.notes['zic'] = 'not installed'


def replay(p):
    if p.get('real'):
        o = check_real((p['scope'], p['start'], p['until'], (p['lang'],),
                        2100))
    else:
        c = u.Case({k: tuple(v) for k, v in p['rules'].items()},
                   tuple(p['eras']))
        o = check_cases(([(0, c)], p['scope'], p['start'], p['until'],
                         p['lang']))
    return [m for _, m, _ in o.viol]
