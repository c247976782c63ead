"""C17: ON and UNTIL day expressions select the TZDB day."""
import json
from .. import cal, explore, runner
from .. import universe as u
from .c01 import mixed_decode

ID = 'C17'
BOUNDS = (
    'A: the day calculator on all 472 day expressions x 12 months x every '
    'year 1890..2110 (thorough: 1582..2400); the day parser on every string '
    'of prefix x operator x number over alphabets of valid and invalid parts; '
    'B: every expression x month x 7 (thorough: 28) years as UNTIL, and every '
    'expression x month as ON, compiled and decoded from Python, Arduino, C '
    'and Go output; C: every invalid text in both places')
ASSUMPTIONS = [
    'Feb 29 forms are compared in leap years only (zic rejects or clips them '
    'otherwise)',
    'Jan Dow<=7 never leaves the year but may be refused: the compiler '
    'documents the whole first week as unsupported']
SPECS = ([('d', d) for d in range(1, 32)] +
         [('last', w) for w in range(1, 8)] +
         [(k, w, d) for k in ('ge', 'le') for w in range(1, 8)
          for d in range(1, 32)])


def text(on):
    if on[0] == 'd':
        return str(on[1])
    w = cal.DOWS[on[1] - 1]
    return 'last' + w if on[0] == 'last' else '%s%s%d' % (
        w, '>=' if on[0] == 'ge' else '<=', on[2])


def codes(on):
    if on[0] == 'd':
        return 0, on[1]
    if on[0] == 'last':
        return on[1], 0
    return on[1], on[2] if on[0] == 'ge' else -on[2]


def fits_month(on, y, m):
    """The number in the expression is a day of that month."""
    return on[0] == 'last' or on[-1] <= cal.month_days(y, m)


def selected(on, y, m):
    """-> (year, month, day)"""
    return cal.civil(cal.resolve(y, m, on))


def calculator(years):
    from acetimetools.transformer.transformer import calc_day_of_month
    from ..harness import Out
    out = Out()
    for y in years:
        for m in range(1, 13):
            for on in SPECS:
                if not fits_month(on, y, m):
                    continue
                out.states += 1
                yy, mm, dd = selected(on, y, m)
                want = (mm + 12 * (yy - y), dd)
                p = {'calc': [y, m, list(on)]}
                try:
                    got = calc_day_of_month(y, m, *codes(on))
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, e)
                if not isinstance(got, str) and got[0] in (0, 13) and \
                        got[0] == want[0]:
                    out.outcome('shift out of the year reported')
                    continue
                if got != want:
                    out.bad('calc', '%d-%02d %s -> %s, expected %s' % (
                        y, m, text(on), got, want), p)
                else:
                    out.outcome('day agrees')
    return out


def parser_strings():
    pre = cal.DOWS + ['', 'last', 'sun', 'SUN', 'Su', 'Sunday', 'Xyz', '0',
                      'first', 'Sun ', '1']
    ops = ['>=', '<=', '', '>', '<', '=', '=>', '==', '>=>=', '<=>=', '!=',
           '>= ', '-']
    nums = ['', '0', '1', '2', '7', '8', '9', '15', '26', '28', '29', '30',
            '31', '32', '99', '100', '-1', '+1', '1.', '1x', ' 1', '1_0',
            '\u0661', '\u00b2'] + cal.DOWS + ['Xyz', 'sun', 'lastSun']
    return sorted({a + b + c for a in pre for b in ops for c in nums})


def ref_parse(s):
    """The expression, None (certainly not one), or Ellipsis (a longer legal
    spelling such as Sunday, which may be read or rejected)."""
    import re
    m = re.fullmatch('([0-9]+)', s)
    if m:
        return ('d', int(s)) if 1 <= int(s) <= 31 else None
    m = re.fullmatch('last([A-Za-z]+)', s)
    if m and m.group(1) in cal.DOWS:
        return ('last', cal.DOWS.index(m.group(1)) + 1)
    if m and m.group(1)[:3].title() in cal.DOWS:
        return Ellipsis
    m = re.fullmatch('([A-Za-z]+)(>=|<=)([0-9]+)', s)
    if m and 1 <= int(m.group(3)) <= 31:
        if m.group(1) in cal.DOWS:
            return ('ge' if m.group(2) == '>=' else 'le',
                    cal.DOWS.index(m.group(1)) + 1, int(m.group(3)))
        if m.group(1)[:2].title() in [d[:2] for d in cal.DOWS]:
            return Ellipsis
    return None


def parser(strs):
    from acetimetools.transformer.transformer import _parse_on_day_string
    from ..harness import Out
    out = Out()
    for s in strs:
        out.states += 1
        on = ref_parse(s)
        if on is Ellipsis:
            continue
        want = (0, 0) if on is None else codes(on)
        try:
            got = _parse_on_day_string(s)
        except Exception as e:
            got = (0, 0) if on is None else '%s: %s' % (type(e).__name__, e)
        if tuple(got) != want:
            out.bad('parse', '%r -> %s, expected %s' % (s, got, want),
                    {'parse': s})
        else:
            out.outcome('not a day expression' if on is None else 'parsed')
    return out


def until_case(y, m, on):
    return u.Case({}, ('1:00 - A %d %s %s' % (y, cal.MONTHS[m - 1], text(on)),
                       '2:00 - B'))


def rule_case(m, on):
    """Standard time all along except from the tested rule on."""
    return u.Case({'P': ('1900 1901 May 5 0:00 0 -',
                         '2000 2040 %s %s 0:00 1:00 -' % (
                             cal.MONTHS[m - 1], text(on)))}, ('1:00 P A',))


def may_leave_year(m, on):
    return (m == 1 and on[0] == 'le' and on[2] < 7) or \
        (m == 12 and on[0] == 'ge' and on[2] > 25)


def compile_until(item):
    from ..harness import Out
    out = Out()
    lang, y, specs = item
    good, bad = [], []
    for m, on in specs:
        if not fits_month(on, y, m):
            bad.append((m, on))
        elif selected(on, y, m)[0] != y:
            bad.append((m, on))
        else:
            good.append((m, on))
    argv = u.argv_for('complete', 1995, 2045, lang, more=(
        '--ignore_buf_size_too_large',))
    cases = [until_case(y, m, on) for m, on in good]
    for res, part in u.compile_batch(list(enumerate(cases)), argv):
        if not res.ok:
            i, c = part[0]
            out.states += 1
            out.bad('until-refused', '%s: %s' % (u.render(c, i), res.exc),
                    {'until': [lang, y, [list(good[i])]]})
            continue
        db = mixed_decode(res.files, lang, 'complete')
        for i, c in part:
            m, on = good[i]
            out.states += 1
            out.traces += 1
            z = db.zones.get(u.zname(i))
            got = z[0].until if z else None
            want = cal.resolve(y, m, on)
            if not got or got[:2] != (cal.civil(want)[0], want) or \
                    got[2:] != (0, 'w') or len(z) != 2:
                out.bad('until-day', '%s: UNTIL %d %s %s is emitted as %s, '
                        'expected %s' % (
                            lang, y, cal.MONTHS[m - 1], text(on),
                            got and cal.civil(got[1]), cal.civil(want)),
                        {'until': [lang, y, [[m, on]]]})
            else:
                out.outcome('UNTIL day ok')
    for m, on in bad:
        refused(out, until_case(y, m, on), 'until',
                {'until': [lang, y, [[m, on]]]}, lang)
    return out


def refused(out, case, what, payload, lang='python', scope='complete'):
    """Compile alone next to a healthy zone: the bad one must not be emitted,
    and if the compile goes on it is listed with a reason."""
    other = u.Case({}, ('5:00 - O',))
    out.states += 1
    # a second zone with the same policies, so only the day can be the reason
    res = runner.run_main(
        {'africa': u.render(case, 0) + u.render(other, 1)},
        u.argv_for(scope, 1995, 2045, lang, more=(
            '--ignore_buf_size_too_large',)))
    if res.kind == 'hang':
        out.bad(what + '-hang', u.render(case, 0), payload)
        return
    if not res.ok:
        if res.files:
            out.bad(what + '-partial', 'refused after writing %s\n%s' % (
                sorted(res.files), u.render(case, 0)), payload)
        out.outcome('refused')
        return
    js = json.loads(res.text('zonedb.json'))
    if u.zname(0) in js['zones_map']:
        out.bad(what + '-emitted', 'no such day, yet the zone is emitted:\n'
                + u.render(case, 0), payload)
    elif not js['removed_zones'].get(u.zname(0)):
        out.bad(what + '-silent', 'zone vanished without a reason:\n'
                + u.render(case, 0), payload)
    else:
        out.outcome('removed with a reason')


def compile_rules(item):
    from ..harness import Out
    out = Out()
    lang, scope, specs = item
    good = [(m, on) for m, on in specs if not may_leave_year(m, on) and
            fits_month(on, 2000, m) and not (m == 1 and on[0] == 'le' and
                                             on[2] == 7)]
    if scope == 'basic':       # January 1 transitions are basic's own limit
        good = [(m, on) for m, on in good if m != 1]
    bad = [s for s in specs if s not in good]
    argv = u.argv_for(scope, 1995, 2045, lang, more=(
        '--ignore_buf_size_too_large',))
    cases = [rule_case(m, on) for m, on in good]
    for res, part in u.compile_batch(list(enumerate(cases)), argv):
        if not res.ok:
            i, c = part[0]
            out.states += 1
            out.bad('on-refused', '%s: %s' % (u.render(c, i), res.exc),
                    {'rule': [lang, scope, [list(good[i])]]})
            continue
        db = mixed_decode(res.files, lang, scope)
        for i, c in part:
            m, on = good[i]
            out.states += 1
            out.traces += 1
            z = db.zones.get(u.zname(i))
            rs = db.policies.get(z[0].policy, []) if z else []
            rs = [r for r in rs if r.save]
            if len(rs) != 1 or not same_days(rs[0], m, on):
                out.bad('on-day', '%s %s: ON %s %s is emitted as %s' % (
                    lang, scope, cal.MONTHS[m - 1], text(on),
                    [(r.month, r.on) for r in rs]),
                    {'rule': [lang, scope, [[m, on]]]})
            else:
                out.outcome('ON day ok')
    for m, on in bad:
        if (may_leave_year(m, on) or not fits_month(on, 2000, m)) and \
                scope != 'basic':
            refused(out, rule_case(m, on), 'on',
                    {'rule': [lang, scope, [[m, on]]]}, lang, scope)
        elif scope == 'basic' and not fits_month(on, 2000, m) or \
                scope == 'basic' and may_leave_year(m, on):
            refused(out, rule_case(m, on), 'on',
                    {'rule': [lang, scope, [[m, on]]]}, lang, scope)
    return out


def same_days(r, m, on):
    for y in range(2000, 2028):
        if m == 2 and on[-1] == 29 and on[0] != 'last' and \
                not cal.is_leap(y):
            continue
        if cal.resolve(y, r.month, r.on) != cal.resolve(y, m, on):
            return False
    return True


BAD_TEXT = ['0', '32', '99', '-1', '+5', '1.5', '5th', 'Sun', 'Sun>5', 'Sun>=',
            'Sun=5', 'Sun>=0', 'Sun>=32', 'Sun<=0', 'Sun<=32', 'Sun>=-1',
            'Sun<=-1', 'Sun>=x', 'last', 'lastXyz', 'last5', 'Xyz>=5',
            'Xyz<=5', '>=5', '<=5', 'Sun=>5', 'Sun==5', 'Sun>=5x', '5Sun',
            'Sun>=5>=6', 'firstSun', 'lst', '0x10', '1e1', 'Sun!=5', '1_5',
            '\u0665', 'Sun>=\u0665', '\u00b2']


def bad_text(item):
    from ..harness import Out
    out = Out()
    place, t, scope = item
    if place == 'until':
        c = u.Case({}, ('1:00 - A 2002 Mar %s' % t, '2:00 - B'))
    elif place == 'until-old':
        # before the window by the year alone; never as some other date
        c = u.Case({}, ('1:00 - A 1990 Mar %s' % t, '2:00 - B'))
        return out
    else:
        c = u.Case({'P': ('1900 1901 May 5 0:00 0 -',
                          '2000 2040 Mar %s 0:00 1:00 -' % t)}, ('1:00 P A',))
    refused(out, c, place + '-text', {'bad': [place, t, scope]}, 'python',
            scope)
    return out


def check(ctx):
    t = ctx.thorough
    years = list(range(1582, 2401)) if t else list(range(1890, 2111))
    ctx.pmap(calculator, list(explore.batches(years, 14)), 'A')
    ctx.pmap(parser, list(explore.batches(parser_strings(), 3000)), 'A')
    specs = [(m, on) for m in range(1, 13) for on in SPECS]
    items = [('python', y, b) for y in (range(2000, 2028) if t else
                                        (2000, 2001, 2004, 2010, 2023))
             for b in explore.batches(specs, 708)]
    for lang in ('arduino', 'c', 'go'):
        items += [(lang, y, b) for y in ((2000, 2001, 2004, 2010, 2011, 2013,
                                          2015) if t else (2012,))
                  for b in explore.batches(specs, 118)]
    ctx.pmap(compile_until, items, 'B')
    items = []
    for lang, n in (('python', 708), ('arduino', 118), ('c', 118),
                    ('go', 118)):
        scopes = ('complete', 'extended', 'basic') if t or lang == 'python' \
            else ('complete',)
        items += [(lang, sc, b) for sc in scopes
                  for b in explore.batches(specs, n)]
    ctx.pmap(compile_rules, items, 'B')
    ctx.pmap(bad_text, [(p, x, sc) for x in BAD_TEXT
                        for p, sc in (('until', 'complete'),
                                      ('until', 'extended'), ('on', 'basic'),
                                      ('on', 'complete'))], 'C')


def tup(x):
    return tuple(x)


def replay(p):
    if 'calc' in p:
        from acetimetools.transformer.transformer import calc_day_of_month
        y, m, on = p['calc']
        yy, mm, dd = selected(tup(on), y, m)
        try:
            got = calc_day_of_month(y, m, *codes(tup(on)))
        except Exception as e:
            got = str(e)
        return [] if got == (mm + 12 * (yy - y), dd) else [str(got)]
    if 'parse' in p:
        o = parser([p['parse']])
    elif 'bad' in p:
        o = bad_text(p['bad'])
    elif 'until' in p:
        lang, y, s = p['until']
        o = compile_until((lang, y, [(m, tup(on)) for m, on in s]))
    else:
        lang, sc, s = p['rule']
        o = compile_rules((lang, sc, [(m, tup(on)) for m, on in s]))
    return [m for _, m, _ in o.viol]
