"""C14: basic scope keeps exactly the zones its processor supports."""
import itertools
import json
from .. import cal, explore, retain, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c01 import mixed_decode

ID = 'C14'
BOUNDS = (
    'A: every rule set of <=2 (thorough: <=3) rules over 12 year spans x 16 '
    'dates; B: every zone history of <=3 eras over 6 bodies x 14 UNTIL forms '
    'inside, at the edge of and outside the window; C: zones of two eras over '
    'every pair of 8 policies x 5 UNTIL years; each with a link, over several '
    'windows (thorough: all [s,u) with 1996<=s<u<=2007); D: the real TZDB')
ASSUMPTIONS = [
    'a rule on January Dow>=1, January Dow<=n (n < 8) or December Dow>=n '
    '(n > 25) is judged only when it falls on January 1 or leaves its year in '
    'a year of the rule (the compiler excludes it in any case)',
    'the rules that belong to a window are those overlapping [s-1, u+1) and '
    'the latest earlier month with rules (by the day ON selects; the end of '
    'the month before it too if the latest is on the first two days)']
MORE = ('--ignore_buf_size_too_large',)
GOOD = 'Zone\tA/Good\t1:00\t-\tGGG\nLink\tA/Good\tA/GoodLink\n'
SPANS = ['1990 1994', '1994 only', '1998 1999', '1999 only', '1990 max',
         '2000 2001', '2001 max', '2003 only', '2004 only', '2005 only',
         '2005 max', '1995 2001']
WHENS = ['Mar lastSun 1:00u', 'Mar 1 0:00', 'Mar Sun>=8 2:00s',
         'Oct lastSun 1:00u', 'Jan 1 0:00', 'Jan 1 2:00u', 'Jan 2 0:00',
         'Dec 31 24:00', 'Jan lastSun 2:00', 'Dec 1 0:00',
         'Jan Sun>=1 2:00', 'Jan Sun<=5 2:00', 'Jan Fri<=7 2:00',
         'Jan Sat<=9 2:00s', 'Dec Sun>=25 2:00', 'Dec Sun>=28 2:00']


def verdict(eras, policies, s, un):
    """Reason for exclusion, None if supported, Ellipsis if not judged."""
    idx, _, _ = retain.kept_eras(eras, s, un)
    kept = [eras[i] for i in idx]
    open_ = False
    for n, e in enumerate(kept):
        if n < len(kept) - 1:
            if e.until[1:] != (cal.days(e.until[0], 1, 1), 0, 'w'):
                return 'UNTIL'
        if e.save:
            return 'fixed'
        if e.policy is None:
            continue
        if e.policy not in policies:
            return 'policy'
        rules = policies[e.policy]
        ki, _, _ = retain.kept_rules(rules, s, un)
        rs = [rules[i] for i in ki]
        if not rs:
            return 'no rule'
        if len(rs) == 1 and rs[0].save == 0:
            # constant: no transition at all
            open_ = open_ or borders(rs[0])
            continue
        for a, b in itertools.combinations(rs, 2):
            if a.month == b.month and a.frm <= b.to and b.frm <= a.to:
                return 'month'
        for r in rs:
            if r.month == 1:
                if r.on == ('d', 1):
                    return 'jan1'
                if borders(r):
                    if any(cal.resolve(y, 1, r.on) <= cal.days(y, 1, 1)
                           for y in some_years(r)):
                        return 'jan1'
                    open_ = True
            elif borders(r):
                if any(cal.resolve(y, 12, r.on) > cal.days(y, 12, 31)
                       for y in some_years(r)):
                    return 'next year'
                open_ = True
    return Ellipsis if open_ else None


def borders(r):
    """May the day of r leave its year, or be January 1?"""
    return (r.month == 1 and (r.on[0] == 'ge' and r.on[2] == 1 or
                              r.on[0] == 'le' and r.on[2] <= 7) or
            r.month == 12 and r.on[0] == 'ge' and r.on[2] > 25)


def some_years(r):
    return range(r.frm, min(r.to, r.frm + 12) + 1)


def has_long_until(case, s, un):
    """An UNTIL in the window (not of the last kept era) written with month,
    day or time, even if it means January 1 0:00."""
    src = [tzmodel.parse_era(e.split()) for e in case.eras]
    idx, _, _ = retain.kept_eras(src, s, un)
    return any(len(case.eras[i].split()) > 4 for i in idx[:-1])


def batch(item):
    from ..harness import Out
    out = Out()
    cs, s, un, lang = item
    argv = u.argv_for('basic', s, un, lang, more=MORE)
    links = {}
    for res, part in u.compile_batch(cs, argv, prefix=GOOD, extra=''.join(
            'Link\t%s\tL/C%d\n' % (u.zname(i), i) for i, _ in cs)):
        if not res.ok:
            i, c = part[0]
            out.states += 1
            out.bad('refused', 'basic compile refused: %s\n%s' % (
                res.exc, u.render(c, i)), pay(c, s, un, lang))
            continue
        db = mixed_decode(res.files, lang, 'basic')
        j = json.loads(res.files['zonedb.json'])
        for i, c in part:
            judge(i, c, s, un, lang, db, j, out)
    return out


def pay(c, s, un, lang):
    return {'rules': c.rules, 'eras': c.eras, 's': s, 'u': un, 'lang': lang}


def judge(i, c, s, un, lang, db, j, out):
    out.states += 1
    out.traces += 1
    src = u.source(c, i)
    z, l = u.zname(i), 'L/C%d' % i
    why = verdict(src.zones[z], src.policies, s, un)
    if why is None and has_long_until(c, s, un):
        why = 'UNTIL'
    where = '%s [%d,%d)\n%s' % (lang, s, un, u.render(c, i))
    p = pay(c, s, un, lang)
    if why is Ellipsis:
        out.outcome('not judged')
        why = None if z in db.zones else 'x'
    else:
        out.outcome('excluded: ' + why if why else 'emitted')
    if (z in db.zones) != (why is None):
        out.bad('emitted:%s' % why, 'zone is %semitted, expected: %s (%s) %s' %
                ('' if z in db.zones else 'not ', why or 'supported',
                 j['removed_zones'].get(z), where), p)
    if (l in db.links) != (z in db.zones):
        out.bad('link', 'link does not follow its zone: %s' % where, p)
    if z not in db.zones:
        if not j['removed_zones'].get(z) or (z in j['zones_map']):
            out.bad('reason', 'no reason for the exclusion: %s' % where, p)
        if not j['removed_links'].get(l):
            out.bad('link-reason', 'no reason for the excluded link: %s' %
                    where, p)
    elif z in j['removed_zones'] or l in j['removed_links']:
        out.bad('reason', 'emitted and listed as removed: %s' % where, p)


def real(item):
    from ..harness import Out
    out = Out()
    s, un = item
    files = real_tzdb()
    src = tzmodel.parse_source(files)
    raw = {}
    for t in files.values():
        cur = None
        for line in tzmodel.logical_lines(t):
            k = line.split()
            if line.startswith('Zone'):
                cur = raw.setdefault(k[1], [])
                cur.append(k[2:])
            elif line[0] == '\t' and cur is not None:
                cur.append(k)
    res = runner.run_main(files, u.argv_for('basic', s, un, 'python',
                                            more=MORE + ('--nostrict',)))
    if not res.ok:
        out.bad('refused', 'real: %s' % res.exc, {'real': list(item)})
        return out
    db = mixed_decode(res.files, 'python', 'basic')
    j = json.loads(res.files['zonedb.json'])
    for z, eras in src.zones.items():
        out.states += 1
        out.traces += 1
        why = verdict(eras, src.policies, s, un)
        if why is None:
            idx, _, _ = retain.kept_eras(eras, s, un)
            if any(len(raw[z][i]) > 4 for i in idx[:-1]):
                why = 'UNTIL'
        if why is Ellipsis:
            continue
        if (z in db.zones) != (why is None):
            out.bad('real', 'real zone %s [%d,%d): %semitted, expected %s '
                    '(%s)' % (z, s, un, '' if z in db.zones else 'not ', why,
                              j['removed_zones'].get(z)),
                    {'real': list(item)})
        else:
            out.outcome('real TZDB zone ' + ('excluded' if why else
                                             'emitted'))
    for l, t in src.links.items():
        if (l in db.links) != (t in db.zones):
            out.bad('real-link', 'real link %s' % l, {'real': list(item)})
    return out


def check(ctx):
    t = ctx.thorough
    alpha = u.rules_of(SPANS, WHENS, ['1:00 D'])
    r = explore.subsets(alpha, 1, 2)
    ctx.transitions += r.transitions
    ca = [u.Case({'P': x}, ('1:00 P A%sT',)) for x in r.states]
    one = u.rules_of(SPANS, WHENS, ['0 S'])
    ca = [u.Case({'P': (x,)}, ('1:00 P A%sT',)) for x in one] + ca
    ca += [u.Case({'P': (x, y)}, ('1:00 P A%sT',)) for x in one[::7]
           for y in alpha[::5]]
    small = u.rules_of(['1990 1994', '1998 1999', '2000 max', '2003 only',
                        '2004 only', '2005 max'],
                       ['Mar lastSun 1:00u', 'Mar 1 0:00', 'Oct 1 0:00',
                        'Jan 1 0:00'], ['1:00 D'])
    r3 = explore.subsets(small, 3, 3)
    ctx.transitions += r3.transitions
    c3 = [u.Case({'P': x}, ('1:00 P A%sT',)) for x in r3.states]
    untils = ['1996', '1996 Jul', '1999', '1999 Jan 1', '1999 Jul 1 2:00',
              '2001', '2001 Jan', '2001 Jan 1', '2001 Jan 1 0:00',
              '2002 Jan 1 0:00u', '2002 Mar', '2004', '2005',
              '2006', '2006 Jun 3', '2007']
    bodies = ['1:00 - A', '2:00 1:00 B', '2:00 P B%sT', '3:00 Q C%sT']
    hist, tr = u.era_universe(3, bodies, untils)
    ctx.transitions += tr
    q = ('1985 1994 Apr 1 2:00 1:00 D', '1985 1994 Apr 20 2:00 0 S',
         '2003 max May 1 0:00s 1:00 D', '2003 max Sep Fri<=30 0:00 0 S')
    pp = ('1990 max Mar lastSun 1:00u 1:00 D', '1990 max Oct Sun>=1 2:00 0 S')
    cb = []
    for h in hist:
        used = {x.split()[1] for x in h}
        cb.append(u.Case({k: v for k, v in (('P', pp), ('Q', q))
                          if k in used}, tuple(h)))
    pols = [pp, q,
            ('1990 max Jan 1 0:00 1:00 D', '1990 max Jun 1 0:00 0 S'),
            ('1990 1997 Jan 1 0:00 1:00 D', '1999 max Jun 1 0:00 0 S'),
            ('1990 1997 Mar 1 0:00 1:00 D', '1990 1997 Mar 9 0:00 0 S'),
            ('2003 only Mar 1 0:00 1:00 D', '2003 only Mar 9 0:00 0 S',
             '1990 1991 Jul 1 0:00 0 S'),
            ('2009 max Mar 1 0:00 1:00 D', '2009 max Oct 1 0:00 0 S'),
            ('1990 max Feb 1 0:00 1:00 D', '1995 max Feb 1 0:00 0 S')]
    cc = [u.Case({'P': a, 'Q': b}, ('1:00 P A%s ' + y, '2:00 Q B%s'))
          for a in pols for b in pols
          for y in ('1995', '1999', '2002', '2005', '2006', '2008')]
    ctx.notes['cases'] = {'A': len(ca) + len(c3), 'B': len(cb), 'C': len(cc)}
    wins = [(s, e) for s in range(1996, 2007) for e in range(s + 1, 2008)] \
        if t else [(2000, 2004), (1997, 1999), (2001, 2002), (2004, 2006)]
    items = []
    for k, (s, e) in enumerate(wins):
        if t:
            ab = (ca + c3) if (s + e) % 5 == 0 else ca[k % 8::8] + c3[k % 8::8]
            bb = cb if (s + e) % 5 == 0 else cb[k % 8::8]
        else:
            ab = ca + c3[::2] if k == 0 else ca[k::9]
            bb = cb[::1] if k == 0 else cb[k::9]
        num = list(enumerate(ab + bb + cc))
        items += [(b, s, e, 'python') for b in explore.batches(num, 400)]
        if t or k == 0:
            for lg in ('arduino', 'c'):
                items += [(b, s, e, lg)
                          for b in explore.batches(num[::11], 120)]
    ctx.pmap(batch, items, 'A-C')
    ctx.pmap(real, [(s, s + n) for s in range(1981, 2060, 3 if t else 20)
                    for n in (1, 5, 50)], 'D')


def replay(p):
    if 'real' in p:
        o = real(tuple(p['real']))
    else:
        c = u.Case(p['rules'], tuple(p['eras']))
        o = batch(([(0, c)], p['s'], p['u'], p['lang']))
    return [m for _, m, _ in o.viol]
