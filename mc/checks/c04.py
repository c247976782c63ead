"""C04: every emitted database is structurally sound."""
import itertools
import json
from .. import cal, decode_c, explore, mix, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c01 import mixed_decode
from .c03 import source_text, link_sets

ID = 'C04'
BOUNDS = (
    'A: every database of <=2 (thorough: <=3) zones out of 25 zone kinds with '
    'links, in every scope and language; B: the rule-set and zone-history '
    'universes of C01 (<=2..3 rules, <=3 eras) in every scope; C: every pair '
    'of UNTIL values in a three-era zone; D: the real TZDB over windows, '
    'scopes and languages; E: every pair of 14 UNTIL values seconds '
    'to hours apart under 8 granularities, and eras at the ends of the range '
    'of the tiny years')
ASSUMPTIONS = []
MORE = ('--ignore_buf_size_too_large',)


def sound(db, lang, scope, out, p, where=''):
    """Structural soundness of one decoded database."""
    bad = []
    used = set()
    for z, eras in db.zones.items():
        if not eras:
            bad.append(('no-era', '%s has no era' % z))
            continue
        prev = None
        for i, e in enumerate(eras):
            last = i == len(eras) - 1
            if (e.until is None) != last:
                bad.append(('final', '%s era %d of %d has UNTIL %s' % (
                    z, i + 1, len(eras), e.until)))
                break
            if e.until is not None:
                key = (e.until[1], e.until[2])
                y, m, d = cal.civil(e.until[1])
                if y != e.until[0]:
                    bad.append(('until', '%s UNTIL %s is not in year %d' % (
                        z, (y, m, d), e.until[0])))
                if not 0 <= e.until[2] <= 25 * 3600 or \
                        e.until[3] not in ('w', 's', 'u'):
                    bad.append(('until', '%s UNTIL time %s' % (z, e.until)))
                if prev is not None and key <= prev:
                    bad.append(('increasing', '%s UNTIL %s after %s' % (
                        z, key, prev)))
                prev = key
            if e.policy is not None:
                used.add(e.policy)
                if e.policy not in db.policies:
                    bad.append(('dangling', '%s uses missing policy %s' % (
                        z, e.policy)))
                if e.save:
                    bad.append(('both', '%s has a policy and a fixed save' %
                                z))
    for n, rules in db.policies.items():
        anchors = [i for i, r in enumerate(rules)
                   if r.frm <= -32767]
        if lang in ('arduino', 'c') and scope != 'complete':
            anchors = anchors[:1]   # other rules may saturate (C16)
        if anchors != [0] or rules[0].to > -32767 or rules[0].save != 0:
            bad.append(('anchor', 'policy %s: anchor rules %s of %d, first %s'
                        % (n, anchors, len(rules), rules[:1])))
        for r in rules:
            if r.frm > r.to:
                bad.append(('years', 'policy %s: %s' % (n, r)))
            if not 0 <= r.at <= 25 * 3600 or r.suf not in ('w', 's', 'u'):
                bad.append(('at', 'policy %s: %s' % (n, r)))
            if r.on[0] == 'd' and not 1 <= r.on[1] <= 31:
                bad.append(('on', 'policy %s: %s' % (n, r)))
        if n not in used:
            bad.append(('unused', 'policy %s is emitted but not used' % n))
    for l, t in db.links.items():
        if t not in db.zones:
            bad.append(('link', 'link %s leads to missing zone %s' % (l, t)))
        if l in db.zones:
            bad.append(('link', '%s is a zone and a link' % l))
    for k, m in bad:
        out.bad(k, '%s %s: %s\n%s' % (lang, scope, m, where), p)
    if not bad:
        out.outcome('sound: %s' % ('zones with policies' if db.policies
                                   else 'fixed zones'))


def json_db(text):
    """The JSON as a Db (strings already converted by the compiler)."""
    j = json.loads(text)
    pol = {}
    for n, pl in j['policies_map'].items():
        pol[n] = [tzmodel.Rule(
            r['from_year'], r['to_year'], r['in_month'], cal.on_from_codes(
                r['on_day_of_week'], r['on_day_of_month']),
            r['at_seconds_truncated'], r['at_time_suffix'],
            r['delta_seconds_truncated'], r['letter'])
            for r in pl['rules']]
    zones = {}
    for n, z in j['zones_map'].items():
        es = []
        for e in z['eras']:
            un = None
            if e['until_year'] != 32767:
                un = (e['until_year'], cal.days(
                    e['until_year'], e['until_month'], e['until_day']),
                    e['until_seconds_truncated'], e['until_time_suffix'])
            r = e['rules']
            es.append(tzmodel.Era(
                e['offset_seconds_truncated'],
                None if r == '-' or ':' in r else r,
                e['era_delta_seconds_truncated'], e['format'], un))
        zones[n] = es
    return tzmodel.Db(zones, pol, j['links_map'])


def one(item, out):
    kinds, links, scope, lang, strict, win = item
    p = {'mix': list(item)}
    t = source_text(kinds, links, True)
    res = runner.run_main({'africa': t}, u.argv_for(
        scope, win[0], win[1], lang, more=MORE + (
            '--strict' if strict else '--nostrict',)))
    out.states += 1
    if not res.ok:
        out.outcome('refused')
        return
    out.traces += 1
    sound(mixed_decode(res.files, lang, scope), lang, scope, out, p, t)
    sound(json_db(res.text('zonedb.json')), 'json', scope, out, p, t)


def mixes(items):
    from ..harness import Out
    out = Out()
    for x in items:
        one(x, out)
    return out


def opened(files, lang, scope, more):
    """decode with the base year of the run (the C files do not have it)"""
    if lang == 'c' and '--tiny_base_year' in more:
        return decode_c.decode(files, lang, scope, int(
            more[more.index('--tiny_base_year') + 1])).db
    return mixed_decode(files, lang, scope)


def cases(item):
    from ..harness import Out
    out = Out()
    cs, scope, s, e, lang = item[:5]
    more = tuple(item[5]) if len(item) > 5 else ()
    argv = u.argv_for(scope, s, e, lang, actions='zonedb', more=MORE + (
        '--nostrict',) + more)
    for res, part in u.compile_batch(cs, argv):
        out.states += len(part)
        p = {'cases': [[c.rules, c.eras] for _, c in part[:1]],
             'scope': scope, 's': s, 'e': e, 'lang': lang,
             'more': list(more)}
        if not res.ok:
            out.outcome('refused')
            continue
        out.traces += len(part)
        db = opened(res.files, lang, scope, more)
        for i, c in part:
            y = [int((e.split() + ['9999'])[3]) for e in c.eras]
            if y != sorted(y):
                if u.zname(i) in db.zones:
                    out.bad('decreasing', '%s %s: emitted though UNTIL '
                            'decreases\n%s' % (lang, scope, u.render(c, i)), {
                                'cases': [[c.rules, c.eras]],
                                'scope': scope, 's': s, 'e': e, 'lang': lang,
                                'more': list(more)})
                else:
                    out.outcome('decreasing UNTIL years: not emitted')
        # judge zone by zone so that a violation has a small witness
        n0 = len(out.viol)
        sound(db, lang, scope, out, p)
        if len(out.viol) > n0 and len(part) > 1:
            del out.viol[n0:]
            for i, c in part:
                for r2, _ in u.compile_batch([(i, c)], argv):
                    if r2.ok:
                        sound(opened(r2.files, lang, scope, more), lang,
                              scope, out, {
                                  'cases': [[c.rules, c.eras]],
                                  'scope': scope, 's': s, 'e': e,
                                  'lang': lang, 'more': list(more)},
                              u.render(c, i))
    return out


def real(item):
    from ..harness import Out
    out = Out()
    scope, s, e, lang = item
    res = runner.run_main(real_tzdb(), u.argv_for(
        scope, s, e, lang, more=MORE + ('--nostrict',)))
    out.states += 1
    if not res.ok:
        out.outcome('refused')
        return out
    out.traces += 1
    sound(mixed_decode(res.files, lang, scope), lang, scope, out,
          {'real': list(item)})
    sound(json_db(res.text('zonedb.json')), 'json', scope, out,
          {'real': list(item)})
    return out


UN = ['1999', '2000', '2000 Jan 1 0:01', '2000 Jan 2', '2000 Feb lastSun',
      '2000 Feb 27', '2000 Feb 28', '2000 Mar Sun<=5 2:00', '2001',
      '2000 Dec 31 24:00', '2000 Dec 31 25:00', '2001 Jan 1 1:00u', '2002',
      '2000 Jun', '2000 May 31 24:00', '2000 Jul Sun>=30', '2000 Aug 1']


def until_cases():
    for a in UN:
        for b in UN:
            for body in ('- A', 'P A%s'):
                yield u.Case({'P': u.P_RULES} if 'P' in body else {}, (
                    '1:00 ' + body + ' ' + a, '2:00 - B ' + b, '3:00 - C'))


CLOSE = ['2000 Dec 31 23:59:59', '2001', '2001 Jan 1 0:00:01',
         '2001 Jan 1 0:00:30', '2001 Jan 1 0:00:30u', '2001 Jan 1 0:01',
         '2001 Jan 1 0:10', '2001 Jan 1 0:15', '2001 Jan 1 0:20s',
         '2001 Jan 1 1:00', '2001 Jan 1 1:30', '2001 Jan 1 24:00',
         '2001 Jan 2', '2001 Jan 2 0:30']
GRANS = (1, 30, 60, 900, 1800, 3600, 7200, 86400)


def close_cases(t):
    """UNTIL values which are equal after truncation."""
    for a in CLOSE:
        for b in CLOSE:
            yield u.Case({}, ('1:00 - A ' + a, '2:00 - B ' + b, '3:00 - C'))
            if t:
                for c in CLOSE:
                    yield u.Case({'P': u.P_RULES}, (
                        '1:00 P A%s ' + a, '2:00 - B ' + b, '3:00 P C%s ' + c,
                        '4:00 - D'))


TINY_YEARS = (1995, 1998, 1999, 2000, 2001, 2003, 2004, 2005, 2008)


def tiny_cases():
    for a in TINY_YEARS:
        for b in TINY_YEARS:
            yield u.Case({'P': u.P_RULES}, (
                '1:00 P A%%s %d Feb 1' % a, '2:00 - B %d Jan 15' % b,
                '3:00 P C%s'))
            yield u.Case({'P': u.P_RULES}, (
                '1:00 P A%%s %d Jan 1' % a, '2:00 - B %d Feb 1' % b,
                '3:00 P C%s'))


def check(ctx):
    t = ctx.thorough
    kinds = list(mix.KINDS)
    langs = ('python', 'arduino', 'c', 'go')
    jobs, k = [], 0
    wins = ((2000, 2004), (1995, 2001), (2003, 2030)) if t else ((2000, 2004),)
    combos = [(a,) for a in kinds]
    combos += list(itertools.combinations(kinds, 2))
    if t:
        combos += list(itertools.combinations(kinds, 3))
    for ks in combos:
        for sc in ('basic', 'extended', 'complete'):
            for st in (True, False):
                for w in wins:
                    av = [x for x in langs if x != 'go' or sc == 'complete']
                    lg = av[k % len(av)]
                    k += 1
                    ls = tuple(('L/A%d' % i, i) for i in range(len(ks)))
                    if len(ks) == 1:
                        ls += (('L/Missing', -1),)
                    jobs.append((ks, ls, sc, lg, st, w))
                    if len(ks) < 3:
                        jobs.append((ks, (), sc, lg, st, w))
    ctx.transitions += len(jobs)
    ctx.pmap(mixes, list(explore.batches(jobs, 50)), 'A')
    ps, tr = u.policy_universe(1 if t else 0)
    ctx.transitions += tr
    ca = [u.wrap_policy(x, n % 4) for n, x in enumerate(ps)]
    if not t:
        ca = ca[::3]
    hist, tr = u.era_universe(3, u.BODIES[::2] if not t else u.BODIES,
                              u.UNTILS)
    ctx.transitions += tr
    cb = [u.wrap_eras(h) for h in hist]
    cc = list(until_cases())
    num = list(enumerate(ca + cb))
    items = []
    for sc, lg in (('complete', 'python'), ('basic', 'python'),
                   ('extended', 'arduino')):
        items += [(b, sc, u.S, u.U, lg) for b in explore.batches(num, 300)]
    for sc, lg in (('complete', 'python'), ('complete', 'c'), ('basic', 'c'),
                   ('complete', 'go'), ('extended', 'python')):
        items += [(b, sc, 1999, 2002, lg)
                  for b in explore.batches(list(enumerate(cc)), 100)]
    ctx.notes['cases'] = {'rule sets': len(ca), 'histories': len(cb),
                          'UNTIL pairs': len(cc)}
    ctx.pmap(cases, items, 'B')
    # E: UNTIL values close to each other, under every granularity; and years
    # at the ends of the range of the tiny years
    items = []
    ce = list(enumerate(close_cases(t)))
    ct = list(enumerate(tiny_cases()))
    ctx.notes['cases'].update({'close UNTIL': len(ce), 'tiny': len(ct)})
    for i, g in enumerate(GRANS):
        for sc in ('complete', 'extended', 'basic'):
            for lg in ((('python', 'c', 'go') if sc == 'complete' else
                        ('arduino', 'python')) if t else
                       (('python', 'arduino', 'c')[i % 3],)):
                items += [(b, sc, 1999, 2003, lg,
                           ('--until_at_granularity', str(g)))
                          for b in explore.batches(ce, 200)]
    for base in (1878, 1879, 1880, 2100, 2125, 2126, 2127):
        for sc, lg in (('extended', 'arduino'), ('complete', 'c'),
                       ('extended', 'c')):
            items += [(b, sc, 2000, 2004, lg,
                       ('--tiny_base_year', str(base)))
                      for b in explore.batches(ct, 100)]
    ctx.pmap(cases, items, 'E')
    items = []
    for sc in ('basic', 'extended', 'complete'):
        for w in (((2000, 2050), (1990, 2000), (2010, 2012)) if not t else
                  [(a, a + n) for a in range(1981, 2050, 4)
                   for n in (1, 10, 50)]):
            for i, lg in enumerate(langs):
                if (lg == 'go' and sc != 'complete') or (
                        not t and w[0] % 4 != i and w[1] != 2050):
                    continue
                items.append((sc, w[0], w[1], lg))
    ctx.pmap(real, items, 'D')


def replay(p):
    if 'mix' in p:
        x = p['mix']
        o = mixes([(tuple(x[0]), tuple(map(tuple, x[1])), x[2], x[3], x[4],
                    tuple(x[5]))])
    elif 'cases' in p:
        cs = [(i, u.Case(r, tuple(e))) for i, (r, e) in enumerate(p['cases'])]
        o = cases((cs, p['scope'], p['s'], p['e'], p['lang'],
                   p.get('more', ())))
    else:
        o = real(tuple(p['real']))
    return [m for _, m, _ in o.viol]
