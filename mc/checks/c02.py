"""C02: claims of accuracy and truncation are truthful."""
import itertools
import json
from .. import cal, decode_c, decode_go, explore, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c01 import mixed_decode, all_rules_too_new
from .c16 import ref as tiny

ID = 'C02'
BOUNDS = (
    'A: every zone history of <=3 eras over 3 bodies x 17 UNTIL values; every '
    'rule set of <=2 (thorough: <=3) rules over 16 year spans; windows around '
    'them (thorough: all 1996<=s<u<=2007); observed removals against the '
    'flags of every zone, and local time of untruncated sides against the '
    'source back to 1700 and on to 2250; B: every database of <=3 zones with '
    'all combinations of truncation, contexts of every language; C: '
    'saturating tiny years for several base years; D: the real TZDB')
ASSUMPTIONS = ['a rule year saturated by the 8-bit tables counts as cut, in '
               'the scopes that use them']
MORE = ('--ignore_buf_size_too_large',)


def uniq(case):
    """Give every era its own FORMAT."""
    out = []
    for k, e in enumerate(case.eras):
        f = e.split()
        f[2] = 'F%d' % k + ('%s' if '%' in f[2] else '')
        if '/' in e.split()[2]:
            f[2] = 'F%d/G%d' % (k, k)
        out.append(' '.join(f))
    return u.Case(case.rules, tuple(out))


def seen(j, z, src):
    """Observed removal, from the JSON: (lower, upper) for the eras and the
    rules of the policies of the emitted eras; None if not emitted."""
    info = j['zones_map'].get(z)
    if info is None:
        return None
    fm = [e.fmt.replace('%s', '%') for e in src.zones[z]]
    idx = [fm.index(e['format'].replace('%s', '%')) for e in info['eras']]
    if idx != list(range(idx[0], idx[-1] + 1)):
        return 'eras %s of %d' % (idx, len(fm))
    low, high = idx[0] > 0, idx[-1] < len(fm) - 1
    why = []
    if low:
        why.append('eras below')
    if high:
        why.append('eras above')
    for i in idx:
        p = src.zones[z][i].policy
        if p is None:
            continue
        raw = {}
        for r in j['policies_map'][p]['rules']:
            k = ' '.join(r['raw_line'].split()).replace('Anchor: ', '')
            raw.setdefault(k, r)
        for r, text in zip(src.policies[p], RAW[p]):
            if text in raw:
                continue
            if r.to < j['start_year']:
                low = True
                why.append('rule below')
            elif r.frm >= j['until_year']:
                high = True
                why.append('rule above')
            else:
                return 'rule %s was removed although it is in the window' % (
                    text,)
    return low, high, why


RAW = {}


def raw_rules(text):
    RAW.clear()
    for line in tzmodel.logical_lines(text):
        if line.startswith('Rule'):
            k = line.split()
            RAW.setdefault(k[1], []).append(' '.join(k))


def saturated(j, z, src, base):
    """Emitted rules of the zone whose year does not fit the 8-bit field."""
    low = high = False
    for e in j['zones_map'][z]['eras']:
        p = e['policy_name']
        if not p:
            continue
        for r in j['policies_map'][p]['rules'][1:]:
            if tiny('rule', r['from_year'], base) == -127:
                low = True
            if tiny('rule', r['to_year'], base) == 126 and \
                    r['to_year'] != 32766:
                high = True
    return low, high


def batch(item):
    from ..harness import Out
    out = Out()
    cs, scope, s, un, base = item
    more = MORE + ('--nostrict',)
    if base:
        more += ('--tiny_base_year', str(base))
    argv = u.argv_for(scope, s, un, 'python', more=more)
    pre = 'Zone\tA/Good\t1:00\t-\tGGG\n' if scope == 'basic' else ''
    for res, part in u.compile_batch(cs, argv, prefix=pre):
        out.states += len(part)
        if not res.ok:
            i, c = part[0]
            src = u.source(c, i)
            if all_rules_too_new(src.zones[u.zname(i)], src.policies, s, un):
                out.outcome('refused: all rules of a policy too new')
            else:
                out.bad('refused', '%s\n%s' % (res.exc, u.render(c, i)),
                        pay(c, scope, s, un, base))
            continue
        text = pre + ''.join(u.render(c, i) for i, c in part)
        src = tzmodel.parse_source({'africa': text})
        j = json.loads(res.files['zonedb.json'])
        db = mixed_decode(res.files, 'python', scope)
        n0 = len(out.viol)
        judge(j, db, src, text, scope, s, un, base or 2100, out,
              {u.zname(i): pay(c, scope, s, un, base) for i, c in part})
        out.traces += len(part)
    return out


def pay(c, scope, s, un, base):
    return {'case': [c.rules, c.eras], 'scope': scope, 's': s, 'u': un,
            'base': base}


def judge(j, db, src, text, scope, s, un, base, out, pays):
    raw_rules(text)
    low_db = high_db = False
    want = src if scope == 'complete' else tzmodel.truncate(src, 60, 60, 900)
    for z, info in j['zones_map'].items():
        p = pays.get(z, pays.get(None, {}))
        lo, hi = info['lower_zone_truncated'], info['upper_zone_truncated']
        low_db |= lo
        high_db |= hi
        obs = seen(j, z, src)
        where = '%s [%d,%d) zone %s: %s' % (scope, s, un, z, [
            l for l in text.split('\n') if l and (len(text) < 2000)][:12])
        if isinstance(obs, str):
            out.bad('not-a-run', '%s %s' % (obs, where), p)
            continue
        a, b, why = obs
        if scope != 'complete':
            c, d = saturated(j, z, src, base)
            a, b = a or c, b or d
        if lo != a or hi != b:
            out.bad('flags', 'truncated flags (%s, %s) but observed (%s, %s) '
                    '%s %s' % (lo, hi, a, b, why, where), p)
            continue
        out.outcome('zone cut %s' % {(0, 0): 'nowhere', (1, 0): 'below',
                                     (0, 1): 'above', (1, 1): 'on both sides'}[
                                         (lo, hi)])
        # an untruncated side is accurate for ever
        day = 86400
        t0 = tzmodel.year_utc(1700 if not lo else s) + (3 * day if lo else 0)
        t1 = tzmodel.year_utc(2250 if not hi else un) - (3 * day if hi else 0)
        if t0 < t1 and (not lo or not hi):
            x = tzmodel.timeline(want.zones[z], want.policies, t0, t1)
            y = tzmodel.timeline(db.zones[z], db.policies, t0, t1)
            d = tzmodel.diff(x, y)
            if d:
                out.bad('claim', 'not truncated on that side, but at %s '
                        'source %s, emitted %s %s' % (
                            tzmodel.fmt_utc(d[0]), d[1], d[2], where), p)
    p = next(iter(pays.values()))
    wa = -32767 if not low_db else s
    wb = 32767 if not high_db else un
    got = (j['lower_truncated'], j['upper_truncated'],
           j['start_year_accurate'], j['until_year_accurate'])
    if got != (low_db, high_db, wa, wb):
        out.bad('db-flags', 'database says truncated (%s, %s) accurate '
                '[%s, %s), zones say %s' % (got + ((low_db, high_db, wa,
                                                   wb),)), p)
    return wa, wb


PARTS = {
    'none': ('1:00 - A%d',),
    'both': ('0:10 - L%d 1900', '1:00 - A%d 2040', '2:00 - B%d'),
    'lower': ('0:10 - L%d 1900', '1:00 - A%d'),
    'upper': ('1:00 - A%d 2040', '2:00 - B%d'),
    'rlower': ('1:00 L A%d%%s',),
    'rupper': ('1:00 U A%d%%s',),
    'rnone': ('1:00 N A%d%%s',),
    'cutpol': ('1:00 X A%d%%s 1990', '2:00 - B%d'),
}
POL = {
    'L': ('1950 1960 Mar 1 0:00 1:00 D', '1950 1960 Oct 1 0:00 0 S',
          '1970 only May 1 0:00 0 S', '1990 max Mar 1 0:00 1:00 D',
          '1990 max Oct 1 0:00 0 S'),
    'U': ('1990 max Mar 1 0:00 1:00 D', '1990 max Oct 1 0:00 0 S',
          '2050 only May 1 0:00 1:00 D'),
    'N': ('1990 max Mar 1 0:00 1:00 D', '1990 max Oct 1 0:00 0 S'),
    'X': ('1950 1960 Mar 1 0:00 1:00 D', '1980 1985 Oct 1 0:00 0 S',
          '2050 only May 1 0:00 1:00 D'),
}


def databases(item):
    """Small databases in every language."""
    from ..harness import Out
    out = Out()
    for kinds, scope, lang in item:
        t = ''
        pols = set()
        for i, k in enumerate(kinds):
            for n, e in enumerate(PARTS[k]):
                f = (e % i).split()
                if f[1] in POL:
                    pols.add(f[1])
                t += ('Zone\tZ/%d\t' % i if n == 0 else '\t\t\t') + \
                    '\t'.join(f) + '\n'
        t = ''.join('Rule\t%s\t%s\n' % (p, '\t'.join(
            r.split()[:2] + ['-'] + r.split()[2:]))
            for p in sorted(pols) for r in POL[p]) + t
        res = runner.run_main({'africa': t}, u.argv_for(
            scope, 2000, 2004, lang, more=MORE))
        out.states += 1
        p = {'db': [list(kinds), scope, lang]}
        if not res.ok:
            out.bad('refused', '%s %s: %s\n%s' % (lang, scope, res.exc, t), p)
            continue
        out.traces += 1
        src = tzmodel.parse_source({'africa': t})
        j = json.loads(res.files['zonedb.json'])
        ext = [k in ('lower', 'rlower', 'both', 'cutpol') for k in kinds]
        exu = [k in ('upper', 'rupper', 'both') for k in kinds]
        if scope == 'basic':
            pass
        db = mixed_decode(res.files, lang, scope)
        if lang == 'python':
            judge(j, db, src, t, scope, 2000, 2004, 2100, out, {None: p})
        for i, k in enumerate(kinds):
            z = j['zones_map'].get('Z/%d' % i)
            if z is None:
                out.bad('lost', 'zone of kind %s not emitted (%s)' % (
                    k, scope), p)
            elif (z['lower_zone_truncated'], z['upper_zone_truncated']) != (
                    ext[i], exu[i]):
                out.bad('kind-flags', '%s %s kind %s: flags (%s, %s)\n%s' % (
                    lang, scope, k, z['lower_zone_truncated'],
                    z['upper_zone_truncated'], t), p)
        wa = 2000 if any(ext) else -32767
        wb = 2004 if any(exu) else 32767
        if lang in ('arduino', 'c'):
            x = decode_c.decode(res.files, lang, scope).context
            ctx = (x['start_year'], x['until_year'],
                   x['start_year_accurate'], x['until_year_accurate'])
        elif lang == 'go':
            x = decode_go.decode(res.files).context
            ctx = (x['StartYear'], x['UntilYear'], x['StartYearAccurate'],
                   x['UntilYearAccurate'])
        else:
            ctx = (j['start_year'], j['until_year'],
                   j['start_year_accurate'], j['until_year_accurate'])
        if ctx != (2000, 2004, wa, wb):
            out.bad('context', '%s %s: years %s, expected accurate [%d, %d)\n'
                    '%s' % (lang, scope, ctx, wa, wb, t), p)
        else:
            out.outcome('context claims agree')
    return out


def real(item):
    from ..harness import Out
    out = Out()
    scope, s, un = item
    files = real_tzdb()
    src = tzmodel.parse_source(files)
    # the real FORMATs repeat: make them unique per zone
    new, k, cur = {}, 0, None
    for f, t in files.items():
        o = []
        for line in tzmodel.logical_lines(t):
            q = line.split()
            if line.startswith('Zone') or (line[0] == '\t'):
                n = 4 if line.startswith('Zone') else 2
                k += 1
                x = q[n]
                q[n] = 'F%d' % k + ('%s' if '%s' in x else
                                    '/G%d' % k if '/' in x else '')
                line = ('' if n == 4 else '\t\t\t') + '\t'.join(q)
            o.append(line)
        new[f] = '\n'.join(o) + '\n'
    src = tzmodel.parse_source(new)
    res = runner.run_main(new, u.argv_for(scope, s, un, 'python', more=MORE + (
        '--nostrict',)))
    p = {'real': list(item)}
    if not res.ok:
        if scope == 'basic' or not any(
                all_rules_too_new(e, src.policies, s, un)
                for e in src.zones.values()):
            out.bad('refused', 'real TZDB: %s' % res.exc, p)
        out.outcome('real refused: all rules of a policy too new')
        return out
    j = json.loads(res.files['zonedb.json'])
    db = mixed_decode(res.files, 'python', scope)
    out.states += len(db.zones)
    out.traces += len(db.zones)
    judge(j, db, src, '\n'.join(new.values()), scope, s, un, 2100, out,
          {None: p})
    return out


def check(ctx):
    t = ctx.thorough
    hist, tr = u.era_universe(3, ['1:00 - AAA', '2:00 P B%sT', '-3:30 Q D/E'],
                              u.UNTILS)
    ctx.transitions += tr
    cb = [uniq(u.wrap_eras(h)) for h in hist]
    alpha = u.rules_of(u.SPANS, ['Mar lastSun 1:00u', 'Oct Sun>=1 2:00'],
                       u.SAVES)
    r = explore.subsets(alpha, 1, 2)
    ctx.transitions += r.transitions
    ca = [uniq(u.wrap_policy(x, k % 3)) for k, x in enumerate(r.states)]
    if t:
        r3 = explore.subsets(u.rules_of(
            ['1990 1995', '1998 only', '1999 2001', '2000 max', '2004 only',
             '2005 max', '2006 2009'], ['Mar lastSun 1:00u',
                                        'Oct Sun>=1 2:00'], u.SAVES), 3, 3)
        ctx.transitions += r3.transitions
        ca += [uniq(u.wrap_policy(x, k % 3)) for k, x in enumerate(r3.states)]
    wins = [(s, e) for s in range(1996, 2007) for e in range(s + 1, 2008)] \
        if t else [(2000, 2004), (1998, 1999), (2001, 2006)]
    items = []
    for k, (s, e) in enumerate(wins):
        xs = cb + ca if not t or k % 6 == 0 else cb[k % 5::5] + ca[k % 5::5]
        if not t and k:
            xs = xs[k::4]
        num = list(enumerate(xs))
        items += [(b, 'complete', s, e, None)
                  for b in explore.batches(num, 250)]
        if k == 0 or t:
            items += [(b, 'extended', s, e, None)
                      for b in explore.batches(num[::9], 250)]
            items += [(b, 'basic', s, e, None)
                      for b in explore.batches(num[::7], 250)]
    ctx.notes['cases'] = {'histories': len(cb), 'rule sets': len(ca)}
    ctx.pmap(batch, items, 'A')
    ks = list(PARTS)
    dbs = [c for n in (1, 2, 3) for c in itertools.combinations(ks, n)]
    jobs = []
    for n, c in enumerate(dbs):
        for scope in ('complete', 'extended', 'basic'):
            for lg in ('python', 'arduino', 'c', 'go'):
                if lg == 'go' and scope != 'complete':
                    continue
                if 'rlower' in c and scope != 'complete' and False:
                    continue
                jobs.append((c, scope, lg))
    ctx.transitions += len(jobs)
    ctx.pmap(databases, list(explore.batches(jobs, 40)), 'B')
    # C: years that saturate
    spans = ['1700 1890', '1700 max', '1880 1990', '1990 2110', '1990 2300',
             '1985 max', '2010 2200', '1973 2010', '1974 2011', '1884 2135',
             '1883 2136', '1900 only']
    rs = explore.subsets(u.rules_of(spans, ['Mar 1 0:00', 'Oct 1 0:00'],
                                    ['1:00 D']), 1, 2)
    ctx.transitions += rs.transitions
    cs = [uniq(u.wrap_policy(x, 0)) for x in rs.states]
    items = []
    for base in (2010, 2100, 2075, 2000) if not t else range(1990, 2110, 5):
        for sc, (s, e) in itertools.product(
                ('extended', 'basic'), ((2000, 2004), (2009, 2020))):
            xs = list(enumerate(cs))
            items += [(b, sc, s, e, base) for b in explore.batches(xs, 300)]
    ctx.pmap(batch, items, 'C')
    items = [(sc, s, s + n) for sc in ('complete', 'extended', 'basic')
             for s in range(1981, 2045, 4 if t else 24)
             for n in (1, 9, 60)]
    items += [('complete', s, s + n) for s in range(1850, 1981,
                                                    6 if t else 40)
              for n in (1, 20, 150)]
    items += [('complete', -32766, 32766), ('complete', 1800, 10000)]
    ctx.pmap(real, items, 'D')


def replay(p):
    if 'real' in p:
        o = real(tuple(p['real']))
    elif 'db' in p:
        k, s, l = p['db']
        o = databases([(tuple(k), s, l)])
    else:
        r, e = p['case']
        o = batch(([(0, u.Case(r, tuple(e)))], p['scope'], p['s'], p['u'],
                   p['base']))
    return [m for _, m, _ in o.viol]
