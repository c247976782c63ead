"""C13: zones do not interfere with each other."""
import itertools
import json
from .. import explore, mix, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c01 import mixed_decode

ID = 'C13'
BOUNDS = (
    'A: every database of <=2 (thorough: <=3) zones out of 28 independent zone '
    'kinds, good and broken; B: every database of <=3 (thorough: <=4) zones '
    'out of 16 zones that share 10 policies of which some are broken, old, '
    'truncated at one end or basic-only, policies before and after the zones; '
    'every pair of 16 similar policy names and of 14 similar zone names; C: every '
    'include list over 3 zones and 3 links; in every scope, strict and not, '
    'two windows; D: every zone of the real TZDB alone (own lines only; '
    'thorough: also through an include list) against the whole.  In each the '
    'record of every zone (JSON and decoded tables) equals the record of '
    'compiling its own lines alone')
ASSUMPTIONS = [
    'the buffer-size year scan range is a property of the whole database '
    '(C15), so buffer sizes are not part of the record compared here',
    'letter, format and name indices are resolved before comparing']
MORE = ('--ignore_buf_size_too_large',)
GOOD = 'Zone\tA/Good\t1:00\t-\tGGG\nLink\tA/Good\tA/GoodLink\n'

# shared policies
POL = {
    'P': ['1990 max - Mar lastSun 1:00u 1:00 D', '1990 max - Oct lastSun '
          '1:00u 0 S'],
    'Old': ['1980 1989 - Apr 1 0:00 1:00 D', '1980 1989 - Sep 1 0:00 0 S'],
    'Bad': ['1990 max - Mar 1 26:00 1:00 D', '1990 max - Oct 1 0:00 0 S'],
    'Dbl': ['1990 max - Mar 1 0:00 1:00 D', '1990 max - Mar 20 0:00 0 S'],
    'Sec': ['1990 max - Mar 1 0:00:30 0:20 DD', '1990 max - Oct 1 0:00 0 SS'],
    'Ltr': ['1990 2001 - Mar 1 0:00 1:00 L1', '1990 2001 - Oct 1 0:00 0 L2',
            '2002 max - Mar 1 2:00 1:00 L3', '2002 max - Oct 1 2:00s 0 -'],
    # rules only lost before, and only lost after the window
    'Anc': ['1980 1981 - Apr 1 0:00 1:00 D', '1980 1981 - Sep 1 0:00 0 S',
            '1985 max - Apr 3 0:00 1:00 D', '1985 max - Sep 3 0:00 0 S'],
    'Fut': ['1995 max - May 1 2:00 1:00 D', '1995 max - Nov 1 2:00 0 S',
            '2030 2031 - Jul 1 2:00 1:00 V', '2030 2031 - Jul 9 2:00 0 S'],
    # no standard-time rule is left in the window
    'Per': ['1985 only - Oct 1 0:00 0 ZZ', '1990 only - Mar 1 0:00 1:00 D'],
    'Pe2': ['1986 only - Oct 1 0:00 0 YY', '1995 only - May 1 0:00 0:30 E'],
}
# zones over them: (eras)
SHARED = [
    ('1:00 P A%sT',),
    ('1:00 Old B%sT 1995', '2:00 P C/D'),
    ('1:00 Old B%sT',),
    ('1:00 Bad E%sT',),
    ('1:00 Bad E%sT 1970', '1:00 P E%sT'),
    ('1:00 P F%sT 2001', '2:00 Bad F%sT'),
    ('1:00 Dbl G%sT',),
    ('1:00 Dbl G%sT 2001', '2:00 P G%sT'),
    ('1:00 Sec H%sT',),
    ('1:00:20 Ltr I%sT',),
    ('2:00 Ltr %sX 2002', '-1:00 P %z'),
    ('2:00 Nope J%sT',),
    ('2:00 P A%sT 2001 Jun 3 1:00u', '1:00 Sec B%sT'),
    ('3:00 Anc K%sT',),
    ('3:00 Fut L%sT',),
    ('3:00 Per M%sT 2003', '2:00 Pe2 N%s'),
]


def pol_text(p):
    return ''.join('Rule\t%s\t%s\n' % (p, r.replace(' ', '\t'))
                   for r in POL[p])


def zone_text(k, i):
    out = ''
    for n, e in enumerate(SHARED[k]):
        f = e.split()
        out += ('Zone\t%s\t' % mix.zname(i) if n == 0 else '\t\t\t')
        out += '\t'.join(f[:3]) + ('\t' + ' '.join(f[3:]) if f[3:] else '')
        out += '\n'
    return out + 'Link\t%s\tL/K%d\n' % (mix.zname(i), i)


def pols_of(k):
    return [p for p in POL if any(e.split()[1] == p for e in SHARED[k])]


def plain(e):
    return {k: v for k, v in e.items() if k != 'letter_index'}


def record(res, lang, scope, z):
    """Everything the compile says about zone z and the links to it."""
    j = json.loads(res.files['zonedb.json'])
    db = mixed_decode(res.files, lang, scope)
    return record_of(j, db, z)


def resolved(db, z):
    def e2(e):
        if e.policy is None:
            return e
        return e._replace(policy=tuple(db.policies[e.policy]))
    return [e2(e) for e in db.zones[z]]


def record_of(j, db, z):
    r = {}
    if z in j['zones_map']:
        r['eras'] = j['zones_map'][z]
        pols = sorted({e['policy_name'] for e in j['zones_map'][z]['eras']
                       if e.get('policy_name')})
        r['policies'] = {p: [plain(x) for x in j['policies_map'][p]['rules']]
                         for p in pols if p in j['policies_map']}
        r['policy flags'] = {p: {k: v for k, v in j['policies_map'][p].items()
                                 if k != 'rules'}
                             for p in pols if p in j['policies_map']}
        r['policy notes'] = {p: j['notable_policies'][p] for p in pols
                             if p in j['notable_policies']}
        r['id'] = j['zone_ids'][z]
        r['zone notes'] = j['notable_zones'].get(z)
        r['merged notes'] = j['merged_notable_zones'].get(z)
        r['used'] = sorted(j['zones_to_policies'].get(z, []))
        r['decoded'] = resolved(db, z)
    r['removed'] = j['removed_zones'].get(z)
    r['links'] = sorted((n, j['link_ids'][n], j['notable_links'].get(n))
                        for n, t in j['links_map'].items() if t == z)
    return r


def compare(alone, joint, z, where, out, p):
    for k in sorted(set(alone) | set(joint)):
        if alone.get(k) != joint.get(k):
            out.bad(k, 'zone %s: %s differ%s\nalone: %s\njointly: %s\n%s' % (
                z, k, '' if k.endswith('s') else 's', alone.get(k),
                joint.get(k), where), p)
            return


_memo = {}


def alone(text, z, scope, win, strict, lang):
    key = (text, z, scope, win, strict, lang)
    if key not in _memo:
        res = runner.run_main({'asia': GOOD + text}, argv(
            scope, win, strict, lang))
        _memo[key] = (res.exc, record(res, lang, scope, z) if res.ok else
                      None)
    return _memo[key]


def argv(scope, win, strict, lang):
    return u.argv_for(scope, win[0], win[1], lang, more=MORE + (
        '--strict' if strict else '--nostrict',))


def texts(kind, combo):
    """[(own text of zone i)], joint text"""
    if kind == 'A':
        own = [mix.render(k, i) + 'Link\t%s\tL/K%d\n' % (mix.zname(i), i)
               for i, k in enumerate(combo)]
        return own, ''.join(own)
    own = [''.join(pol_text(p) for p in pols_of(k)) + zone_text(k, i)
           for i, k in enumerate(combo)]
    ps = ''.join(pol_text(p) for p in POL)
    zs = ''.join(zone_text(k, i) for i, k in enumerate(combo))
    return own, (ps + zs if kind == 'B' else zs + ps)


def one(kind, combo, scope, win, strict, lang, out):
    own, joint = texts(kind, combo)
    p = {'kind': kind, 'combo': list(combo), 'scope': scope, 'win': list(win),
         'strict': strict, 'lang': lang}
    out.states += 1
    base = [alone(t, mix.zname(i), scope, win, strict, lang)
            for i, t in enumerate(own)]
    res = runner.run_main({'asia': GOOD + joint}, argv(scope, win, strict,
                                                       lang))
    where = '%s %s %s strict=%s\n%s' % (scope, win, lang, strict, joint)
    if res.ok != all(e is None for e, _ in base):
        out.bad('refused', 'alone: %s\njointly: %s\n%s' % (
            [e for e, _ in base], res.exc, where), p)
        return
    if not res.ok:
        out.outcome('refused in both')
        return
    j = json.loads(res.files['zonedb.json'])
    db = mixed_decode(res.files, lang, scope)
    for i in range(len(combo)):
        z = mix.zname(i)
        r = record_of(j, db, z)
        out.traces += 1
        out.outcome('emitted' if 'eras' in r else 'removed')
        compare(base[i][1], r, z, where, out, p)
    extra = set(j['zones_map']) - {mix.zname(i) for i in range(len(combo))} - \
        {'A/Good'}
    if extra:
        out.bad('union', 'unexpected zones %s\n%s' % (extra, where), p)


def batch(items):
    from ..harness import Out
    out = Out()
    for it in items:
        one(*it, out=out)
    return out


# --- B2: similar names -----------------------------------------------------

# no two of a list normalise to the same symbol
PNAMES = ['Pol', 'Poli', 'Po', 'pol', 'POL', 'Pol_1', 'Pol_2', 'Pol-3',
          'Pol+1', 'P', 'Po/l', '1Pol', 'oPol', 'Pol.x', 'C-Eur', 'E-Eur']
ZNAMES = ['A/Bc', 'A/Bcd', 'a/bc', 'A/Bc/D', 'Bc', 'A/B_c', 'A', 'ABc',
          'A/bC', 'A/Bc-1', 'A/Bc+1', 'A/Bc1', 'A/Bc/A/Bc', 'Z/A/Bc']


def similar(item):
    """Two zones over two policies, with names that resemble each other."""
    from ..harness import Out
    out = Out()
    for pn, zn, kinds, scope, strict, lang in item:
        win = (2000, 2010)
        p = {'similar': [list(pn), list(zn), list(kinds), scope, strict,
                         lang]}
        out.states += 1
        own = []
        for n, z, k in zip(pn, zn, kinds):
            t = pol_text(k).replace('Rule\t' + k + '\t', 'Rule\t' + n + '\t')
            own.append((t, 'Zone\t%s\t1:00\t-\tX\t1999\n\t\t\t2:00\t%s\tY%%s\n'
                        'Link\t%s\tLink/%s\n' % (z, n, z, z)))
        joint = own[0][0] + own[1][0] + own[1][1] + own[0][1]
        base = [alone(a + b, z, scope, win, strict, lang)
                for (a, b), z in zip(own, zn)]
        res = runner.run_main({'asia': GOOD + joint}, argv(
            scope, win, strict, lang))
        where = '%s %s strict=%s\n%s' % (scope, lang, strict, joint)
        if res.ok != all(e is None for e, _ in base):
            out.bad('refused', 'alone: %s\njointly: %s\n%s' % (
                [e for e, _ in base], res.exc, where), p)
            continue
        if not res.ok:
            out.outcome('refused in both')
            continue
        j = json.loads(res.files['zonedb.json'])
        db = mixed_decode(res.files, lang, scope)
        for i, z in enumerate(zn):
            out.traces += 1
            r = record_of(j, db, z)
            out.outcome('similar: ' + ('emitted' if 'eras' in r else
                                       'removed'))
            compare(base[i][1], r, z, where, out, p)
    return out


def similar_items(level):
    out = []
    k = 0
    kinds = [x for x in POL if x != 'Bad']
    kp = list(itertools.permutations(kinds, 2))
    zp = list(itertools.combinations(ZNAMES, 2))
    for pn in itertools.permutations(PNAMES, 2):
        for ks in kp if level else [kp[(k + i * 11) % len(kp)]
                                    for i in range(3)]:
            out.append((pn, zp[k % len(zp)], ks,
                        ('complete', 'extended', 'basic')[k % 3],
                        k // 3 % 2 == 1, ('python', 'arduino', 'c', 'go')[
                            k // 6 % 4]))
            k += 1
    for zn in zp:
        for ks in kp if level else [kp[k % len(kp)], kp[k * 5 % len(kp)]]:
            out.append((('P', 'Q'), zn, ks, ('complete', 'extended', 'basic')[
                k % 3], True, ('python', 'arduino', 'c', 'go')[k // 3 % 4]))
            k += 1
    return out


# --- C: include lists ------------------------------------------------------

INC_KINDS = [('policy', 'two', 'old'), ('new', 'fixed', 'oldpol')]


def include_one(kinds, scope, lang, names, out):
    own, joint = texts('A', kinds)
    win = (2000, 2010)
    p = {'include': list(names), 'kinds': list(kinds), 'scope': scope,
         'lang': lang}
    out.states += 1
    res = runner.run_main({'asia': joint}, argv(scope, win, True, lang),
                          include='\n'.join(names) + '\n')
    full = runner.run_main({'asia': joint}, argv(scope, win, True, lang))
    where = '%s %s include %s\n%s' % (scope, lang, names, joint)
    zs = [i for i in range(len(kinds)) if mix.zname(i) in names]
    if not res.ok:
        out.outcome('include refused')
        if all(n[0] == 'Z' or 'Z' + n[1:] in names for n in names):
            out.bad('include-refused', '%s\n%s' % (res.exc, where), p)
        return
    j = json.loads(res.files['zonedb.json'])
    db = mixed_decode(res.files, lang, scope)
    for i in zs:
        z = mix.zname(i)
        a = record(full, lang, scope, z)
        r = record_of(j, db, z)
        if 'L/K%d' % i not in names:
            a['links'] = []
        out.traces += 1
        out.outcome('included')
        compare(a, r, z, where, out, p)


def include_batch(items):
    from ..harness import Out
    out = Out()
    for it in items:
        include_one(*it, out=out)
    return out


# --- D: the real TZDB ------------------------------------------------------

def split_source(files):
    """Own source lines of each policy, zone and zone's links."""
    pol, zone, links = {}, {}, {}
    for t in files.values():
        cur = None
        for line in tzmodel.logical_lines(t):
            k = line.split()
            if k[0] == 'Rule' and not line[0].isspace():
                pol.setdefault(k[1], []).append(line)
            elif k[0] == 'Zone' and not line[0].isspace():
                cur = zone.setdefault(k[1], [])
                cur.append(line)
            elif k[0] == 'Link' and not line[0].isspace():
                links.setdefault(k[1], []).append(line)
            else:
                cur.append(line)
    return pol, zone, links


def used(lines, pol):
    out = []
    for n, line in enumerate(lines):
        k = line.split()
        r = k[3] if n == 0 else k[1]
        if r in pol and r not in out:
            out.append(r)
    return out


def own_text(z, pol, zone, links):
    t = [x for p in used(zone[z], pol) for x in pol[p]]
    t += zone[z] + links.get(z, [])
    return '\n'.join(t) + '\n'


def real(item):
    from ..harness import Out
    out = Out()
    scope, win, strict, lang, part, parts, inc = item
    files = real_tzdb()
    res = runner.run_main(files, argv(scope, win, strict, lang), timeout=300)
    if not res.ok:
        out.bad('real-refused', res.exc, {'real': item})
        return out
    j = json.loads(res.files['zonedb.json'])
    db = mixed_decode(res.files, lang, scope)
    pol, zone, links = split_source(files)
    for z in sorted(zone)[part::parts]:
        out.states += 1
        p = {'real': [scope, list(win), strict, lang, z, inc]}
        if inc:
            if z not in j['zones_map']:
                continue
            r = runner.run_main(files, argv(scope, win, strict, lang),
                                include='\n'.join([z] + [
                                    x.split()[2] for x in links.get(z, [])])
                                + '\n')
        else:
            r = runner.run_main({'asia': GOOD + own_text(z, pol, zone,
                                                         links)},
                                argv(scope, win, strict, lang))
        if not r.ok:
            out.bad('real-alone', '%s alone is refused: %s' % (z, r.exc), p)
            continue
        out.traces += 1
        a = record(r, lang, scope, z)
        out.outcome('real %s' % ('emitted' if 'eras' in a else 'removed'))
        compare(a, record_of(j, db, z), z, '%s %s %s' % (scope, win, lang),
                out, p)
    return out


def check(ctx):
    items = []
    ks = list(mix.KINDS)
    scopes = ['basic', 'extended', 'complete']
    langs = ['python', 'arduino', 'c', 'go']
    r = explore.subsets(ks, 1, 3 if ctx.thorough else 2)
    ctx.transitions += r.transitions
    n = 0
    for combo in r.states:
        for scope in scopes:
            for strict in (True, False):
                if len(combo) == 3 and (scope != 'basic' or not strict):
                    continue
                if scope != 'basic' and any(
                        mix.expected(k, scope) == 'drop' for k in combo) and \
                        len(combo) > 1:
                    continue
                items.append(('A', combo, scope, (2000, 2010), strict,
                              langs[n % 4]))
                n += 1
    r = explore.subsets(list(range(len(SHARED))), 1, 4 if ctx.thorough else 3)
    ctx.transitions += r.transitions
    for combo in r.states:
        for scope in scopes:
            for strict in (True, False):
                if scope != 'basic' and (3 in combo or 5 in combo or
                                         11 in combo) and len(combo) > 1:
                    continue
                if len(combo) == 4 and (strict or scope == 'extended'):
                    continue
                w = [(2000, 2010), (1995, 2002)]
                if len(combo) >= 3:
                    w = w[n % 2:n % 2 + 1]
                    if not ctx.thorough and scope == 'extended':
                        continue
                for win in w:
                    items.append(('BT'[n % 2], combo, scope, win, strict,
                                  langs[n // 2 % 4]))
                    n += 1
    ctx.pmap(batch, list(explore.batches(items, 100)), 'databases')
    items = similar_items(ctx.thorough)
    ctx.transitions += len(items)
    ctx.pmap(similar, list(explore.batches(items, 60)), 'similar names')
    inc = []
    for kinds in INC_KINDS:
        names = [f % i for i in range(3) for f in ('Z/K%d', 'L/K%d')]
        r = explore.subsets(names, 1, 6)
        ctx.transitions += r.transitions
        for ns in r.states:
            for scope in scopes:
                inc.append((kinds, scope, langs[n % 4], ns))
                n += 1
    ctx.pmap(include_batch, list(explore.batches(inc, 40)), 'include lists')
    reals = [('basic', (2000, 2050), True), ('extended', (2000, 2050), False),
             ('complete', (2000, 2050), True)]
    if ctx.thorough:
        reals += [('basic', (1985, 2050), False), ('basic', (2015, 2020),
                                                   True),
                  ('extended', (1974, 2100), True), ('complete',
                                                     (1900, 2100), True)]
    ctx.pmap(real, [x + (lg, part, 4, False) for x in reals
                    for lg in (langs if ctx.thorough else ['arduino'])
                    for part in range(4)], 'real TZDB')
    if ctx.thorough:
        ctx.pmap(real, [x + ('python', part, 16, True) for x in reals[:3]
                        for part in range(16)], 'real TZDB include')


def replay(p):
    from ..harness import Out
    out = Out()
    if 'real' in p:
        scope, win, strict, lang = p['real'][:4]
        o = real((scope, tuple(win), strict, lang, 0, 1, p['real'][-1]))
        return [m for _, m, _ in o.viol]
    if 'similar' in p:
        x = p['similar']
        return [m for _, m, _ in similar([tuple(
            tuple(y) if isinstance(y, list) else y for y in x)]).viol]
    if 'include' in p:
        include_one(tuple(p['kinds']), p['scope'], p['lang'],
                    tuple(p['include']), out)
    else:
        one(p['kind'], tuple(p['combo']), p['scope'], tuple(p['win']),
            p['strict'], p['lang'], out)
    return [m for _, m, _ in out.viol]
