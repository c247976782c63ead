"""C03: every zone, link and policy is emitted or reported as removed."""
import itertools
import json
from .. import explore, mix, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c01 import mixed_decode

ID = 'C03'
BOUNDS = (
    'A: every database of <=2 (thorough: <=3) zones out of 25 zone kinds (good '
    'or unsupported for a known reason), with every link set over {to each '
    'zone, to a missing zone}, with and without an unused policy; B: with '
    'every include list over the zone and link names; each in every scope, '
    'strict and not, and every language; include lists of one and two names '
    'close to those of the database; odd: each field of each kind unsupported '
    'for each reason, days leaving the year, SAVE out of range, x 6 '
    'granularities; C: the real TZDB in windows and '
    'scopes')
ASSUMPTIONS = ['which zone kinds are supported in which scope is written in '
               'mc/mix.py from the documentation; basic scope is decided in '
               'detail by C14']
MORE = ('--ignore_buf_size_too_large',)


def norm(n):
    import re
    return re.sub('[^A-Za-z0-9_]', '_', n.replace('+', '_PLUS_'))


def source_text(kinds, links, unused):
    t = ''.join(mix.render(k, i) for i, k in enumerate(kinds))
    if unused:
        t += 'Rule\tUnused\t1990\tmax\t-\tMar\t1\t0:00\t0\t-\n'
    for n, i in links:
        t += 'Link\t%s\t%s\n' % (mix.zname(i) if i >= 0 else 'No/Zone', n)
    return t


def account(res, lang, scope, zones, links, pols, out, p):
    """The accounting itself.  zones, links, pols: names in the source."""
    j = json.loads(res.files['zonedb.json'])
    db = mixed_decode(res.files, lang, scope)
    out.traces += 1
    dbpol = set(db.policies)
    if lang in ('arduino', 'c'):
        pre = 'kZonePolicy' if lang == 'arduino' else 'kzonedbZonePolicy'
        dbpol = {x[len(pre):] for x in dbpol}
        same = {norm(x) for x in j['policies_map']} == dbpol
    elif lang == 'go':
        same = len(j['policies_map']) == len(dbpol)
    else:
        same = set(j['policies_map']) == dbpol
    if not same:
        out.bad('policies', '%s: policies %s, JSON %s' % (
            lang, sorted(map(str, dbpol)), sorted(j['policies_map'])), p)
    if set(j['zones_map']) != set(db.zones):
        out.bad('zones', '%s: zones differ from JSON: %s' % (
            lang, sorted(set(j['zones_map']) ^ set(db.zones))[:5]), p)
    if j['links_map'] != db.links:
        out.bad('links', '%s: links differ from JSON: %s' % (
            lang, sorted(set(j['links_map'].items()) ^
                         set(db.links.items()))[:5]), p)
    for what, names, emitted, removed in (
            ('zone', zones, j['zones_map'], j['removed_zones']),
            ('link', links, j['links_map'], j['removed_links']),
            ('policy', pols, j['policies_map'], j['removed_policies'])):
        for n in sorted(set(names) | set(emitted) | set(removed)):
            e, r = n in emitted, n in removed
            if n not in names:
                out.bad('unknown:' + what, '%s %s is not in the source' % (
                    what, n), p)
            elif e and r:
                out.bad('both:' + what, '%s %s is emitted and removed (%s)' % (
                    what, n, removed[n]), p)
            elif not e and not r:
                out.bad('neither:' + what, '%s %s vanished without a reason' %
                        (what, n), p)
            elif r and (not removed[n] or not all(
                    isinstance(x, str) and x.strip() for x in removed[n])):
                out.bad('reason:' + what, '%s %s removed with reasons %r' % (
                    what, n, removed[n]), p)
            else:
                out.outcome('%s %s' % (what, 'emitted' if e else
                                       'removed with reason'))
    return j


def one(kinds, links, unused, include, scope, strict, lang, out):
    p = {'kinds': list(kinds), 'links': list(links), 'unused': unused,
         'include': include, 'scope': scope, 'strict': strict, 'lang': lang}
    t = source_text(kinds, links, unused)
    res = runner.run_main({'africa': t}, u.argv_for(
        scope, 2000, 2004, lang, actions='zonedb,json,zonelist',
        more=MORE + (('--strict',) if strict else ('--nostrict',))),
        include=None if include is None else ''.join(
            x + '\n' for x in include))
    out.states += 1
    zones = [mix.zname(i) for i in range(len(kinds))]
    pols = [x for i, k in enumerate(kinds) for x in mix.policies(k, i)]
    if unused:
        pols.append('Unused')
    inc = None if not include else set(include)

    def droppable(k):
        e = mix.expected(k, scope)
        if k in ('seconds', 'save10', 'at30') and not strict:
            return False
        return e == 'drop'
    drop = {mix.zname(i) for i, k in enumerate(kinds) if droppable(k)}
    gone = [n for n, i in links if (i < 0 or mix.zname(i) in drop or (
        inc is not None and mix.zname(i) not in inc))]
    if inc is not None:
        drop &= inc
        gone = [n for n in gone if n in inc]
    where = '%s %s %s include=%s\n%s' % (
        lang, scope, 'strict' if strict else 'nostrict', include, t)
    if not res.ok:
        if res.kind == 'hang':
            out.bad('hang', where, p)
        elif res.files:
            out.bad('partial', 'a failing compile left %s\n%s' % (
                sorted(res.files), where), p)
        elif scope == 'basic' and (set(zones) - drop) & (
                set(zones) if inc is None else inc):
            out.bad('refused', 'basic compile refused: %s\n%s' % (
                res.exc, where), p)
        elif scope != 'basic' and not drop and not gone and (
                inc is None or inc & set(zones)):
            out.bad('refused', 'refused although nothing is unsupported: '
                    '%s\n%s' % (res.exc, where), p)
        else:
            out.outcome('refused, no file left')
        return
    if scope != 'basic' and (drop or gone):
        out.bad('dropped', 'compile succeeded although %s cannot be emitted\n'
                '%s' % (sorted(drop) + gone, where), p)
        return
    j = account(res, lang, scope, zones, [n for n, _ in links], pols, out, p)
    for z in zones:
        keep = z not in drop and (inc is None or z in inc)
        if keep != (z in j['zones_map']):
            out.bad('kept', '%s is %semitted (%s)\n%s' % (
                z, 'not ' if keep else '', j['removed_zones'].get(z), where),
                p)
    for n, i in links:
        keep = i >= 0 and mix.zname(i) in j['zones_map'] and (
            inc is None or n in inc)
        if keep != (n in j['links_map']):
            out.bad('kept-link', 'link %s is %semitted\n%s' % (
                n, 'not ' if keep else '', where), p)
    listed = [x for x in res.text('zones.txt').split('\n')
              if x and x[0] != '#']
    if sorted(listed) != sorted(j['zones_map']):
        out.bad('zones.txt', 'zones.txt lists %s\n%s' % (listed, where), p)


NEAR_ZONES = ['America/Port-au-Prince', 'Etc/GMT+1', 'Etc/GMT-1', 'A/B_C',
              'Foo', 'Europe/Foo', 'America/Port-au']
NEAR_LINKS = {'GMT+1': 'Etc/GMT+1', 'EST5EDT': 'Foo', 'Foo/Bar': 'A/B_C',
              'B_C': 'Europe/Foo'}


def near_names():
    """Every zone and link name, and names close to one."""
    out = []
    for n in NEAR_ZONES + list(NEAR_LINKS):
        out += [n, n.lower(), n.upper(), n.replace('-', '_'),
                n.replace('_', '-'), n.replace('+', '_PLUS_'),
                n.replace('+', '-'), n.split('/')[-1], n.split('/')[0],
                n + 'x', n[:-1], n + '/x', '/' + n, n.replace('/', '_'),
                n.replace('/', '')]
    return [x for x in dict.fromkeys(out) if x]


def near(item):
    """Include lists of names close to those of the database."""
    from ..harness import Out
    out = Out()
    t = ''.join('Zone\t%s\t%d:00\t-\tX%d\n' % (z, i, i)
                for i, z in enumerate(NEAR_ZONES)) + ''.join(
        'Link\t%s\t%s\n' % (z, n) for n, z in NEAR_LINKS.items())
    for inc, scope, lang in item:
        p = {'near': [list(inc), scope, lang]}
        res = runner.run_main({'africa': t}, u.argv_for(
            scope, 2000, 2004, lang, more=MORE),
            include=''.join(x + '\n' for x in inc))
        out.states += 1
        zs = set(NEAR_ZONES) & set(inc)
        ls = {n: z for n, z in NEAR_LINKS.items() if n in inc and z in inc}
        if not res.ok:
            if zs and (scope == 'basic' or len(ls) == len(
                    set(NEAR_LINKS) & set(inc))):
                out.bad('refused', 'include list %s refused: %s' % (
                    inc, res.exc), p)
            out.outcome('include list refused')
            continue
        j = account(res, lang, scope, NEAR_ZONES, list(NEAR_LINKS), [], out, p)
        if set(j['zones_map']) != zs or j['links_map'] != ls:
            out.bad('near', 'include list %s gave zones %s, links %s' % (
                inc, sorted(j['zones_map']), j['links_map']), p)
    return out


def batch(item):
    from ..harness import Out
    out = Out()
    for x in item:
        one(*x, out=out)
    return out


def real(item):
    from ..harness import Out
    out = Out()
    scope, s, e, lang, strict = item
    files = real_tzdb()
    src = tzmodel.parse_source(files)
    res = runner.run_main(files, u.argv_for(scope, s, e, lang, more=MORE + (
        '--strict' if strict else '--nostrict',)))
    p = {'real': list(item)}
    out.states += 1
    if not res.ok:
        if res.files:
            out.bad('partial', 'real TZDB: %s' % sorted(res.files), p)
        out.outcome('real refused')
        return out
    account(res, lang, scope, src.zones, src.links, src.policies, out, p)
    return out


def link_sets(nz, full):
    """Every subset of {one link per zone, a second link to zone 0, a link to
    a missing zone}."""
    al = [('L/A%d' % i, i) for i in range(nz)]
    al += [('L/Missing', -1)]
    if full:
        al.append(('L/B0', 0))
    return explore.subsets(al, 0, len(al))


GRAINS = [(), ('--granularity', '1'), ('--nostrict', '--granularity', '1'),
          ('--nostrict',), ('--nostrict', '--granularity', '900'),
          ('--granularity', '60', '--delta_granularity', '1')]
NOT_TIMES = ['26', '26:00', '1:60', '1:00:60', '1:', '1:00:00:00', '1:0x',
             '277:46:39', '99', '-26:00']


def odd_cases():
    """(what, text of zone A/Odd with policy Odd) no scope can emit."""
    z = 'Zone\tA/Odd\t1:00\tOdd\tA%sT\n'
    out = []
    for x in NOT_TIMES:
        out += [('STDOFF', 'Zone\tA/Odd\t%s\t-\tA\n' % x),
                ('STDOFF2', 'Zone\tA/Odd\t1:00\t-\tA\t2001\n'
                 '\t\t\t%s\t-\tB\n' % x),
                ('UNTIL', 'Zone\tA/Odd\t1:00\t-\tA\t2001 Jan 1 %s\n'
                 '\t\t\t2:00\t-\tB\n' % x)]
        if ':' in x:
            out.append(('RULES', 'Zone\tA/Odd\t1:00\t%s\tA\n' % x))
        for n in (0, 1):
            r = ['1990 max - Mar 3 2:00 1:00 D', '1990 max - Oct 3 2:00 0 S']
            out += [(fld + str(n), ''.join(
                'Rule\tOdd\t%s\n' % '\t'.join(
                    w[:c] + [x] + w[c + 1:] if i == n else w)
                for i, w in enumerate(q.split() for q in r)) + z)
                for fld, c in (('AT', 5), ('SAVE', 6))]
    for x in ('0', '32', 'lastXun', 'Sun>=32', 'Sun=>1', 'Sun', '-1'):
        out += [('ON', 'Rule\tOdd\t1990\tmax\t-\tMar\t%s\t2:00\t1:00\tD\n'
                 'Rule\tOdd\t1990\tmax\t-\tOct\t3\t2:00\t0\tS\n' % x + z),
                ('DAY', 'Zone\tA/Odd\t1:00\t-\tA\t2001 Jan %s\n'
                 '\t\t\t2:00\t-\tB\n' % x)]
    # a day that falls into the year before or after
    for m, d, y in (('Jan', 'Sun<=1', 2000), ('Jan', 'Fri<=4', 2001),
                    ('Dec', 'Sun>=31', 2001), ('Dec', 'Fri>=31', 2002)):
        out += [('DAY', 'Zone\tA/Odd\t1:00\t-\tA\t%d %s %s\n'
                 '\t\t\t2:00\t-\tB\n' % (y, m, d)),
                ('ON', 'Rule\tOdd\t1990\tmax\t-\t%s\t%s\t2:00\t1:00\tD\n'
                 'Rule\tOdd\t1990\tmax\t-\tJul\t3\t2:00\t0\tS\n' % (
                     m, d) + z)]
    # a SAVE outside the emitted 4 bits
    for x in ('-1:15', '-1:30', '-2:00', '3:00', '3:15', '4:00', '12:00'):
        out += [('SAVE', 'Rule\tOdd\t1990\tmax\t-\tMar\t3\t2:00\t%s\tD\n'
                 'Rule\tOdd\t1990\tmax\t-\tOct\t3\t2:00\t0\tS\n' % x + z)]
    for y in ('1980', '1990'):
        out += [('ends', 'Zone\tA/Odd\t1:00\t-\tA\t%s\n' % y),
                ('ends', 'Zone\tA/Odd\t1:00\t-\tA\t1970\n'
                 '\t\t\t2:00\t-\tB\t%s\n' % y)]
    return out


def odd(items):
    """One zone that cannot be emitted, whatever the granularity, next to a
    good one: refused as a whole, or (basic) listed as removed."""
    from ..harness import Out
    out = Out()
    for k, scope, lang, more in items:
        what, t = odd_cases()[k]
        p = {'odd': [k, scope, lang, list(more)]}
        res = runner.run_main({'asia': 'Zone\tA/Good\t1:00\t-\tG\n' + t},
                              u.argv_for(scope, 2000, 2004, lang,
                                         more=MORE + tuple(more)))
        out.states += 1
        where = '%s %s %s\n%s' % (scope, lang, more, t)
        if not res.ok:
            if res.kind == 'hang' or res.files:
                out.bad('odd', '%s, files %s: %s' % (
                    res.kind, sorted(res.files), where), p)
            elif scope == 'basic' and 'Invalid lines' not in str(res.exc):
                # (a malformed line fails any compile while reading)
                out.bad('odd-refused', 'basic compile refused (%s) because of '
                        'one bad %s: %s' % (res.exc, what, where), p)
            else:
                out.outcome('refused, no file left')
            continue
        pols = ['Odd'] if 'Rule' in t else []
        j = account(res, lang, scope, ['A/Good', 'A/Odd'], [], pols, out, p)
        if 'A/Odd' in j['zones_map']:
            out.bad('odd-kept', 'a zone with a bad %s is emitted: %s' % (
                what, where), p)
        elif scope != 'basic':
            out.bad('dropped', 'compile succeeded without A/Odd: ' + where, p)
    return out


def check(ctx):
    t = ctx.thorough
    kinds = list(mix.KINDS)
    langs = ('python', 'arduino', 'c', 'go')
    jobs = []
    k = 0

    def put(ks, ls, un, inc, scopes=('basic', 'extended', 'complete'),
            stricts=(True, False), every=False):
        nonlocal k
        for sc in scopes:
            for st in stricts:
                av = [x for x in langs if x != 'go' or sc == 'complete']
                for lg in (av if every else [av[k % len(av)]]):
                    jobs.append((ks, ls, un, inc, sc, st, lg))
                k += 1
    for a in kinds:
        for ls in link_sets(1, True).states:
            for un in (False, True):
                put((a,), ls, un, None, every=True)
    pairs = list(itertools.combinations_with_replacement(kinds, 2))
    for ks in pairs:
        l2 = link_sets(2, False)
        ctx.transitions += l2.transitions
        for ls in l2.states:
            if t or ls in ((), (('L/A0', 0),), (('L/A0', 0), ('L/A1', 1))):
                put(ks, ls, len(ls) % 2 == 1, None,
                    stricts=(True, False) if t else (k % 2 == 0,))
    # include lists
    few = kinds if t else ['fixed', 'two', 'month', 'mixed', 'badsave',
                           'seconds', 'half']
    for ks in itertools.combinations_with_replacement(few, 2):
        ls = (('L/A0', 0), ('L/A1', 1))
        names = [mix.zname(0), mix.zname(1), 'L/A0', 'L/A1', 'Not/There']
        for inc in explore.subsets(names, 1, 5).states:
            put(ks, ls, True, list(inc), stricts=(True,))
    put(('fixed',), (('L/A0', 0),), False, [], every=True)
    if t:
        for ks in itertools.combinations(kinds, 3):
            put(ks, (('L/A0', 0), ('L/A2', 2)), True, None, stricts=(True,))
    ctx.notes['databases x options'] = len(jobs)
    ctx.pmap(batch, list(explore.batches(jobs, 60)), 'A')
    nn = near_names()
    jobs = []
    for sz in (1, 2):
        for k, inc in enumerate(itertools.combinations(nn, sz)):
            if sz == 2 and not t and not (
                    inc[0] in NEAR_ZONES and inc[0][:3] == inc[1][:3]):
                continue
            jobs.append((inc, ('basic', 'extended', 'complete')[k % 3],
                         langs[k % 3]))
    ctx.notes['near include lists'] = len(jobs)
    ctx.transitions += len(jobs)
    ctx.pmap(near, list(explore.batches(jobs, 60)), 'near')
    jobs = [(n, sc, 'python' if sc == 'complete' else ('arduino', 'c', 'python')
             [(n + g) % 3], m) for n in range(len(odd_cases()))
            for sc in ('basic', 'extended', 'complete')
            for g, m in enumerate(GRAINS)]
    ctx.notes['unsupported fields x granularities'] = len(jobs)
    ctx.transitions += len(jobs)
    ctx.pmap(odd, list(explore.batches(jobs, 60)), 'odd')
    items = []
    for sc in ('basic', 'extended', 'complete'):
        for w in ((2000, 2050), (2000, 2004), (1981, 2000), (2030, 2040)):
            for i, lg in enumerate(('python', 'arduino', 'c', 'go')):
                if lg == 'go' and sc != 'complete':
                    continue
                if t or w == (2000, 2050) or i == w[0] % 3:
                    items += [(sc, w[0], w[1], lg, st)
                              for st in (True, False)]
    ctx.pmap(real, items, 'C')


def replay(p):
    if 'near' in p:
        o = near([tuple(p['near'])])
    elif 'odd' in p:
        o = odd([tuple(p['odd'])])
    elif 'real' in p:
        o = real(tuple(p['real']))
    else:
        o = batch([(tuple(p['kinds']), tuple(map(tuple, p['links'])),
                    p['unused'], p['include'], p['scope'], p['strict'],
                    p['lang'])])
    return [m for _, m, _ in o.viol]
