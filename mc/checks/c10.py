"""C10: ids are djb2 hashes; registries are complete and sorted."""
import itertools
import json
from .. import decode_c, decode_go, decode_py, explore, hdr, runner
from .. import universe as u
from ..zonesrc import real_tzdb

ID = 'C10'
BOUNDS = (
    'A: the hash function on every string of <=3 (thorough: <=4) characters '
    'over a 40-character alphabet and every TZDB name; B: every database of '
    '1..4 zones and 0..3 links (any targets) over 8 zone and 5 link names, in '
    'every language and scope, decoded from the artifacts, also over names '
    'whose ids are 0 (refused), 1, 2^31-1, 2^31 and 2^32-1; C: the real TZDB '
    'in every language and scope, whole and in include-list slices')
ASSUMPTIONS = ['djb2 over the (ASCII) characters with 32-bit wrap-around is the '
               'documented id function']
ALPHA = 'ABCDEGHIKMNPRSTUVYZabceghiknoprstuy/_-+019'
ZN = ['Zz/Last', 'Aa/First', 'Etc/GMT+1', 'B', 'America/Port-au-Prince',
      'Q/Long_Name_With_Many_Parts/And_More', 'CST6CDT', 'GMT0']
# names whose ids are 0, 1, 2^31-1, 2^31 and 2^32-1
EDGE = ['A/oMSehzu', 'A/oMSehzv', 'A/LPHammk', 'A/LPHamml', 'A/oMSehzt']
LN = ['A', 'zulu', 'Aa/Firs', 'US/East-Indiana', 'GMT-0']


def hashes(item):
    from ..harness import Out
    out = Out()
    try:
        from acetimetools.transformer.transformer import hash_name
    except ImportError:     # elsewhere: the compiles decide alone
        out.outcome('hash function not found under its name')
        return out
    if isinstance(item, str):
        n = 4 if len(item) == 2 else 3
        strs = (item + ''.join(p) for k in range(0, n - len(item) + 1)
                for p in itertools.product(ALPHA, repeat=k))
    else:
        strs = item
    for s in strs:
        out.states += 1
        h = hash_name(s)
        if h != hdr.djb2(s):
            out.bad('hash', 'hash_name(%r) = %#x, expected %#x' % (
                s, h, hdr.djb2(s)), {'hash': s})
    out.outcome('hash agrees', out.states - len(out.viol))
    return out


def text(zones, links):
    t = ''
    for i, z in enumerate(zones):
        t += 'Zone\t%s\t%d:00\t-\tA%s\n' % (z, i + 1, 'BCDEFGH'[i])
    for l, z in links:
        t += 'Link\t%s\t%s\n' % (z, l)
    return t


def sorted_ids(names):
    return sorted(names, key=hdr.djb2)


def problems(files, lang, scope, zones, links):
    """zones: list; links: {link: target}; what the database must contain.
    Yields messages."""
    names = list(zones) + list(links)
    want = {n: hdr.djb2(n) for n in names}
    if lang == 'json':
        j = json.loads(files['zonedb.json'])
        if j['zone_ids'] != {n: want[n] for n in zones}:
            yield 'JSON zone_ids %s' % j['zone_ids']
        if j['link_ids'] != {n: want[n] for n in links}:
            yield 'JSON link_ids %s' % j['link_ids']
        return
    if lang == 'python':
        db, zreg, reg = decode_py.decode(files)
        if set(zreg) != set(zones):
            yield 'ZONE_REGISTRY holds %s' % sorted(zreg)
        if set(reg) != set(names):
            yield 'ZONE_AND_LINK_REGISTRY holds %s' % sorted(reg)
        for n in reg:
            if reg[n]['name'] != n:
                yield 'registry entry %s is called %s' % (n, reg[n]['name'])
            if n in zreg and zreg[n] is not reg[n]:
                yield '%s differs between the two registries' % n
        if db.links != dict(links):
            yield 'links lead to %s' % db.links
        return
    if lang == 'go':
        T = decode_go.decode(files)
        order = sorted_ids(names)
        if T.order != order:
            yield 'Go infos are in order %s' % T.order
        if T.ids != want:
            yield 'Go ids are %s' % {n: hex(i) for n, i in T.ids.items()}
        if T.db.links != dict(links):
            yield 'Go links lead to %s' % T.db.links
        if len(T.id_consts) != len(names) or \
                sorted(T.id_consts.values()) != sorted(want.values()):
            yield 'Go ZoneID constants %s' % T.id_consts
        for s, v in T.index_consts.items():
            if not 0 <= v < len(T.order) or \
                    T.id_consts.get(s) != T.ids[T.order[v]]:
                yield 'ZoneInfoIndex%s = %d is not the entry of ZoneID%s' % (
                    s, v, s)
        if len(T.index_consts) != len(names):
            yield '%d ZoneInfoIndex constants' % len(T.index_consts)
        return
    T = decode_c.decode(files, lang, scope)
    if T.ids != want:
        yield 'ids are %s' % {n: hex(i) for n, i in T.ids.items()}
    if T.db.links != dict(links):
        yield 'links lead to %s' % T.db.links
    pre = 'k' if lang == 'arduino' else 'kzonedb'
    exp = {pre + 'ZoneRegistry': sorted_ids(zones),
           pre + 'ZoneAndLinkRegistry': sorted_ids(names)}
    if T.registries != exp:
        yield 'registries are %s' % T.registries
    com = hdr.registry_comments(files, lang)
    sizes = hdr.registry_sizes(files, lang)
    for r, ns in exp.items():
        k = r[len(pre):]
        if sizes[k] != (len(ns), len(ns)):
            yield '%s has %d entries, declared %s' % (r, len(ns), sizes[k])
        c = com.get(r, [])
        if [x[1] for x in c] != [want[n] for n in ns]:
            yield '%s: ids in comments %s' % (r, c)
        if [x[2].split(' -> ')[0] for x in c] != ns:
            yield '%s: names in comments %s' % (r, c)
    consts = hdr.id_consts(files, lang)
    if {c: v for v, c in consts.values()} != want:
        yield 'zone id constants %s' % consts
    ext = hdr.externs(files, lang)
    for n, sym in T.symbol_of.items():
        suffix = sym[len(pre + 'Zone'):]
        if suffix not in consts or consts[suffix][0] != want.get(n):
            yield 'no id constant for %s (%s)' % (n, sym)
        if suffix not in ext:
            yield '%s is not declared' % sym


ALL = [(l, s) for l in ('arduino', 'c', 'python', 'go', 'json')
       for s in ('complete', 'extended', 'basic')
       if (l, s) not in (('go', 'extended'), ('go', 'basic'))]


def one(files, zones, links, lang, scope, out, p, include=None, more=()):
    argv = u.argv_for(scope, 2000, 2050, 'python' if lang == 'json' else lang,
                      actions='json' if lang == 'json' else 'zonedb',
                      more=('--ignore_buf_size_too_large',) + tuple(more))
    res = runner.run_main(files, argv, include=include)
    out.states += 1
    if not res.ok:
        out.bad('refused', '%s %s refused: %s' % (lang, scope, res.exc), p)
        return
    out.traces += 1
    for m in problems(res.files, lang, scope, zones, links):
        out.bad('%s:%s' % (lang, m.split(' ')[0]), '%s %s zones=%s links=%s:'
                ' %s' % (lang, scope, list(zones)[:6], list(
                    dict(links).items())[:6], m), p)
    else:
        out.outcome('ids and registries agree')


def small(item):
    from ..harness import Out
    out = Out()
    dbs, langs = item
    for zones, links in dbs:
        for lang, scope in langs:
            one({'africa': text(zones, links)}, list(zones), dict(links),
                lang, scope, out, {'zones': zones, 'links': links,
                                   'lang': lang, 'scope': scope})
    return out


def edge(item):
    """A database over names with extreme ids; 0 stands for no zone."""
    from ..harness import Out
    out = Out()
    zones, links, lang, scope = item
    names = list(zones) + [l for l, _ in links]
    if EDGE[0] not in names:
        one({'africa': text(zones, links)}, list(zones), dict(links), lang,
            scope, out, {'edge': list(item)})
        return out
    out.states += 1
    out.traces += 1
    res = runner.run_main({'africa': text(zones, links)}, u.argv_for(
        scope, 2000, 2050, 'python' if lang == 'json' else lang,
        actions='json' if lang == 'json' else 'zonedb',
        more=('--ignore_buf_size_too_large',)))
    if res.ok or res.files:
        out.bad('zero', '%s %s: the id of %s is 0, and it is emitted' % (
            lang, scope, EDGE[0]), {'edge': list(item)})
    else:
        out.outcome('id 0 refused')
    return out


def real(item):
    from ..harness import Out
    out = Out()
    lang, scope, part, parts = item
    files = real_tzdb()
    from .. import tzmodel
    src = tzmodel.parse_source(files)
    inc = None
    zones, links = set(src.zones), dict(src.links)
    if parts > 1:
        names = sorted(src.zones)[part::parts]
        zones = set(names)
        ls = [l for l in sorted(links) if links[l] in zones][::2]
        links = {l: links[l] for l in ls}
        inc = '\n'.join(names + ls) + '\n'
    if scope == 'basic':
        # which zones basic keeps is C14's business: take them from the JSON
        res = runner.run_main(files, u.argv_for(
            'basic', 2000, 2050, 'python', actions='json', more=(
                '--ignore_buf_size_too_large', '--nostrict')), include=inc)
        if not res.ok:
            out.bad('refused', 'real TZDB basic: %s' % res.exc,
                    {'real': list(item)})
            return out
        j = json.loads(res.files['zonedb.json'])
        zones, links = set(j['zones_map']), j['links_map']
    one(files, zones, links, lang, scope, out, {'real': list(item)}, inc,
        more=('--nostrict',))
    return out


def databases(maxz, maxl, zn, ln):
    """Every database within the bounds."""
    out = []
    zs = explore.subsets(zn, 1, maxz)
    ls = explore.subsets(ln, 0, maxl)
    for z in zs.states:
        for l in ls.states:
            for t in itertools.product(z, repeat=len(l)):
                out.append((z, tuple(zip(l, t))))
    return out, zs.transitions + ls.transitions


def check(ctx):
    t = ctx.thorough
    if t:
        pre = [a + b for a in ALPHA for b in ALPHA]
    else:
        pre = list(ALPHA)
    from .. import tzmodel
    src = tzmodel.parse_source(real_tzdb())
    names = sorted(src.zones) + sorted(src.links)
    names += [n[:k] for n in names for k in range(len(n))]
    ctx.pmap(hashes, pre + [names, ['', '~', 'x' * 1000]], 'A')
    dbs, tr = databases(2, 2, ZN[:4], LN[:3])
    ctx.transitions += tr
    more, tr = databases(3, 1, ZN, LN[:1])
    ctx.transitions += tr
    few, tr = databases(4, 3, ZN[:6], LN) if t else databases(
        3, 2, ZN[:4], LN[:4])
    ctx.transitions += tr
    allb = list(dict.fromkeys(dbs + more + few))
    ctx.notes['databases'] = len(allb)
    main = [('arduino', 'complete'), ('c', 'complete'), ('go', 'complete'),
            ('python', 'complete'), ('json', 'complete')]
    items = [(b, main) for b in explore.batches(allb, 12)]
    items += [(b, [x for x in ALL if x not in main])
              for b in explore.batches(allb[:3000] if t else dbs[::6], 12)]
    ctx.pmap(small, items, 'B')
    ed = []
    for z in explore.subsets(EDGE + ['B'], 1, 2).states:
        for l in explore.subsets([x for x in EDGE if x not in z], 0,
                                 2).states:
            for r in (0, -1):
                ed.append((z, tuple((x, z[r]) for x in l)))
    ed = list(dict.fromkeys(ed))
    ctx.pmap(edge, [x + y for x in (ed if t else ed[::2]) for y in (
        ALL if t else main)], 'edge')
    ctx.pmap(real, [(l, s, 0, 1) for l, s in ALL] +
             [(l, 'complete', k, 7 if t else 31)
              for l in ('arduino', 'c', 'go', 'python')
              for k in (range(7) if t else (0, 5))], 'C')


def replay(p):
    if 'hash' in p:
        o = hashes([p['hash']])
    elif 'edge' in p:
        z, l, lang, scope = p['edge']
        o = edge((tuple(z), tuple(map(tuple, l)), lang, scope))
    elif 'real' in p:
        o = real(tuple(p['real']))
    else:
        o = small(([(tuple(p['zones']), tuple(map(tuple, p['links'])))],
                   [(p['lang'], p['scope'])]))
    return [m for _, m, _ in o.viol]
