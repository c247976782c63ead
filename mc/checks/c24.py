"""C24: ambiguous or unsupported name structures are refused."""
import itertools
import re
from .. import decode_c, decode_go, decode_py, explore, hdr, runner
from .. import universe as u

ID = 'C24'
BOUNDS = (
    'A: every pair of names of <=2 (thorough: <=3, and triples) characters '
    'over letters, digit and separators, as zone+zone, zone+link, link+link '
    'and policy+policy; every pair of a name and a generated-symbol name; '
    'B: every link graph on <=3 (thorough: 4) names with <=3 edges, including '
    'chains, cycles, self links and repeated definitions; C: the same sets in '
    'every language and scope; every accepted set is decoded and its symbols '
    'are compared')
ASSUMPTIONS = ['symbols are the documented normalisation: "+" becomes _PLUS_, '
               'every other character outside [A-Za-z0-9_] becomes _']
MORE = ('--ignore_buf_size_too_large',)
RESERVED = ['Context', 'Registry', 'RegistrySize', 'AndLinkRegistry',
            'AndLinkRegistrySize']


def norm(n):
    return re.sub('[^A-Za-z0-9_]', '_', n.replace('+', '_PLUS_'))


def must_refuse(zones, links, policies):
    """Reason, or None.  zones: names; links: [(link, target)]; policies"""
    names = list(zones) + [l for l, _ in links]
    if len({hdr.djb2(n) for n in names}) < len(names):
        return 'same id'
    if len({norm(n) for n in names}) < len(names):
        return 'same symbol'
    if len({norm(n) for n in policies}) < len(policies):
        return 'same policy symbol'
    if {t for _, t in links} & {l for l, _ in links}:
        return 'link to link'
    derived = set(RESERVED)
    derived |= {p + norm(n) for n in names
                for p in ('Id', 'Name', 'Era', 'BufSize')}
    derived |= {p + norm(n) for n in policies for p in ('Policy', 'Rules')}
    if derived & {norm(n) for n in names}:
        return 'symbol of another item'
    return None


def text(zones, links, policies):
    t = ''
    for p in policies:
        t += 'Rule\t%s\t1990\tmax\t-\tMar\t1\t0:00\t1:00\tD\n' % p
        t += 'Rule\t%s\t1990\tmax\t-\tOct\t1\t0:00\t0\tS\n' % p
    for i, z in enumerate(zones):
        p = policies[i % len(policies)] if policies else '-'
        t += 'Zone\t%s\t1:00\t%s\tA%s\n' % (z, p, '%s' if policies else '')
    if len(policies) > len(zones):
        for i, p in enumerate(policies[len(zones):]):
            t += 'Zone\tZz%d\t1:00\t%s\tB%%s\n' % (i, p)
    for l, z in links:
        t += 'Link\t%s\t%s\n' % (z, l)
    return t


def symbols(files, lang, scope):
    """-> {name: symbol} of zones and links (duplicates raise Artifact)."""
    if lang in ('arduino', 'c'):
        T = decode_c.decode(files, lang, scope)
        hdr.id_consts(files, lang)
        hdr.buf_sizes(files, lang)
        ext = hdr.externs(files, lang)
        return T.symbol_of
    if lang == 'go':
        T = decode_go.decode(files)
        by_id = {}
        for s, v in T.id_consts.items():
            if v in by_id:
                raise decode_py.Artifact('two Go symbols for id %#x' % v)
            by_id[v] = s
        return {n: by_id.get(i) for n, i in T.ids.items()}
    ns = files['zone_infos.py'].decode()
    defs = re.findall(r'^(ZONE_\w+)\b.*= ', ns, re.M)
    if len(defs) != len(set(defs)):
        raise decode_py.Artifact('a Python symbol is defined twice')
    pol = files['zone_policies.py'].decode()
    pdefs = re.findall(r'^(ZONE_\w+)\b.*= ', pol, re.M)
    if len(pdefs) != len(set(pdefs)):
        raise decode_py.Artifact('a Python symbol is defined twice')
    db, _, reg = decode_py.decode(files)
    env = decode_py.load_modules(files)[1]
    by = {}
    for k, v in env.items():
        if k.startswith('ZONE_INFO_') and isinstance(v, dict) and \
                isinstance(v.get('name'), str):
            by[v['name']] = k
    if set(by) != set(reg):
        raise decode_py.Artifact('infos %s registry %s' % (
            sorted(by)[:5], sorted(reg)[:5]))
    return by


def one(zones, links, policies, lang, scope, out):
    p = {'z': zones, 'l': links, 'p': policies, 'lang': lang, 'scope': scope}
    t = text(zones, links, policies)
    all_z = list(zones) + ['Zz%d' % i for i in range(
        max(0, len(policies) - len(zones)))]
    why = must_refuse(all_z, links, policies)
    res = runner.run_main({'africa': t}, u.argv_for(
        scope, 2000, 2004, lang, more=MORE))
    out.states += 1
    if res.kind == 'hang':
        out.bad('hang', t, p)
        return
    if why:
        if res.ok:
            out.bad('accepted:' + why, '%s: accepted although %s:\n%s' % (
                lang, why, t), p)
        elif res.files:
            out.bad('files:' + why, '%s: files written before refusing: %s' % (
                lang, sorted(res.files)), p)
        else:
            out.outcome('refused: ' + why)
        return
    if not res.ok:
        out.bad('refused', '%s %s: unambiguous names refused: %s\n%s' % (
            lang, scope, res.exc, t), p)
        return
    out.traces += 1
    s = symbols(res.files, lang, scope)
    names = set(all_z) | {l for l, _ in links}
    if set(s) != names:
        out.bad('lost', '%s: names %s, emitted %s' % (
            lang, sorted(names), sorted(s)), p)
    elif len(set(s.values())) != len(names):
        out.bad('symbols', '%s: symbols %s' % (lang, s), p)
    else:
        out.outcome('accepted, symbols distinct')


def batch(item):
    from ..harness import Out
    out = Out()
    for z, l, p, lang, scope in item:
        one(list(z), [list(x) for x in l], list(p), lang, scope, out)
    return out


def short_names(n, al):
    return [''.join(p) for k in range(1, n + 1)
            for p in itertools.product(al, repeat=k)]


def graphs(names, max_links):
    """Every combination of zone definitions and links over a few names."""
    edges = [(a, b) for a in names for b in names]

    def succ(s):
        zs, ls = s
        if len(zs) < 3:
            for n in names:
                yield zs + (n,), ls
        if len(ls) < max_links:
            for e in edges:
                yield zs, ls + (e,)
    return explore.reach([((), ())], succ, 2 + max_links,
                         canon=lambda s: (tuple(sorted(s[0])), s[1]))


def check(ctx):
    t = ctx.thorough
    langs = [('python', 'complete'), ('arduino', 'complete'),
             ('c', 'complete'), ('go', 'complete')]
    every = langs + [(l, s) for l in ('python', 'arduino', 'c')
                     for s in ('extended', 'basic')]
    jobs = []
    ns = short_names(2, 'Ab1-_+/.B' if t else 'AbB-_+/')
    k = 0
    for a, b in itertools.combinations_with_replacement(ns, 2):
        shapes = [((a, b), (), ()), (('Q', a), ((b, 'Q'),), ()),
                  (('Q',), ((a, 'Q'), (b, 'Q')), ()),
                  (('Q', 'R'), (), (a, b))]
        hit = must_refuse((a, b), (), ())
        for sh in shapes:
            if sh[2] and (a == b or '-' in (a, b)):
                continue
            for lg, sc in (langs if hit or t else [langs[k % 4]]):
                k += 1
                jobs.append(sh + (lg, sc))
    pre = ['Id', 'Name', 'Era', 'BufSize', 'Policy', 'Rules', 'Info', 'ID',
           'id', 'Zone', 'InfoIndex', '']
    for x in pre:
        for y in ('A', 'B/C', 'Context', 'Registry', 'RegistrySize', 'Count',
                  'AndLinkRegistry', 'AndLinkRegistrySize', '_REGISTRY'):
            for z in ('A', 'B/C', 'P'):
                if x + y == z:
                    continue
                for lg, sc in langs:
                    jobs.append(((x + y, z), (), ('A', 'P'), lg, sc))
                    jobs.append(((z,), ((x + y, z),), ('B', 'B_C'), lg, sc))
    if t:
        nn = short_names(3, 'Ab-+/B')
        for a, b in itertools.combinations(nn, 2):
            if len(a) + len(b) > 4:
                jobs.append(((a, b), (), ()) + langs[len(jobs) % 4])
        n3 = short_names(1, 'AB') + ['A-', 'A_', 'A/', 'Ab', 'BA', 'A+',
                                     'A_PLUS_', 'A.B', 'A/B', 'A_B']
        for c in itertools.combinations(n3, 3):
            for sh in ((c, (), ()), (c[:2], ((c[2], c[0]),), ()),
                       (c[:1], ((c[1], c[0]), (c[2], c[0])), ()),
                       (('Q', 'R', 'S'), (), c)):
                for x in every:
                    jobs.append(sh + x)
    ctx.notes['name sets'] = len(jobs)
    # B: link graphs: only name structures in which every target exists
    g = graphs(('A', 'B', 'C', 'D') if t else ('A', 'B', 'C'), 3 if t else 2)
    ctx.transitions += g.transitions
    n = 0
    for zs, ls in g.states:
        known = set(zs) | {l for l, _ in ls}
        if not zs or any(b not in known for _, b in ls):
            continue
        n += 1
        for x in (langs if not t else every) if len(ls) < 3 else langs[:1]:
            jobs.append((zs, ls, ()) + x)
    ctx.notes['link graphs'] = n
    # C
    for a, b in (('A-B', 'A_B'), ('A+B', 'A_PLUS_B'), ('Ab', 'BA'),
                 ('Etc/Ab', 'Etc/BA'), ('A/B', 'A_B'), ('A.B', 'A/B'),
                 ('GMT+1', 'GMT-1'), ('GMT-1', 'GMT_1'), ('a', 'A')):
        for sh in (((a, b), (), ()), ((b, a), (), ()),
                   (('Q', a), ((b, 'Q'),), ()), (('Q', b), ((a, 'Q'),), ()),
                   (('Q',), ((a, 'Q'), (b, 'Q')), ()),
                   (('Q', 'R'), (), (a, b))):
            for x in every:
                jobs.append(sh + x)
    ctx.pmap(batch, list(explore.batches(jobs, 60)), 'names')


def replay(p):
    o = batch([(p['z'], p['l'], p['p'], p['lang'], p['scope'])])
    return [m for _, m, _ in o.viol]
