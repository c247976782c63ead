"""C08: Go tables encode each record losslessly and in range."""
import itertools
from .. import decode_go, decode_py, explore, gobind, runner, tzmodel
from .. import universe as u
from . import c07, c09

ID = 'C08'
BOUNDS = (
    'A: every field of eras and rules through its whole domain (the sweeps '
    'of C07), decoded from the byte strings through the offset tables, '
    'compared with the source and with the companion records; B: every total '
    'size 0..270 of the letters (quick: around the limit), sizes of formats '
    'and names around 65535 bytes, 1..260 policies (quick: around the '
    'limit), rules and eras around 65535; C: numbers and orders of zones, '
    'links, policies and eras: every assignment of up to 3 zones to up to 2 '
    'policies with every set of links; D: the tables of A to C and of the '
    'real TZDB as the Go compiler reads them, against the decoder')
ASSUMPTIONS = [
    'the field order and packing are those of the acetimego records the '
    'companion test files spell out',
]
MORE = c07.MORE
ARGV = MORE


def decoder(files):
    """The database in the byte strings; raises Artifact when the records,
    constants, types or order do not agree with them."""
    T = decode_go.decode(files)
    audit(T)
    return T.db


def audit(T):
    bad = decode_py.Artifact
    g = T.g
    for what, rec in (('ZoneRuleRecords', T.rule_rec),
                      ('ZonePolicyRecords', T.policy_rec),
                      ('ZoneEraRecords', T.era_rec),
                      ('ZoneInfoRecords', T.info_rec)):
        if T.records[what] != rec:
            a = T.records[what] or []
            d = next(((i, x, y) for i, (x, y) in enumerate(zip(a, rec))
                      if x != y), ('lengths', len(a), len(rec)))
            raise bad('%s says %s, the data %s' % (what, d[1], d[2]))
    for t, n in (('Letter', 255), ('Format', 65535), ('Name', 65535)):
        o = g[t + 'Offsets']
        if any(not 0 <= x <= n for x in o):
            raise bad('%sOffsets exceeds its type' % t)
        if g[t + 'Data'][o[-1]:] != b'~':
            raise bad('%sData ends in %r' % (t, g[t + 'Data'][o[-1]:]))
    for n, lim in (('Rule', 65535), ('Era', 65535), ('Info', 65535),
                   ('Policy', 65535)):
        if not 0 <= g['Zone%sCount' % n] <= lim:
            raise bad('Zone%sCount exceeds its type' % n)
    ids = [T.ids[n] for n in T.order]
    if ids != sorted(ids) or len(set(ids)) != len(ids):
        raise bad('records are not sorted by id')
    if len(T.id_consts) != len(ids) or \
            sorted(T.id_consts.values()) != ids:
        raise bad('ID constants are not the ids')
    if sorted(T.index_consts.values()) != list(range(len(ids))):
        raise bad('index constants are not the indexes')
    for k, i in T.index_consts.items():
        if T.id_consts.get(k) != ids[i]:
            raise bad('index constant %s names another zone' % k)
    for a in (T.context, g['RecordContext']):
        for t in ('Letter', 'Format', 'Name'):
            for s in ('Data', 'Offsets'):
                v = a[t + s]
                if v != g[t + s] and v != ('ref', t + s):
                    raise bad('context %s%s' % (t, s))
    for k in ('StartYear', 'UntilYear', 'StartYearAccurate',
              'UntilYearAccurate', 'MaxTransitions'):
        if T.context[k] != g['RecordContext'][k]:
            raise bad('the contexts differ in %s' % k)
    # every name and policy is used, every letter and format is there once
    for what, tab in (('letter', T.letters), ('format', T.formats)):
        if len(set(tab)) != len(tab):
            raise bad('%s entry twice' % what)
    for what, tab, rec, f in (
            ('name', T.names, T.info_rec, 'NameIndex'),
            ('policy', T.policy_rec, T.era_rec, 'PolicyIndex')):
        used = {r[f] for r in rec} | ({0} if what != 'name' else set())
        if used != set(range(len(tab))):
            raise bad('%s entries unused: %s' % (
                what, sorted(set(range(len(tab))) - used)[:5]))
    for rec, i, c, n in ((T.policy_rec, 'RuleIndex', 'RuleCount',
                          len(T.rule_rec)),
                         (T.info_rec, 'EraIndex', 'EraCount',
                          len(T.era_rec))):
        spans = sorted((r[i], r[c]) for r in rec if r[c])
        end = 0
        for a, b in spans:
            if a != end:
                raise bad('%s %d does not follow %d' % (i, a, end))
            end = a + b
        if end != n:
            raise bad('%s covers %d of %d' % (i, end, n))


# --- B: sizes around the limits -------------------------------------------

def words(n, size, start=0):
    """Distinct words with a total of n characters, `size` each except the
    last ones."""
    out, c = [], 0
    abc = 'abcdefghijklmnopqrstuvwxyz'
    while n:
        k = min(size, n)
        if 0 < n - k < 4 and k > 4:
            k -= 4
        i = start + len(out)
        w = ''
        for _ in range(3):
            w += abc[i % 26]
            i //= 26
        w = w[:k] if k < 3 else (w + 'X' * k)[:k]
        out.append(w)
        n -= k
    if len(set(out)) != len(out):
        raise Exception('words: %s' % out)
    return out


def sized(kind, n):
    """Source whose size of `kind` is n."""
    if kind == 'letters':           # total bytes of letters
        t = ''
        for i, w in enumerate(words(n, 6)):
            t += 'Rule\tP%d\t1990\tmax\t-\tMar\t1\t2:00\t1:00\t%s\n' % (i, w)
            t += 'Rule\tP%d\t1990\tmax\t-\tOct\t1\t2:00\t0\t-\n' % i
            t += 'Zone\tZ/N%d\t1:00\tP%d\tA%%s\n' % (i, i)
        return t or 'Zone\tZ/N\t1:00\t-\tG\n'
    if kind == 'formats':           # total bytes of formats
        return ''.join('Zone\tZ/N%d\t1:00\t-\t%s\n' % (i, w)
                       for i, w in enumerate(words(n, 900)))
    if kind == 'names':             # total bytes of names
        ws = words(n, 220 if n > 1000 else n // 4)
        return ''.join('Zone\t%s\t1:00\t-\tG\n' % w for w in ws[:-2]) + \
            ''.join('Link\t%s\t%s\n' % (ws[i], w)
                    for i, w in enumerate(ws[-2:]))
    if kind == 'policies':          # n policies without the null policy
        t = ''
        for i in range(n):
            t += 'Rule\tP%d\t1990\tmax\t-\tMar\t%d\t2:00\t1:00\tS\n' % (
                i, i % 28 + 1)
            t += 'Rule\tP%d\t1990\tmax\t-\tOct\t1\t2:00\t0\t-\n' % i
            t += 'Zone\tZ/N%d\t1:00\tP%d\tA%%s\n' % (i, i)
        return t
    if kind == 'rules':             # n rules with the anchors
        t, i = [], 0
        while n:
            k = min(n, 400)
            if 0 < n - k < 3:
                k -= 3
            for r in range(k - 1):
                t.append('Rule\tP%d\t%d\tonly\t-\t%s\t%d\t2:00\t%s' % (
                    i, 1001 + r // 2, 'Oct' if r % 2 == 0 else 'Mar',
                    1 + r % 20, '0\tS' if r % 2 == 0 else '1:00\tD'))
            t.append('Zone\tZ/N%d\t1:00\tP%d\tA%%s' % (i, i))
            n -= k
            i += 1
        return '\n'.join(t) + '\n'
    if kind == 'eras':
        t, i = [], 0
        while n:
            k = min(n, 400)
            z = 'Zone\tZ/N%d' % i
            for r in range(k - 1):
                t.append('%s\t%d:%02d\t-\tF%d\t%d %s' % (
                    z, r % 12, r % 4 * 15, r % 7, 1001 + r // 2,
                    'Jan 5' if r % 2 == 0 else 'Jul 5'))
                z = '\t\t'
            t.append('%s\t1:00\t-\tA' % z)
            n -= k
            i += 1
        return '\n'.join(t) + '\n'


# (must be accepted up to, must be refused beyond): one more would wrap
LIMIT = {'letters': (255, 255), 'formats': (65535, 65535),
         'names': (65535, 65535), 'policies': (254, 255),
         'rules': (65535, 65535), 'eras': (65535, 65535)}


def sizes(item):
    from ..harness import Out
    out = Out()
    kind, n = item
    out.states += 1
    out.traces += 1
    files = {'asia': sized(kind, n)}
    p = {'part': 'S', 'item': list(item)}
    res = runner.run_main(files, u.argv_for('complete', 1000, 2224, 'go',
                                            actions='zonedb', more=MORE),
                          timeout=600)
    fits, over = LIMIT[kind]
    out.outcome('%s %s' % (kind, 'compiled' if res.ok else 'refused'))
    if not res.ok:
        if n <= fits:
            out.bad('refused:' + kind, '%d %s refused: %s' % (
                n, kind, res.exc), p)
        if not res.exc or res.kind != 'exc':
            out.bad('message:' + kind, '%s %s' % (res.kind, res.exc), p)
        if res.files:
            out.bad('partial:' + kind, 'files written: %s' % sorted(
                res.files), p)
        return out
    if n > over:
        out.bad('limit:' + kind, '%d %s accepted' % (n, kind), p)
    try:
        db = decoder(res.files)
    except decode_py.Artifact as e:
        out.bad('artifact:' + kind, '%d %s: %s' % (n, kind, e), p)
        return out
    d = c07.whole(tzmodel.parse_source(files), db)
    if d:
        out.bad('size:' + kind, '%d %s: %s' % (n, kind, d[:2000]), p)
    return out


# --- C: composition ---------------------------------------------------------

NAMES = ['A/B', 'Zed', 'M/North', 'Q/a', 'Etc/GMT+1']
BODY = {None: '1:00\t-\tG', 'P': '1:00\tP\tA%s', 'Q': '-2:30:15\tQ\tB%sT',
        'PQ': '1:00\tP\tA%s\t1999 Mar 3 2:00u\n\t\t2:00\tQ\tC%s',
        'nP': '0:30\t-\tLMT\t1991\n\t\t1:00\tP\tA%s'}
POLS = ('Rule\tP\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tS\n'
        'Rule\tP\t1990\tmax\t-\tOct\tlastSun\t1:00u\t0\t-\n'
        'Rule\tQ\t1985\t1990\t-\tApr\tSun>=1\t2:00s\t0:30\tSS\n'
        'Rule\tQ\t1985\t1990\t-\tSep\t30\t2:00s\t0\tT\n'
        'Rule\tQ\t1991\tmax\t-\tSep\t30\t2:00s\t0\tT\n')


def compositions(level):
    """(text) with every zone body assignment and link graph."""
    out = []
    for k in (1, 2, 3):
        for perm in itertools.permutations(NAMES[:4 if level else 3], k):
            for bodies in itertools.product(BODY, repeat=k):
                if k == 3 and not level and (bodies.count(None) or
                                             bodies.count('PQ')):
                    continue
                out.append((perm, bodies))
    return out


def comp_text(perm, bodies, links):
    t = ''.join('Zone\t%s\t%s\n' % (n, BODY[b])
                for n, b in zip(perm, bodies))
    for i, l in enumerate(links):
        t += 'Link\t%s\tL/%s\n' % (perm[l], 'xab'[i])
    return POLS + t


def comps(batch):
    from ..harness import Out
    out = Out()
    for perm, bodies, links in batch:
        out.states += 1
        out.traces += 1
        t = comp_text(perm, bodies, links)
        p = {'part': 'C', 'item': [perm, bodies, links]}
        res = runner.run_main({'asia': t}, u.argv_for(
            'complete', 1980, 2100, 'go', actions='zonedb', more=MORE))
        if not res.ok:
            out.bad('refused', '%s\n%s' % (res.exc, t), p)
            continue
        try:
            db = decoder(res.files)
        except decode_py.Artifact as e:
            out.bad('artifact', '%s\n%s' % (e, t), p)
            continue
        d = c07.whole(tzmodel.parse_source({'asia': t}), db)
        out.outcome('%d zones %s' % (len(perm), 'differ' if d else 'same'))
        if d:
            out.bad('composition', '%s\n%s' % (d, t), p)
    return out


# --- D: as the Go compiler reads it -----------------------------------------

def texts(level):
    out = [('complete', comp_text(('Zed', 'A/B', 'M/North'),
                                  ('PQ', None, 'nP'), (0, 2))),
           ('complete', sized('letters', 255)),
           ('complete', sized('policies', 254)),
           ('extended', sized('names', 4000)),
           ('basic', POLS + 'Zone\tA/B\t1:00\tP\tA%s\n')]
    if level:
        out += [('complete', sized('formats', 65535)),
                ('complete', sized('names', 65535)),
                ('complete', sized('rules', 30000)),
                ('complete', sized('eras', 30000))]
        for perm, bodies in compositions(0)[::40]:
            out.append(('complete', comp_text(perm, bodies, ())))
    return out


def bind(item):
    from ..harness import Out
    from ..zonesrc import real_tzdb
    out = Out()
    level, part = item
    many = []
    if part == 'real':
        for scope, s, un in (('complete', 1800, 2100),
                             ('extended', 1980, 2060)):
            many.append((scope, real_tzdb(), s, un))
    else:
        for scope, t in texts(level)[part]:
            many.append((scope, {'asia': t}, 1000 if scope == 'complete'
                         else 1980, 2224))
    good = []
    p = {'part': 'G', 'item': [level, part if part == 'real' else
                               [part.start, part.stop]]}
    for scope, files, s, un in many:
        out.states += 1
        res = runner.run_main(files, u.argv_for(
            scope, s, un, 'go', actions='zonedb', more=MORE), timeout=600)
        if not res.ok:
            out.bad('refused', '%s' % res.exc, p)
            continue
        good.append(res.files)
    try:
        dumps = gobind.dump(good)
    except gobind.Refused as e:
        out.bad('go compiler', 'the Go compiler refuses the files:\n%s' % e,
                p)
        return out
    for f, d in zip(good, dumps):
        out.traces += 1
        v = gobind.view(decode_go.decode(f))
        for k in v:
            if v[k] != d[k]:
                out.bad('go view', '%s: decoder %s\nGo %s' % (
                    k, str(v[k])[:500], str(d[k])[:500]), p)
        out.outcome('Go compiler agrees')
    return out


def small_save(c):
    """The SAVE byte of Go holds up to 127 minutes in every scope."""
    return not any(x in ('2:15', '2:30', '2:45') for x in
                   [r.split()[-2] for rs in c.rules.values() for r in rs] +
                   [e.split()[1] for e in c.eras])


def check(ctx):
    t = ctx.thorough
    g = []
    n = len(texts(t))
    for i in range(0, n, 12):
        g.append((t, slice(i, i + 12)))
    ctx.pmap(bind, g + [(t, 'real')], 'Go compiler')
    items = list(c07.sweep_items(1 if t else 0, ('go',),
                                 ('complete', 'extended', 'basic'), None))
    items = [([x for x in b if small_save(x[1][1])], lang, scope,
              c07.go_decoder) for b, lang, scope, _ in items]
    if not t:
        items = [x for i, x in enumerate(items) if x[2] == 'complete' or
                 (x[2] == 'extended' and i % 3 == 0)]
    ctx.transitions += sum(len(i[0]) for i in items)
    ctx.pmap(c07.cases, items, 'sweeps')
    it = [('letters', n) for n in (range(0, 271) if t else
                                   list(range(0, 8)) + list(
                                       range(248, 262)))]
    it += [('policies', n) for n in (range(1, 261) if t else
                                     [1, 2, 3, 127, 128, 252, 253, 254, 256,
                                      257])]
    it += [(k, n) for k in ('formats', 'names') for n in (
        list(range(65520, 65550)) if t else range(65533, 65539))]
    it += [(k, n) for k in ('formats', 'names') for n in (256, 65792, 70000)]
    for k in ('rules', 'eras'):
        it += [(k, n) for n in ((255, 256, 257, 32767, 32768, 65534, 65535,
                                 65536, 65537, 65792) if t else
                                (256, 257, 65535, 65536))]
    it.sort(key=lambda x: -x[1])
    ctx.pmap(sizes, it, 'sizes')
    kinds = ('letters', 'rules', 'eras')
    co = [(k, n, 'go', 'extended', c07.go_decoder, None) for k in kinds
          for n in (range(3, 261) if t else (3, 4, 5, 127, 128, 255, 256))
          if not (k == 'letters' and n > 60)]
    ctx.pmap(c07.counts, co, 'counts')
    ctx.pmap(c07.beyond, [(n, 'go', st) for n in c07.beyond_some(t)
                          for st in (True, False)], 'beyond')
    cc = []
    for perm, bodies in compositions(t):
        k = len(perm)
        ls = [()] + [(i,) for i in range(k)]
        if t or k < 3:
            ls += list(itertools.product(range(k), repeat=2))
        for l in ls if t else ls[::1 if k < 3 else 3]:
            cc.append((perm, bodies, l))
    ctx.transitions += len(cc)
    ctx.notes['compositions'] = len(cc)
    ctx.pmap(comps, list(explore.batches(cc, 60)), 'compositions')


def replay(p):
    if p['part'] == 'S':
        o = sizes(tuple(p['item']))
    elif p['part'] == 'C':
        o = comps([tuple(map(tuple, p['item']))])
    elif p['part'] == 'G':
        a, b = p['item']
        o = bind((a, b if b == 'real' else slice(*b)))
    else:
        return c07.replay(p)
    return [m for _, m, _ in o.viol]
