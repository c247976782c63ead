"""C11: name compression is lossless."""
import itertools
import json
from .. import decode_c, decode_go, explore, runner
from .. import universe as u
from ..zonesrc import real_tzdb

ID = 'C11'
BOUNDS = (
    'A: the C string writer on every string of <=4 (thorough: <=5) characters '
    'over keyword bytes, hex digits and other letters; B: every vector of '
    'multiplicities {0,3,4,5} (thorough: 0..5) of 6 overlapping, nested and '
    'repeated directory prefixes, as zones, links or both, Arduino and C, '
    'compressed and not; C: 0..40 distinct frequent fragments; frequent '
    'components of every length 1..69 and around 128, 256, all pairs of 26 '
    'spellings; D: the real '
    'TZDB in every scope, with and without compression')
ASSUMPTIONS = ['the consumer replaces a byte 0x01..0x1f of a name by the '
               'fragment with that index, as AceCommon KString does',
               'a database may be refused when 31 or more fragments are '
               'frequent enough to be keywords']
PREFIX = ['Abcd/', 'Abcd/Efgh/', 'Efgh/', 'Abc/', 'Xx/Abcd/', 'AbcdAbcd/']
MORE = ('--ignore_buf_size_too_large',)


def writer(strs):
    from acetimetools.generator.argenerator import \
        compressed_name_to_c_string
    from ..harness import Out
    out = Out()
    for s in strs:
        out.states += 1
        try:
            lit = compressed_name_to_c_string(s)
            toks = decode_c.tokens(lit)
            got = b''.join(decode_c.c_string(t[1] if isinstance(t, tuple)
                                             else t) for t in toks)
        except Exception as e:
            got = '%s: %s' % (type(e).__name__, e)
        if got != s.encode():
            out.bad('c-string', '%r -> %s reads back as %r' % (s, lit, got),
                    {'string': s})
        else:
            out.outcome('string reads back')
    return out


def compare(files, lang, scope, names, compress, out, p):
    T = decode_c.decode(files, lang, scope)
    out.traces += 1
    if set(T.ids) != set(names):
        out.bad('names', '%s: names read back: missing %s, extra %s' % (
            lang, sorted(set(names) - set(T.ids))[:4],
            sorted(set(T.ids) - set(names))[:4]), p)
        return
    frags = T.fragments
    kw = 0
    for n, raw in T.raw_names.items():
        if not compress:
            if raw.decode() != n:
                out.bad('verbatim', '%s: name %s is emitted as %r without '
                        'compression' % (lang, n, raw), p)
            continue
        pos = 0
        for b in raw:
            if b < 32:
                kw += 1
                f = frags[b]
                if not f.endswith('/') or f.count('/') != 1 or \
                        (pos and n[pos - 1] != '/'):
                    out.bad('component', '%s: keyword %d (%r) is not a whole '
                            'component of %s' % (lang, b, f, n), p)
                pos += len(f)
            else:
                pos += 1
    if frags and (frags[0] or any(not f for f in frags[1:])):
        out.bad('table', 'fragment table %r' % frags, p)
    if len(frags) > 32:
        out.bad('table', '%d fragments' % len(frags), p)
    if not compress and len(frags) > 1:
        out.bad('table', '%s: fragments %s without compression' % (
            lang, frags), p)
    out.outcome('lossless, keywords used' if kw else
                'lossless, no keyword used')


def text(zones, links):
    t = ''.join('Zone\t%s\t1:00\t-\tA\n' % z for z in zones)
    return t + ''.join('Link\t%s\t%s\n' % (zones[0], l) for l in links)


def one(zones, links, lang, scope, compress, out, p, may_refuse=False):
    argv = u.argv_for(scope, 2000, 2004, lang, more=MORE + (
        () if compress else ('--nocompress',)))
    res = runner.run_main({'africa': text(zones, links)}, argv)
    out.states += 1
    if not res.ok:
        if may_refuse and res.kind == 'exc':
            out.outcome('refused: too many fragments')
            return
        out.bad('refused', '%s: %s' % (lang, res.exc), p)
        return
    names = zones + links
    if lang == 'go':
        T = decode_go.decode(res.files)
        if set(T.names) - {''} != set(names) or set(T.ids) != set(names):
            out.bad('go', 'Go names %s' % T.names[:9], p)
        out.outcome('Go names verbatim')
        return
    compare(res.files, lang, scope, names, compress, out, p)
    if compress:
        j = json.loads(res.files['zonedb.json'])
        frag = {i: f for f, i in j['fragments_map'].items()}
        for n, c in j['compressed_names'].items():
            if ''.join(frag.get(ord(x), x) for x in c) != n:
                out.bad('json', 'JSON compressed name %r is not %s' % (c, n),
                        p)


def leaf(k):
    return 'Q' + 'abcdefghijklmnopqrstuvwxyz'[k % 26] + 'ABC'[k // 26 % 3]


def vectors(item):
    from ..harness import Out
    out = Out()
    vecs, split, langs, compress = item
    for v in vecs:
        names = ['Mm']
        for pre, n in zip(PREFIX, v):
            names += [pre + leaf(k) for k in range(n)]
        names.append('Abcd_x')
        if split == 0:
            zones, links = names, []
        elif split == 1:
            zones, links = names[:1], names[1:]
        else:
            zones, links = names[0:1] + names[1::2], names[2::2]
        for lang, scope in langs:
            one(zones, links, lang, scope, compress, out,
                {'vec': [list(v), split, lang, scope, compress]})
    return out


def many(item):
    from ..harness import Out
    out = Out()
    n, lang, reps = item
    names = ['%s/%s' % (leaf(k) + 'dir%02d' % k, leaf(j))
             for k in range(n) for j in range(reps)]
    one(['Mm'] + names, [], lang, 'complete', True, out,
        {'many': list(item)}, may_refuse=n >= 31 and reps > 3)
    return out


COMPONENTS = ['0', '7', '12', '2024', '1a', 'a1', '-', '--', '_', '+', '+1',
              '-1', '.', '..', 'a.b', 'A-B', 'A_B', 'A+B', 'x01', '01', '001',
              'ab' * 8, 'Z' * 31, 'ffff', 'nullptr', 'NULL']


def components(item):
    """Frequent components of unusual length and spelling."""
    from ..harness import Out
    out = Out()
    for comps, lang, scope, compress in item:
        names = ['Mm'] + ['%s/%s' % (c, leaf(4 * i + j)) for i, c in
                          enumerate(comps) for j in range(4)]
        names += ['%s/%s' % ('/'.join(comps), leaf(j + 9)) for j in range(2)]
        # and the same components once, not frequent enough to be keywords
        names += ['R%s/%s' % (c, leaf(j + 11)) for j, c in enumerate(comps)]
        names += ['%s/R%s/R/%s' % (c, c, leaf(j + 13)) for j, c in
                  enumerate(comps)]
        one(names[:-3], names[-3:], lang, scope, compress, out,
            {'components': [list(comps), lang, scope, compress]})
    return out


def component_items(level):
    out = []
    k = 0
    longs = [('L' * n,) for n in list(range(1, 70)) + [
        127, 128, 129, 254, 255, 256, 257, 300]]
    pairs = list(itertools.combinations(COMPONENTS, 2))
    pairs += [('a' * n, 'a' * (n + 1)) for n in range(1, 40, 1 if level
                                                      else 3)]
    for c in longs + [(x,) for x in COMPONENTS] + pairs:
        for lang in ('arduino', 'c') if level or len(c) == 1 else (
                ('arduino', 'c')[k % 2],):
            for comp in (True, False) if level else (True,):
                out.append((c, lang, ('complete', 'extended', 'basic')[k % 3],
                            comp))
            k += 1
    return out


def real(item):
    from ..harness import Out
    out = Out()
    lang, scope, compress = item
    argv = u.argv_for(scope, 2000, 2050, lang, more=MORE + (
        '--nostrict',) + (() if compress else ('--nocompress',)))
    res = runner.run_main(real_tzdb(), argv)
    if not res.ok:
        out.bad('refused', 'real TZDB: %s' % res.exc, {'real': list(item)})
        return out
    j = json.loads(res.files['zonedb.json'])
    names = list(j['zones_map']) + list(j['links_map'])
    out.states += len(names)
    compare(res.files, lang, scope, names, compress, out,
            {'real': list(item)})
    return out


def check(ctx):
    t = ctx.thorough
    al = '\x01\x02\x1f' + 'aFg9/_'
    strs = [''.join(p) for n in range(1, 6 if t else 5)
            for p in itertools.product(al, repeat=n)]
    ctx.pmap(writer, list(explore.batches(strs, 5000)), 'A')
    mult = range(6) if t else (0, 3, 4, 5)
    vecs = [v for v in itertools.product(mult, repeat=6)]
    ctx.transitions += len(vecs)
    main = [('arduino', 'complete'), ('c', 'complete')]
    full = main + [('arduino', 'extended'), ('arduino', 'basic'),
                   ('c', 'extended'), ('go', 'complete')]
    if t:
        items = [(b, 2, main[:1], True) for b in explore.batches(vecs, 200)]
        items += [(b, s, main, c) for b in explore.batches(vecs[::7], 100)
                  for s in (0, 1) for c in (True, False)]
        items += [(b, 2, full, c) for b in explore.batches(vecs[::31], 50)
                  for c in (True, False)]
    else:
        items = [(b, 2, main[k % 2:k % 2 + 1], True) for k, b in enumerate(
            explore.batches(vecs, 60))]
        items += [(b, s, full, c) for b in explore.batches(vecs[::97], 12)
                  for s in (0, 1) for c in (True, False)]
    ctx.pmap(vectors, items, 'B')
    ctx.pmap(many, [(n, l, r) for n in range(0, 41) for l in ('arduino', 'c')
                    for r in (3, 4)], 'C')
    it = component_items(t)
    ctx.transitions += len(it)
    ctx.pmap(components, list(explore.batches(it, 20)), 'components')
    ctx.pmap(real, [(l, s, c) for l in ('arduino', 'c')
                    for s in ('complete', 'extended', 'basic')
                    for c in (True, False)], 'D')


def replay(p):
    if 'string' in p:
        o = writer([p['string']])
    elif 'vec' in p:
        v, split, lang, scope, compress = p['vec']
        o = vectors(([tuple(v)], split, [(lang, scope)], compress))
    elif 'components' in p:
        c, lang, scope, compress = p['components']
        o = components([(tuple(c), lang, scope, compress)])
    elif 'many' in p:
        o = many(tuple(p['many']))
    else:
        o = real(tuple(p['real']))
    return [m for _, m, _ in o.viol]
