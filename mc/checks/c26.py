"""C26: emitted source files compile, link and load, and mean what they say."""
import itertools
import json
from .. import cbind, decode_c, decode_go, decode_py, explore, gobind, mix
from .. import runner, sweep
from .. import universe as u
from ..zonesrc import real_tzdb

ID = 'C26'
BOUNDS = (
    'A: every database of 1-3 zones, 0-2 links, 0-2 policies in every '
    'assignment, and every pair of 25 zone kinds (good, noted and removed), '
    'with the options (names compressed or not, tiny base year, strict); B: '
    'every name of <=2 (thorough: <=3) characters out of the legal '
    'punctuation between letters, names that begin with a word the '
    'generators use, every punctuation character in FORMAT and LETTER; C: '
    'programs of two and three databases of different namespaces; D: the '
    'extreme values of every field; E: the real TZDB; each in C (used from C '
    'and from C++), Arduino, Python and Go, each header alone, the headers in '
    'every order and twice')
ASSUMPTIONS = [
    'the types of acetimec, AceTime, acetimepy and acetimego are stand-ins '
    'with the documented field order and widths',
    'one program uses C databases of one record format, because acetimec has '
    'one set of types',
]
MORE = ('--ignore_buf_size_too_large',)
LANGS = ('c', 'arduino', 'python', 'go')


def argv(scope, lang, s=2000, un=2010, ns='zonedb', more=()):
    a = u.argv_for(scope, s, un, lang, actions='zonedb', more=MORE + tuple(
        more))
    a[a.index('--db_namespace') + 1] = ns
    return a


def diff(got, want):
    if got == want:
        return ''
    for a, b in itertools.zip_longest(got, want):
        if a != b:
            return 'the program reads\n  %s\nthe text says\n  %s' % (
                str(a)[:400], str(b)[:400])


def compiled(res, lang, scope, order, ns='zonedb'):
    """'' or what a consumer's compiler makes of the files."""
    f = res.files
    try:
        if lang in ('c', 'arduino'):
            decode_c.decode(f, lang, scope)
            one = cbind.One(f, lang, scope, ns)
            return diff(cbind.program([one], order, order % 2 == 1)[0],
                        one.view())
        if lang == 'python':
            return py_view([(f, ns)])
        v = gobind.view(decode_go.decode(f))
        d = gobind.dump([f])[0]
        return '; '.join('%s: %s' % (k, diff([d[k]], [v[k]]))
                         for k in v if v[k] != d[k])
    except (cbind.Refused, gobind.Refused, decode_py.Artifact) as e:
        return str(e)


def py_view(many):
    got = cbind.packages(many)
    for (f, ns), g in zip(many, got):
        pol, infos, reg = decode_py.load_modules(f)
        want = json.loads(json.dumps([reg['ZONE_REGISTRY'],
                                      reg['ZONE_AND_LINK_REGISTRY']]))
        if g[:2] != want:
            return 'package %s: %s' % (ns, diff(g[:2], want))
    return ''


def group(item):
    """Several C or Arduino databases, each under a namespace of its own, in
    one program; on a failure, one by one."""
    from ..harness import Out
    out = Out()
    lang, order = item[0][2], item[0][4]
    ones = []
    d = ''
    for i, (text, scope, _, more, _) in enumerate(item):
        ns = 'n%d' % i
        res = runner.run_main({'europe': text}, argv(scope, lang, ns=ns,
                                                     more=more))
        out.states += 1
        if not res.ok:
            out.outcome('refused')
            if res.files:
                d = 'partial'
            continue
        out.traces += 1
        try:
            decode_c.decode(res.files, lang, scope)
        except decode_py.Artifact as e:
            d = str(e)
        ones.append(cbind.One(res.files, lang, scope, ns))
    if not d and ones:
        try:
            for a, b in zip(cbind.program(ones, order, order % 2 == 1), ones):
                d = d or diff(a, b.view())
        except (cbind.Refused, decode_py.Artifact) as e:
            d = str(e)
    if not d:
        out.outcome('%s: compiled, same view' % lang, len(ones))
        return out
    o2 = Out()
    for x in item:
        one(x, o2)
    if not o2.viol:
        out.bad('group:' + lang, d, {'group': [list(x) for x in item]})
        return out
    return o2


def one(x, out):
    """x: (text, scope, lang, more, order)"""
    text, scope, lang, more, order = x
    p = {'x': [text, scope, lang, list(more), order]}
    out.states += 1
    res = runner.run_main({'europe': text}, argv(scope, lang, more=more))
    if not res.ok:
        out.outcome('refused')
        if res.files:
            out.bad('partial', 'refused, but files are left\n' + text, p)
        return
    out.traces += 1
    d = compiled(res, lang, scope, order)
    out.outcome('%s: %s' % (lang, 'DIFFERS' if d else 'compiled, same view'))
    if d:
        out.bad('compile:' + lang, '%s %s %s: %s\n%s' % (
            lang, scope, ' '.join(more), d, text), p)


def single(item):
    from ..harness import Out
    out = Out()
    for x in item:
        one(x, out)
    return out


def bundle(item):
    """Many Python or Go databases in one interpreter or Go build; on a
    failure, one by one."""
    from ..harness import Out
    out = Out()
    many = []
    for x in item:
        text, scope, lang, more, order = x
        res = runner.run_main({'europe': text}, argv(scope, lang, more=more))
        out.states += 1
        if not res.ok:
            out.outcome('refused')
            continue
        out.traces += 1
        many.append((x, res.files))
    d = ''
    if many and lang == 'python':
        try:
            d = py_view([(f, 'p%d' % i) for i, (_, f) in enumerate(many)])
        except (cbind.Refused, decode_py.Artifact) as e:
            d = str(e)
    elif many:
        try:
            for (x, f), g in zip(many, gobind.dump([f for _, f in many])):
                v = gobind.view(decode_go.decode(f))
                d = d or '; '.join(k for k in v if v[k] != g[k])
        except (gobind.Refused, decode_py.Artifact) as e:
            d = str(e)
    if not d:
        out.outcome('%s: compiled, same view' % lang, len(many))
        return out
    n = len(out.viol)
    for x, _ in many:
        one(x, out)
    if len(out.viol) == n:
        out.bad('bundle:' + lang, d, {'bundle': [list(x) for x in item]})
    return out


# --- the universes --------------------------------------------------------

RULES = ('Rule\t{p}\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tS\n'
         'Rule\t{p}\t1990\tmax\t-\tOct\tlastSun\t1:00u\t0\t-\n')


def structures():
    """Databases of 1-3 zones, 0-2 links, 0-2 policies."""
    out = []
    for nz in (1, 2, 3):
        for pol in itertools.product((None, 'P', 'Q-x'), repeat=nz):
            for nl in (0, 1, 2):
                for to in itertools.product(range(nz), repeat=nl):
                    t = ''
                    for p in sorted({p for p in pol if p}):
                        t += RULES.format(p=p)
                    for i, p in enumerate(pol):
                        t += 'Zone\tA/z%d\t%d:00\t%s\n' % (
                            i, i, '-\tLMT' if not p else
                            p + '\tX%sT\t2005\n\t\t\t0:00\t-\tUTC')
                    for k, i in enumerate(to):
                        t += 'Link\tA/z%d\tL/k%d\n' % (i, k)
                    out.append(t)
    return out


def kinds():
    out = [mix.render(k, 0) + 'Zone\tZ/ok\t1:00\t-\tOK\nLink\tZ/K0\tL/k\n'
           for k in mix.KINDS]
    out += [mix.render(a, 0) + mix.render(b, 1) + 'Zone\tZ/ok\t1:00\t-\tOK\n'
            for a, b in itertools.combinations(mix.KINDS, 2)]
    return out


PUNCT = '-+_./'
WORDS = ['Context', 'Registry', 'RegistrySize', 'AndLinkRegistry',
         'AndLinkRegistrySize', 'Ida', 'BufSizea', 'Eraa', 'Policya',
         'PolicyP', 'Namea', 'RulesP', 'Rules', 'Policies', 'IDa', 'Infos',
         'InfoIndexa', 'class', 'NULL', 'nullptr', 'int', '1', '1a', 'type',
         'func', 'None', 'import', 'a_', '_a', '__a', 'ERAS_a', 'INFO_a']


def names(level):
    """Sets of zone (link, policy) names."""
    out = []
    for n in (1, 2, 3) if level else (1, 2):
        for x in itertools.product(PUNCT, repeat=n):
            x = ''.join(x)
            out += [('z', 'a%sb' % x), ('z', 'A%s1' % x), ('l', 'c%sd' % x),
                    ('p', 'P%sQ' % x)]
    for w in WORDS:
        out += [('z', w), ('l', w), ('p', w), ('z', 'A/' + w)]
    return out


def name_text(some):
    t = RULES.format(p='P') + 'Zone\ta\t1:00\tP\tX%sT\n'
    for i, (k, n) in enumerate(some):
        if k == 'z':
            t += 'Zone\t%s\t%d:00\tP\tX%%sT\n' % (n, i % 10)
        elif k == 'l':
            t += 'Link\ta\t%s\n' % n
        else:
            if n != 'P':
                t += RULES.format(p=n)
            t += 'Zone\tU/u%d\t%d:00\t%s\tX%%sT\n' % (i, i % 10, n)
    return t


def characters():
    """One database per character in FORMAT and LETTER, at every place."""
    out = []
    for c in range(33, 127):
        c = chr(c)
        if c.isalnum() and c not in '09AZazxnu':
            continue
        for x in (c, c + 'A', 'A' + c, 'A' + c + 'B', c + c, 'A%s' + c):
            out.append('Zone\tA/b\t1:00\t-\tAB\nZone\tA/z\t1:00\t-\t%s\t2005\n'
                       '\t\t\t2:00\t-\tC%s\n' % (x, c))
        for x in (c, c + 'A', 'A' + c):
            out.append('Rule\tP\t1990\tmax\t-\tMar\t1\t1:00u\t1:00\t%s\n'
                       'Rule\tP\t1990\tmax\t-\tOct\t1\t1:00u\t0\t%s\n'
                       'Zone\tA/z\t1:00\tP\tA%%sT\n' % (x, c))
    return out


NS = ['zonedb', 'zonedbx', 'zonedb2', 'z', 'Zdb', 'db_all', 'testing']


def multi(item):
    """One program of several databases."""
    from ..harness import Out
    out = Out()
    for parts, lang, order in item:
        out.states += 1
        p = {'multi': [list(map(list, parts)), lang, order]}
        dbs = []
        for ns, scope, k in parts:
            t = MULTI[k]
            res = runner.run_main({'asia': t}, argv(scope, lang, ns=ns))
            if not res.ok:
                out.bad('refused', '%s %s: %s\n%s' % (lang, scope, res.exc, t),
                        p)
                return out
            dbs.append((res.files, scope, ns))
        out.traces += 1
        try:
            if lang == 'python':
                d = py_view([(f, ns) for f, _, ns in dbs])
            else:
                ones = [cbind.One(f, lang, sc, ns) for f, sc, ns in dbs]
                d = ''
                for a, b in zip(cbind.program(ones, order, order % 2 == 1),
                                ones):
                    d = d or diff(a, b.view())
        except (cbind.Refused, decode_py.Artifact) as e:
            d = str(e)
        out.outcome('%s program of %d databases: %s' % (
            lang, len(dbs), 'FAILS' if d else 'linked, same view'))
        if d:
            out.bad('link:' + lang, '%s: %s' % (parts, d), p)
    return out


MULTI = [
    RULES.format(p='P') + 'Zone\tA/a\t1:00\tP\tX%sT\nZone\tB\t2:00\t-\tUTC\n'
    'Link\tA/a\tC/c\n',
    RULES.format(p='P').replace('1:00\tS', '0:30\tH') +
    'Zone\tA/a\t3:00\tP\tY%sT\n',
]


def programs(level):
    out = []
    k = 0
    for n in (2, 3) if level else (2,):
        for nss in itertools.permutations(NS, n):
            for lang in ('c', 'arduino', 'python'):
                for sc in itertools.product(
                        ('basic', 'extended', 'complete'), repeat=n):
                    if lang == 'c' and len({s == 'complete'
                                            for s in sc}) > 1:
                        continue
                    k += 1
                    if k % (3 if n == 2 else 41):
                        continue
                    out.append((tuple((ns, s, (k + i) % 2) for i, (ns, s)
                                      in enumerate(zip(nss, sc))), lang,
                                k // 3))
    if not level:
        out = out[::4]
    return out


def extremes(low, level):
    """Databases of 25 swept cases each."""
    cases = [c for _, c in list(sweep.rule_cases(low, 0)) + list(
        sweep.era_cases(low, 0))]
    if not level:
        cases = cases[::7]
    return [''.join(u.render(c, i) for i, c in enumerate(b))
            for b in explore.batches(cases, 25)]


def real(item):
    from ..harness import Out
    out = Out()
    scope, s, un, lang, more, order = item
    res = runner.run_main(real_tzdb(), argv(scope, lang, s, un, more=(
        '--nostrict',) + tuple(more)), timeout=600)
    p = {'real': list(item)}
    out.states += 1
    if not res.ok:
        out.bad('refused', 'real TZDB: %s' % res.exc, p)
        return out
    out.traces += 1
    d = compiled(res, lang, scope, order)
    out.outcome('real %s: %s' % (lang, 'DIFFERS' if d else
                                 'compiled, same view'))
    if d:
        out.bad('compile:' + lang, 'real TZDB %s %s' % (item, d), p)
    return out


SCOPES = ('basic', 'extended', 'complete')
OPTS = [(), ('--nocompress',), ('--nostrict',), ('--tiny_base_year', '2050'),
        ('--strict', '--nocompress')]


def check(ctx):
    t = ctx.thorough
    ctx.pmap(real, [(sc, s, un, lg, more, i) for i, (sc, lg) in enumerate(
        itertools.product(SCOPES, LANGS)) if lg != 'go' or sc == 'complete'
        for s, un, more in (((2000, 2060, ()), (1985, 2050, OPTS[1]))
                            if t else ((2000, 2060, OPTS[i % 2]),))], 'real')
    texts = [(x, None) for x in structures() + kinds()]
    texts += [(x, None) for x in characters()]
    some = names(t)
    for i in range(1, 3):
        for c in itertools.combinations(some, i):
            # one name; or two that share their letters
            if i == 1 or (t and c[0][1].strip(PUNCT)[:2] ==
                          c[1][1].strip(PUNCT)[:2]):
                texts.append((name_text(c), None))
    texts.append((name_text([x for x in some if x[1] not in WORDS][::3]),
                  None))
    texts += [(x, ('basic', 'extended')) for x in extremes(True, t)]
    texts += [(x, ('complete',)) for x in extremes(False, t)]
    cc, py, go = [], [], []
    for k, (x, scopes) in enumerate(texts):
        scopes = scopes or SCOPES
        for i, sc in enumerate(scopes):
            for j, lg in enumerate(LANGS):
                if lg == 'go' and sc != 'complete':
                    continue
                if not t and lg in ('c', 'arduino') and (k + i + j) % 5:
                    continue
                o = OPTS[(k + i) % len(OPTS)]
                v = (x, sc, lg, o, (k + j) % 6)
                (py if lg == 'python' else go if lg == 'go' else
                 cc).append(v)
    ctx.notes['databases'] = len(texts)
    ctx.notes['C and C++ programs'] = len(cc)
    ctx.transitions += len(cc) + len(py) + len(go)
    ctx.pmap(bundle, list(explore.batches(go, max(60, len(go) // 8 + 1))), 'go')
    ctx.pmap(multi, list(explore.batches(programs(t), 6)), 'programs')
    cc.sort(key=lambda v: (v[2], v[1] == 'complete', v[4]))
    gs = []
    for _, g in itertools.groupby(cc, lambda v: (v[2], v[1] == 'complete',
                                                 v[4])):
        gs += explore.batches(list(g), 12)
    ctx.pmap(group, gs, 'C')
    ctx.pmap(bundle, list(explore.batches(py, 100)), 'python')


def replay(p):
    if 'x' in p:
        x = p['x']
        o = single([(x[0], x[1], x[2], tuple(x[3]), x[4])])
    elif 'bundle' in p:
        o = bundle([(x[0], x[1], x[2], tuple(x[3]), x[4])
                    for x in p['bundle']])
    elif 'group' in p:
        o = group([(x[0], x[1], x[2], tuple(x[3]), x[4])
                   for x in p['group']])
    elif 'multi' in p:
        a, lang, order = p['multi']
        o = multi([(tuple(map(tuple, a)), lang, order)])
    else:
        x = p['real']
        o = real(tuple(x[:4]) + (tuple(x[4]), x[5]))
    return [m for _, m, _ in o.viol]
