"""C16: tiny years round-trip or saturate without changing meaning."""
from .. import decode_c, explore, runner, tzmodel
from .. import universe as u

ID = 'C16'
BOUNDS = (
    'A: both encoders on every year of [base-300, base+300] plus the four '
    'infinity/invalid values and a grid of far years, for every base year in '
    '0..4000 (thorough: -3000..12000); B: every (base, start, until) within '
    '3 years of the edges of the representable range for 8 bases, through the '
    'command line; C: every FROM/TO pair and every UNTIL year from 26 years '
    'around each edge, through basic and extended Arduino, C and JSON output')
ASSUMPTIONS = [
    'reserved codes: -128 invalid, -127 minus infinity, 126 plus infinity of '
    'rule years, 127 plus infinity of UNTIL years',
    'the C database carries no base year; the --tiny_base_year of the run is '
    'used to decode it']
INVALID, MIN, MAX_TO, MAX_UNTIL = -32768, -32767, 32766, 32767


def ref(kind, year, base):
    if year == INVALID:
        return -128
    hi, inf = (126, MAX_TO) if kind == 'rule' else (127, MAX_UNTIL)
    if year == MIN:
        return -127
    if year == inf:
        return hi
    return max(-127, min(hi, year - base))


def functions():
    from acetimetools.transformer import transformer as t
    return {'rule': t.to_tiny_from_to_year, 'until': t.to_tiny_until_year}


def encoders(bases):
    from ..harness import Out
    out = Out()
    far = [-32766, -20000, -5000, 0, 1, 9999, 20000, 32000, 32765]
    for base in bases:
        near = list(range(base - 300, base + 301))
        for kind, f in functions().items():
            prev = None
            special = [INVALID, MIN, MAX_TO, MAX_UNTIL]
            ys = sorted(set(y for y in near + far + special
                            if INVALID <= y <= MAX_UNTIL))
            for y in ys:
                out.states += 1
                try:
                    v = f(y, base)
                except Exception as e:
                    v = '%s: %s' % (type(e).__name__, e)
                w = ref(kind, y, base)
                if v != w:
                    out.bad('encode:%s' % kind, '%s year %d with base %d is '
                            'encoded as %r, expected %r' % (kind, y, base, v,
                                                            w),
                            {'kind': kind, 'year': y, 'base': base})
                    continue
                if prev is not None and v < prev:
                    out.bad('monotonic:%s' % kind, 'year %d base %d -> %d '
                            'after %d' % (y, base, v, prev),
                            {'kind': kind, 'year': y, 'base': base})
                prev = v
            out.traces += 1
    out.outcome('encoder agrees', len(bases))
    return out


def accepts(item):
    """The command line: start and until are refused exactly when they do not
    fit."""
    from ..harness import Out
    out = Out()
    for scope, base, s, un in item:
        src = {'africa': 'Zone\tZ/A\t1:00\t-\tA\n'}
        argv = u.argv_for(scope, s, un, 'arduino', more=(
            '--tiny_base_year', str(base)))
        res = runner.run_main(src, argv)
        ok = scope == 'complete' or all(
            -126 <= y - base <= 125 for y in (s, un))
        out.states += 1
        p = {'accept': [scope, base, s, un]}
        if res.ok != ok:
            out.bad('range', 'scope %s base %d years [%d,%d): %s, expected '
                    'to be %s' % (scope, base, s, un, res.exc or res.kind,
                                  'accepted' if ok else 'refused'), p)
        elif not ok and res.files:
            out.bad('partial', 'refused but wrote %s' % sorted(res.files), p)
        else:
            out.outcome('accepted' if ok else 'refused')
    return out


def sources(item):
    """Rules and UNTILs around the edges, decoded from the artifacts."""
    from ..harness import Out
    out = Out()
    scope, base, s, un, cases = item
    for lang in ('arduino', 'c'):
        argv = u.argv_for(scope, s, un, lang, more=(
            '--tiny_base_year', str(base), '--ignore_buf_size_too_large'))
        for res, part in u.compile_batch(list(enumerate(cases)), argv):
            if not res.ok:
                out.outcome('refused (all rules too new)')
                out.states += len(part)
                if not any('after' in c.rules for _, c in part):
                    i, c = part[0]
                    span = [r.split()[0] for rs in c.rules.values()
                            for r in rs]
                    if all(int(x) <= un for x in span):
                        out.bad('refused', '%s: %s' % (u.render(c, i),
                                                       res.exc),
                                {'src': [scope, base, s, un, [c.rules,
                                                              c.eras]]})
                continue
            one_file(out, res, part, lang, scope, base, s, un)
    return out


def one_file(out, res, part, lang, scope, base, s, un):
    import json
    t = decode_c.decode(res.files, lang, scope, base)
    js = json.loads(res.text('zonedb.json'))
    if lang == 'arduino' and t.context['base_year'] != base:
        out.bad('base', 'context base year %r, asked for %d' % (
            t.context['base_year'], base), {'src': [scope, base, s, un]})
    sym = {p: k for k in t.db.policies for p in js['policies_map']
           if k.endswith('ZonePolicy' + p)}
    for i, c in part:
        out.states += 1
        for p in c.rules:
            name = u.pname(p, i)
            if name not in js['policies_map']:
                continue
            rules = js['policies_map'][name]['rules']
            got = t.db.policies[sym[name]]
            if len(rules) != len(got):
                out.bad('count', name, {})
                continue
            for r, g in zip(rules, got):
                if r['raw_line'].startswith('Rule'):
                    q = tzmodel.parse_rule(r['raw_line'].split())
                    a, b = q.frm, q.to
                else:
                    a = b = MIN
                want = tuple(expand('rule', y, base) for y in (a, b))
                out.traces += 1
                if (g.frm, g.to) != want:
                    out.bad('rule-year', '%s: %s base %d: emitted years '
                            '(%d,%d) expected %s' % (
                                lang, r['raw_line'], base, g.frm, g.to,
                                want), {'src': [scope, base, s, un,
                                                [c.rules, c.eras]]})
                else:
                    out.outcome('rule year ok')
        z = u.zname(i)
        if z not in js['zones_map']:
            continue
        eras, got = js['zones_map'][z]['eras'], t.db.zones[z]
        if len(eras) != len(got):
            out.bad('count', z, {})
            continue
        for n, (e, g) in enumerate(zip(eras, got)):
            out.traces += 1
            f = e['raw_line'].split()
            if n == len(eras) - 1:
                if g.until is not None:
                    out.bad('last', '%s: the last era of %s ends' % (lang, z),
                            {'src': [scope, base, s, un, [c.rules, c.eras]]})
                continue
            want = expand('until', int(f[3]), base)
            if g.until is None or g.until[0] != want:
                out.bad('until-year', '%s: %s base %d: emitted %s expected '
                        '%s' % (lang, e['raw_line'], base, g.until, want),
                        {'src': [scope, base, s, un, [c.rules, c.eras]]})
            else:
                out.outcome('until year ok')


def expand(kind, year, base):
    """What a consumer reads back."""
    v = ref(kind, year, base)
    if v == -127:
        return MIN
    if v == 126 and kind == 'rule':
        return MAX_TO
    if v == 127 and kind == 'until':
        return MAX_UNTIL
    return base + v


def check(ctx):
    bases = list(range(-3000, 12001)) if ctx.thorough else \
        list(range(0, 4001, 1))
    ctx.pmap(encoders, list(explore.batches(bases, 250)), 'A')
    items = []
    for scope in ('basic', 'extended', 'complete'):
        for base in (2000, 2050, 2100, 2105, 2110, 2125, 1990, 1950):
            lo = 1980 if scope == 'basic' else 1974
            ss = [y for y in [base + d for d in (-129, -128, -127, -126, -125,
                                                 -124, 0, 124, 125, 126)] +
                  [lo, 2000] if y >= lo]
            us = [base + d for d in (0, 123, 124, 125, 126, 127, 128)] + [2010]
            items += [(scope, base, s, e) for s in ss for e in us if s < e]
    ctx.pmap(accepts, list(explore.batches(items, 40)), 'B')
    jobs = []
    for base in (2000, 2100, 2106, 2110, 2126):
        for scope in ('extended', 'basic'):
            lo = max(base - 126, 1980 if scope == 'basic' else 1974)
            for s, un in ((max(lo, 2000), 2010), (lo, base + 125),
                          (max(lo, 2000), base + 124)):
                ys = sorted({base + d for d in
                             (-140, -129, -128, -127, -126, -125, -124, -30,
                              0, 1, 100, 122, 123, 124, 125, 126, 127, 128,
                              129, 140)} | {s - 2, s - 1, s, s + 1, un - 1,
                                            un, un + 1})
                if not ctx.thorough:
                    ys = ys[::2] if scope == 'basic' else ys
                cases = []
                for a in ys:
                    for b in ys + ['max', 'only']:
                        if isinstance(b, int) and b < a:
                            continue
                        # a far-past rule keeps the policy usable
                        cases.append(u.Case({'P': (
                            '1800 1801 Mar 5 2:00 0 -',
                            '%d %s Oct 5 2:00 1:00 D' % (a, b))},
                            ('1:00 P A%s',)))
                for a in ys:
                    cases.append(u.Case({}, ('1:00 - A %d' % a, '2:00 - B')))
                    for b in ys:
                        if b > a:
                            cases.append(u.Case({}, (
                                '1:00 - A %d' % a, '2:00 - B %d' % b,
                                '3:00 - C')))
                jobs += [(scope, base, s, un, b)
                         for b in explore.batches(cases, 250)]
    ctx.pmap(sources, jobs, 'C')


def replay(p):
    if 'kind' in p:
        v = functions()[p['kind']](p['year'], p['base'])
        w = ref(p['kind'], p['year'], p['base'])
        return [] if v == w else ['got %r expected %r' % (v, w)]
    if 'accept' in p:
        return [m for _, m, _ in accepts([p['accept']]).viol]
    scope, base, s, un, (rules, eras) = p['src']
    c = u.Case({k: tuple(v) for k, v in rules.items()}, tuple(eras))
    return [m for _, m, _ in sources((scope, base, s, un, [c])).viol]
