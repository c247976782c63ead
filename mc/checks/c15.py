"""C15: buffer-size estimates are the true maxima over the checked years."""
import itertools
import json
import re
from .. import decode_go, explore, hdr, runner
from .. import universe as u

ID = 'C15'
BOUNDS = (
    'A: a zone whose processor reports, in each of the 5 (thorough: 7) years '
    'scanned, any of 3-4 sizes and is terminal or not, all combinations '
    '(thousands of such zones per compile), for windows before, around and '
    'after the years of the data; B: databases of 3 zones with all triples of '
    'maxima 1..10, with and without --ignore_buf_size_too_large, every scope '
    'and language; C: a processor that fails in any one year; D: compiles '
    'without estimation')
ASSUMPTIONS = [
    'the zone processor (package acetime, not in this repository) is the '
    'environment: its answers are enumerated, not computed',
    'it reports sizes of at least 1',
]
LIMIT = 8
POL = ('Rule\tP\t%d\tmax\t-\tMar\t1\t0:00\t1:00\tD\n'
       'Rule\tP\t%d\tmax\t-\tOct\t1\t0:00\t0\tS\n')
# data text -> (min, max) year of the kept data, or None
DATA = {
    'none': ('', None),
    'old': (POL % (1995, 1997) + 'Zone\tX/P\t1:00\tP\tA%sT\n', (1995, 1997)),
    'new': (POL % (1999, 2003) + 'Zone\tX/P\t1:00\tP\tA%sT\n', (1999, 2003)),
    'until': ('Zone\tX/P\t1:00\t-\tA\t2001\n\t\t2:00\t-\tB\n', (2001, 2001)),
}


class Script:
    """The environment: answers by zone name and year; the rest is constant."""

    def __init__(self, table):
        self.t = table

    def sizes(self, info, year):
        f = self.t.get(info['name'])
        if f is None:
            return (1, 1)
        b = f[0](year)
        return (12 - b, b)      # the active size runs against it

    def terminal(self, info, year):
        f = self.t.get(info['name'])
        return bool(f and f[1](year))


def run(table, text, argv):
    s = Script(table)
    old = runner.Env.sizes, runner.Env.terminal
    runner.Env.sizes = staticmethod(s.sizes)
    runner.Env.terminal = staticmethod(s.terminal)
    runner.Env.calls = []
    try:
        res = runner.run_main({'asia': text}, argv, timeout=200)
    finally:
        calls = runner.Env.calls
        runner.Env.sizes, runner.Env.terminal = old
        runner.Env.calls = None
    by = {}
    for n, y in calls:
        by.setdefault(n, []).append(y)
    return res, by


def judge(zone, size, term, years, rng, got, out, p):
    """years: scanned; rng: (first, last) to scan; got: (n, year)."""
    out.traces += 1
    lo, hi = rng
    stop = next((y for y in range(lo, hi + 1) if term(y - 2)), hi)
    out.outcome('full scan' if stop == hi else 'early stop')
    if years != list(range(lo, lo + len(years))) or not (
            stop <= lo + len(years) - 1 <= hi):
        out.bad('scan', '%s: years scanned %s, expected %d..%d' % (
            zone, years, lo, stop), p)
        return
    best = max(size(y) for y in years)
    first = next(y for y in years if size(y) == best)
    if tuple(got) != (best, first):
        out.bad('maximum', '%s: estimate %s, the processor reports %s over '
                '%s' % (zone, got, [size(y) for y in years], years), p)


def functions(item):
    from ..harness import Out
    out = Out()
    data, s, un, lang, lo, hi, combos = item
    text, _ = DATA[data]
    table = {}
    for n, (sz, tm) in enumerate(combos):
        sd = dict(zip(range(lo, hi + 1), sz))
        td = dict(zip(range(lo - 2, hi - 1), tm))
        table['Z/N%d' % n] = (lambda y, d=sd: d.get(y, 1),
                              lambda y, d=td: d.get(y, False))
        text += 'Zone\tZ/N%d\t1:00\t-\tA\n' % n
    av = u.argv_for('complete', s, un, lang,
                    more=('--ignore_buf_size_too_large',))
    res, by = run(table, text, av)
    p = {'part': 'A', 'item': item}
    out.states += len(combos)
    if not res.ok:
        out.bad('refused', str(res.exc), p)
        return out
    j = json.loads(res.files['zonedb.json'])
    buf = j['buf_sizes']
    if set(buf) != set(j['zones_map']):
        out.bad('zones', 'estimates for %s' % sorted(
            set(buf) ^ set(j['zones_map']))[:5], p)
        return out
    for n in range(len(combos)):
        z = 'Z/N%d' % n
        judge(z, table[z][0], table[z][1], by.get(z, []), (lo, hi), buf[z],
              out, {'part': 'A', 'item': [data, s, un, lang, lo, hi,
                                          [combos[n]]]})
    if data != 'none' and by['X/P'] != list(range(lo, hi + 1)):
        out.bad('scan', 'X/P scanned %s' % by['X/P'], p)
    if j['max_buf_size'] != max(v[0] for v in buf.values()):
        out.bad('database', 'max_buf_size %d' % j['max_buf_size'], p)
    if (j['estimator_min_year'], j['estimator_max_year']) != (
            lo + 1, max(y[-1] for y in by.values())):
        out.bad('years', 'estimator years %s..%s, scanned %d..%d' % (
            j['estimator_min_year'], j['estimator_max_year'], lo,
            max(y[-1] for y in by.values())), p)
    if lang in ('arduino', 'c'):
        constants(res, lang, buf, j['max_buf_size'], out, p)
    return out


def norm(n):
    return re.sub('[^A-Za-z0-9_]', '_', n.replace('+', '_PLUS_'))


def constants(res, lang, buf, best, out, p):
    """The numbers compiled into the C and C++ headers."""
    got = hdr.buf_sizes(res.files, lang)
    want = {norm(z): (v[0], '%s in %d' % (z, v[1])) for z, v in buf.items()}
    if got != want:
        out.bad('constants', '%s constants: %s' % (lang, [
            (k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want))
            if got.get(k) != want.get(k)][:3]), p)
    t = res.text('zone_infos.' + ('cpp' if lang == 'arduino' else 'c'))
    m = re.findall(r'^  (\d+) /\*max_?[tT]ransitions\*/', t, re.M)
    if m != [str(best)]:
        out.bad('context', '%s context has %s, maximum %d' % (lang, m, best),
                p)


def triples(item):
    from ..harness import Out
    out = Out()
    scope, lang, ignore, ts = item
    for tri in ts:
        out.states += 1
        table = {}
        text = ''
        for i, b in enumerate(tri):
            table['Z/N%d' % i] = (lambda y, b=b, i=i: b if y == 2000 + i
                                  else 1, lambda y, i=i: y == 2001 + i)
            text += 'Zone\tZ/N%d\t1:00\t-\tA\nLink\tZ/N%d\tL/N%d\n' % (
                i, i, i)
        av = u.argv_for(scope, 2000, 2010, lang, more=(
            '--ignore_buf_size_too_large',) if ignore else ())
        res, by = run(table, text, av)
        p = {'part': 'B', 'item': [scope, lang, ignore, [list(tri)]]}
        big = max(tri) > LIMIT
        if big and not ignore:
            out.outcome('refused')
            if res.ok:
                out.bad('limit', 'maxima %s accepted' % (tri,), p)
            elif res.files:
                out.bad('partial', 'files written: %s' % sorted(res.files), p)
            elif not res.exc:
                out.bad('message', 'no message', p)
            continue
        out.outcome('accepted')
        if not res.ok:
            out.bad('limit', 'maxima %s refused: %s' % (tri, res.exc), p)
            continue
        j = json.loads(res.files['zonedb.json'])
        want = {'Z/N%d' % i: [b, 2000 + i if b > 1 else 1999]
                for i, b in enumerate(tri)}
        if j['buf_sizes'] != want or j['max_buf_size'] != max(tri):
            out.bad('maximum', 'maxima %s: %s, %s' % (
                tri, j['buf_sizes'], j['max_buf_size']), p)
        for i in range(3):
            judge('Z/N%d' % i, *table['Z/N%d' % i], by['Z/N%d' % i],
                  (1999, 2010), want['Z/N%d' % i], out, p)
        if lang in ('arduino', 'c'):
            constants(res, lang, want, max(tri), out, p)
        if lang == 'go':
            m = decode_go.decode(res.files).context['MaxTransitions']
            if m != max(tri):
                out.bad('context', 'go MaxTransitions %s' % m, p)
    return out


def failing(item):
    """The processor fails in one year: no estimate may come out."""
    from ..harness import Out
    out = Out()
    scope, lang = item
    for y0 in range(1997, 2014):
        out.states += 1
        out.traces += 1

        def size(y):
            if y == y0:
                raise ValueError('processor failed')
            return 3
        res, by = run({'Z/A': (size, lambda y: False)},
                      'Zone\tZ/A\t1:00\t-\tA\nZone\tZ/B\t1:00\t-\tA\n',
                      u.argv_for(scope, 2000, 2010, lang))
        p = {'part': 'C', 'item': [scope, lang]}
        inside = 1999 <= y0 <= 2010
        out.outcome('failed' if inside else 'not reached')
        if res.ok == inside or (inside and res.files):
            out.bad('failure', 'processor fails in %d: %s %s' % (
                y0, res.kind, sorted(res.files)), p)
    # skipped
    res, by = run({}, 'Zone\tZ/A\t1:00\t-\tA\n', u.argv_for(
        scope, 2000, 2010, lang, more=('--skip_bufestimator',)))
    out.states += 1
    out.outcome('skipped')
    j = json.loads(res.files['zonedb.json'])
    if by or j['buf_sizes'] or j['max_buf_size']:
        out.bad('skip', 'skipped, but %s %s' % (by, j['buf_sizes']),
                {'part': 'C', 'item': [scope, lang]})
    if lang in ('arduino', 'c') and hdr.buf_sizes(res.files, lang):
        out.bad('skip', 'constants without an estimate',
                {'part': 'C', 'item': [scope, lang]})
    return out


def combos(n, vals):
    """All (sizes, terminal) of n years.  Answers of is_terminal_year that
    cannot be reached after a stop are still enumerated."""
    for sz in itertools.product(vals, repeat=n):
        for tm in itertools.product((False, True), repeat=n):
            yield sz, tm


def windows():
    for data, (text, rng) in DATA.items():
        for s, un in ((2000, 2003), (2000, 2002), (1996, 1998),
                      (2004, 2006)):
            if rng is None:
                lo, hi = s, un
            elif data == 'until' and s > rng[1]:
                lo, hi = s, un      # the era is not kept
            elif data == 'new' and un < 2000:
                continue        # the rules are too new
            elif data == 'new' and un < 2003:
                lo, hi = min(s, 1999), un   # the rule of 2003 is not kept
            elif data == 'until' and un < rng[0]:
                lo, hi = s, un
            else:
                lo, hi = min(s, rng[0]), max(un, rng[1] + 1)
            yield data, s, un, lo - 1, hi


def check(ctx):
    items = []
    langs = ['python', 'arduino', 'c', 'go']
    n = 0
    full = 7 if ctx.thorough else 5
    for data, s, un, lo, hi in windows():
        years = hi - lo + 1
        k = min(full, years)
        cs = []
        vals = (2, 5, 9) if years <= 5 or ctx.thorough else (2, 5)
        # the last k years vary, the years before them are constant
        for sz, tm in combos(k, vals):
            for fill in (2, 7) if years > k else (2,):
                cs.append(((fill,) * (years - k) + sz,
                           (False,) * (years - k) + tm))
        for b in explore.batches(cs, 500):
            items.append((data, s, un, langs[n % 4], lo, hi, b))
            n += 1
    # 4 sizes over one window
    cs = list(combos(4, (1, 7, 8, 9)))
    for b in explore.batches(cs, 500):
        items.append(('none', 2000, 2002, langs[n % 4], 1999, 2002, b))
        n += 1
    ctx.transitions += sum(len(i[6]) for i in items)
    ctx.pmap(functions, items, 'functions')
    top = range(1, 11) if ctx.thorough else (1, 2, 3, 7, 8, 9, 10)
    ts = list(itertools.product(top, repeat=3))
    it = []
    for scope in ('basic', 'extended', 'complete'):
        for lang in langs:
            for ig in (True, False):
                if not ctx.thorough and n % 4:
                    n += 1
                    ts2 = ts[n % 3::3]
                else:
                    n += 1
                    ts2 = ts
                it += [(scope, lang, ig, b)
                       for b in explore.batches(ts2, 120)]
    ctx.pmap(triples, it, 'triples')
    ctx.pmap(failing, [(s, l) for s in ('basic', 'extended', 'complete')
                       for l in langs], 'failing')


def replay(p):
    it = p['item']
    if p['part'] == 'A':
        o = functions(tuple(it[:6]) + ([tuple(map(tuple, c))
                                        for c in it[6]],))
    else:
        o = {'B': triples, 'C': failing}[p['part']](tuple(it))
    return [m for _, m, _ in o.viol]
