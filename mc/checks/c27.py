"""C27: the notable remarks state exactly the irregularities of what is
emitted."""
import itertools
import json
import re
from .. import cal, explore, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c06 import grans

ID = 'C27'
BOUNDS = (
    'A: every combination of one value per class (on the half hour, quarter, '
    'minute, second; negative; unusual) of STDOFF, RULES, FORMAT, UNTIL day '
    'and time, and of AT, SAVE and LETTER, alone and in pairs of eras and '
    'rules (same remark twice, different remarks, an era or rule out of the '
    'window), every scope, strict and not, 6 granularities; B: the real TZDB '
    'in windows, scopes and granularities.  Every remark about an emitted '
    'zone or policy must state a fact of its emitted source lines and every '
    'irregularity of a documented kind must have its remark')
ASSUMPTIONS = [
    'the kinds of remark are those the compiler has: value off 30, 15 or 1 '
    'minutes, negative or unusual DST, LETTER longer than one letter, policy '
    'without letter or slash in FORMAT, UNTIL day that moves the month, eras '
    'removed at the end; remarks on truncation belong to C06',
    'a remark of a kind not listed is not judged',
]
MORE = ('--ignore_buf_size_too_large',)
Q = r"'([^']*)'"
READ = [
    ('STDOFF', 'off30', re.compile("STDOFF %s not multiple of :30" % Q)),
    ('STDOFF', 'off15', re.compile("STDOFF %s not multiple of :15" % Q)),
    ('UNTIL', 'off15', re.compile("UNTIL %s not multiple of :15" % Q)),
    ('UNTIL', 'off1', re.compile("UNTIL %s not multiple of (?::01|1)" % Q)),
    ('AT', 'off15', re.compile("AT %s not multiple of :15" % Q)),
    ('AT', 'off1', re.compile("AT %s not multiple of (?::01|1)" % Q)),
    ('RULES', 'neg', re.compile("RULES %s is a negative" % Q)),
    ('RULES', 'odd', re.compile("RULES %s different from 1:00" % Q)),
    ('RULES', 'off1', re.compile("RULES %s not multiple of (?::01|1)" % Q)),
    ('SAVE', 'neg', re.compile("SAVE %s is a negative" % Q)),
    ('SAVE', 'odd', re.compile("SAVE %s different from 1:00" % Q)),
    ('SAVE', 'off1', re.compile("SAVE %s not multiple of (?::01|1)" % Q)),
    ('LETTER', 'long', re.compile("LETTER %s not single" % Q)),
    ('FORMAT', 'plain', re.compile('RULES not fixed but FORMAT is missing()')),
    ('DAY', 'shift', re.compile("until_month shifted from '?(\\d+)'? to "
                                "'?(\\d+)'? due to (.*)")),
    ('ERAS', 'removed', re.compile(r'Removed (\d+) zone eras after')),
]


def facts(notes):
    """The listed remarks as facts, and the unknown ones."""
    got = set()
    for n in notes:
        if 'truncated to' in n:
            continue
        for field, kind, rx in READ:
            m = rx.match(n)
            if m:
                got.add((field, kind) + m.groups())
                break
    return got


def dst(field, text, g):
    v = cal.hms(text)
    if v < 0:
        yield field, 'neg', text
    elif v not in (0, 3600):
        yield field, 'odd', text
    if v % 60 and cal.trunc0(v, g) == v:
        yield field, 'off1', text


def clock(field, text, g):
    v = cal.hms(text)
    if v % 900:
        yield field, 'off15', text
    if v % 60 and cal.trunc0(v, g) == v:
        yield field, 'off1', text


def want_zone(eras, n, g):
    """eras: all source eras (tokens), n: (first, last+1) emitted."""
    w = set()
    at, _, de = g
    a, b = n
    for k, t in enumerate(eras[a:b]):
        v = cal.hms(t[0])
        if v % 900:
            w.add(('STDOFF', 'off15', t[0]))
        elif v % 1800:
            w.add(('STDOFF', 'off30', t[0]))
        if ':' in t[1]:
            w |= set(dst('RULES', t[1], de))
        elif t[1] != '-' and '%s' not in t[2] and '/' not in t[2]:
            w.add(('FORMAT', 'plain', ''))
        if len(t) < 4 or a + k == b - 1:
            continue
        if len(t) > 5:
            m = tzmodel.month_no(t[4])
            _, m2, _ = cal.civil(cal.resolve(int(t[3]), m,
                                             cal.parse_on(t[5])))
            if m != m2:
                w.add(('DAY', 'shift', str(m), str(m2), t[5]))
        if len(t) > 6:
            w |= set(clock('UNTIL', tzmodel.split_suffix(t[6])[0], at))
    if b < len(eras):
        w.add(('ERAS', 'removed', str(len(eras) - b)))
    return w


def want_policy(rules, g):
    w = set()
    at, _, de = g
    for t in rules:
        w |= set(clock('AT', tzmodel.split_suffix(t[7])[0], at))
        w |= set(dst('SAVE', t[8], de))
        if len(t[9]) > 1:
            w.add(('LETTER', 'long', t[9]))
    return w


def tokens(files):
    zones, pols = {}, {}
    for f in tzmodel.FILES:
        cur = None
        for line in tzmodel.logical_lines(files.get(f, '')):
            t = line.split()
            if line.startswith('Rule'):
                pols.setdefault(t[1], []).append(t)
            elif line.startswith('Zone'):
                cur = zones.setdefault(t[1], [])
                cur.append(t[2:])
            elif line[0].isspace() and cur is not None:
                cur.append(t)
    return zones, pols


def era_key(t):
    """What identifies an era among those of its zone."""
    return [cal.hms(t[0]), t[1], t[2]]


def judge(j, files, g, win, out, p, where):
    zones, pols = tokens(files)
    for z, info in j['zones_map'].items():
        out.states += 1
        src = zones[z]
        # which run of the source eras is emitted: from the window
        keep = [tzmodel.parse_era(t) for t in src]
        kept = tzmodel.kept_eras(keep, *win)
        n = len(info['eras'])
        first = next(k for k in range(len(keep)) if keep[k] is kept[0])
        if len(kept) != n:
            out.outcome('eras differ from the window (C01)')
            continue
        got = facts(j['notable_zones'].get(z, []))
        want = want_zone(src, (first, first + n), g)
        report('zone ' + z, got, want, out, p, where)
    for name, pol in j['policies_map'].items():
        out.states += 1
        src = pols[name]
        lines = {' '.join(t): t for t in src}
        used, anchor = [], []
        for r in pol['rules']:
            raw = ' '.join(r['raw_line'].split('#')[0].split())
            if r.get('anchor') or raw.startswith('Anchor'):
                continue
            if raw in lines:
                used.append(lines[raw])
        got = facts(j['notable_policies'].get(name, []))
        want = want_policy(used, g)
        # the letter of the anchor may come from a rule before the window
        free = {('LETTER', 'long', t[9]) for t in src}
        report('policy ' + name, got - (free - want), want, out, p, where)


def report(who, got, want, out, p, where):
    if got == want:
        out.outcome('remarks exact' if want else 'nothing to remark')
        return
    for f in sorted(want - got):
        out.bad('missing:%s:%s' % f[:2], '%s: no remark on %s %s; %s' % (
            who, f[0], f[1:], where), p)
    for f in sorted(got - want):
        out.bad('untrue:%s:%s' % f[:2], '%s: remark on %s %s is not true of '
                'the emitted lines; %s' % (who, f[0], f[1:], where), p)


OFFS = ['1:00', '-2:30', '5:45', '0:20', '-0:01:15', '1:00:30', '-3:15']
RULES = ['-', '1:00', '0:30', '-1:00', '2:00', '0:20', '-0:30', '0:20:30']
FORMATS = ['A', 'A/B', 'A%sT', '%z']
DAYS = ['', 'Jun', 'Jun 3', 'Jan Sun>=30', 'Jan lastSun', 'Mar Sun<=3',
        'Jun Sun>=29', 'Jun Sun>=25']
TIMES = ['', '2:00', '2:30', '0:15u', '1:10', '1:10:30s', '0:00:01']
ATS = ['2:00', '0:30u', '1:45s', '1:10', '0:00:01', '23:59:59u']
SAVES = ['0', '1:00', '0:30', '-1:00', '2:00', '0:20', '-0:30', '0:20:30',
         '-0:00:10', '0:00']
LETTERS = ['-', 'D', 'DD', 'WAT', 'a1b']


def policy_case(rules, fmt='A%sT'):
    return u.Case({'P': tuple(rules) + (
        '1991 max Oct 9 3:00 0 S',)}, ('1:00 P ' + fmt,))


def universe(thorough):
    out = []
    for off, r in itertools.product(OFFS, RULES):
        out.append(u.Case({}, ('%s %s A' % (off, r),)))
    for off, d, x in itertools.product(OFFS[:4], DAYS, TIMES):
        if x and len(d.split()) < 2:
            continue
        out.append(u.Case({}, ('%s - A 2001 %s %s' % (off, d, x),
                               '2:00 - B')))
    for a, s, l in itertools.product(ATS, SAVES, LETTERS):
        out.append(policy_case(['1990 max Mar 3 %s %s %s' % (a, s, l)]))
        # before the window / latest before the window / after it
        out.append(policy_case(['1970 1972 Mar 3 %s %s %s' % (a, s, l),
                                '1980 max Mar 3 2:00 1:00 D']))
        out.append(policy_case(['2070 max Mar 3 %s %s %s' % (a, s, l),
                                '1980 max Mar 3 2:00 1:00 D']))
        out.append(policy_case(['1970 1995 Mar 3 %s %s %s' % (a, s, l),
                                '1980 max May 3 2:00 1:00 D']))
    for f in FORMATS:
        out.append(u.Case({'P': ('1990 max Mar 3 2:00 1:00 D',
                                 '1990 max Oct 3 2:00 0 S')},
                          ('1:00 P %s' % f, )))
        out.append(u.Case({'P': ('1990 max Mar 3 2:00 1:00 D',
                                 '1990 max Oct 3 2:00 0 S')},
                          ('1:00 - A 2001 Jun 3 1:00', '1:00 P %s' % f)))
    # pairs of eras: the same, different, outside the window on either side
    era = ['%s %s A' % x for x in itertools.product(OFFS, RULES[::2])]
    un = ['1985 Jan 1', '2001 Jan Sun>=30 1:10', '2002 Jun 3 0:00:01',
          '2040', '2060 Mar 3 1:07']
    for n, (a, b) in enumerate(itertools.product(era, era)):
        for k, x in enumerate(un):
            if thorough or (n + k) % 5 == 0:
                out.append(u.Case({}, ('%s %s' % (a, x), b)))
    for x, y in itertools.combinations(un, 2):
        for a, b in itertools.product(era[::5], era[::7]):
            out.append(u.Case({}, ('%s %s' % (a, x), '%s %s' % (b, y),
                                   '1:00 - Z')))
    # pairs of rules
    rule = ['%s %s %s' % x for x in itertools.product(
        ATS[::2], SAVES[1::3], LETTERS[1:4])]
    for a, b in itertools.product(rule, rule):
        out.append(policy_case(['1990 max Mar 3 ' + a, '1995 2003 Jun 4 ' + b]
                               ))
    return out


GRAINS = [(), (('granularity', 1),), (('granularity', 60),),
          (('granularity', 900),), (('delta_granularity', 1),),
          (('until_at_granularity', 1),)]


def cases(item):
    from ..harness import Out
    out = Out()
    batch, scope, strict, op, win = item
    more = MORE + ('--strict' if strict else '--nostrict',)
    for k, v in op:
        more += ('--' + k, str(v))
    g = grans(scope, op)
    argv = u.argv_for(scope, *win, 'python', actions='json', more=more)
    for res, part in u.compile_batch(batch, argv):
        if not res.ok:
            out.states += 1
            out.outcome('refused')
            continue
        out.traces += 1
        text = ''.join(u.render(c, i) for i, c in part)
        p = {'cases': [[i, dict(c.rules), list(c.eras)] for i, c in part]
             if len(part) < 4 else None, 'scope': scope, 'strict': strict,
             'op': [list(x) for x in op], 'win': list(win)}
        o = type(out)()
        judge(json.loads(res.text('zonedb.json')), {'africa': text}, g, win,
              o, p, '%s %s %s %s' % (scope, strict, op, win))
        if o.viol and len(part) > 1:
            # once more one by one, for a small counterexample
            for one in part:
                out.merge(cases(([one], scope, strict, op, win)))
        else:
            for k, (key, msg, pp) in enumerate(o.viol):
                o.viol[k] = (key, msg + '\n' + text, pp)
            out.merge(o)
    return out


def real(item):
    from ..harness import Out
    out = Out()
    scope, strict, op, win = item
    more = MORE + ('--strict' if strict else '--nostrict',)
    for k, v in op:
        more += ('--' + k, str(v))
    files = real_tzdb()
    res = runner.run_main(files, u.argv_for(scope, *win, 'python',
                                            actions='json', more=more))
    if not res.ok:
        out.outcome('real refused')
        return out
    out.traces += 1
    judge(json.loads(res.text('zonedb.json')), files, grans(scope, op), win,
          out, {'real': [scope, strict, [list(x) for x in op], list(win)]},
          'real TZDB %s' % (item,))
    return out


def check(ctx):
    t = ctx.thorough
    cs = list(enumerate(universe(t)))
    ctx.notes['cases'] = len(cs)
    ctx.transitions += len(cs)
    items = []
    for scope in ('basic', 'extended', 'complete'):
        for strict in (True, False):
            for k, op in enumerate(GRAINS):
                if strict and scope != 'basic' and (
                        k != 1 or scope != 'complete'):
                    continue        # refused or the same
                sub = cs if t or k < 2 else cs[k % 4::4]
                for b in explore.batches(sub, 150):
                    items.append((b, scope, strict, op, (2000, 2050)))
    for k, w in enumerate(((1980, 2003), (2030, 2080), (2001, 2002))):
        for b in explore.batches(cs[k % 3::3] if not t else cs, 150):
            items.append((b, 'complete', False, (), w))
    ctx.pmap(cases, items, 'A')
    ctx.pmap(real, [(sc, st, op, w) for sc in ('basic', 'extended', 'complete')
                    for st in (True, False) for op in GRAINS
                    for w in ((2000, 2050), (1980, 2060), (2020, 2070))
                    if t or (sc == 'complete') != st], 'B')


def replay(p):
    if 'real' in p:
        sc, st, op, w = p['real']
        o = real((sc, st, tuple(tuple(x) for x in op), tuple(w)))
    elif not p['cases']:
        return ['batch only']
    else:
        o = cases(([(i, u.Case({k: tuple(v) for k, v in r.items()}, tuple(e)))
                    for i, r, e in p['cases']], p['scope'], p['strict'],
                   tuple(tuple(x) for x in p['op']), tuple(p['win'])))
    return [m for _, m, _ in o.viol]
