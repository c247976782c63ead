"""Sweeps of every field of eras and rules through its whole domain, as cases
whose records must come back exactly from an artifact."""
import itertools
from . import tzmodel
from . import universe as u


def hm(secs):
    s = '-' if secs < 0 else ''
    a = abs(secs)
    t = '%d:%02d' % (a // 3600, a // 60 % 60)
    return s + t + (':%02d' % (a % 60) if a % 60 else '')


DATES = ['Mar lastSun', 'Feb 28', 'Apr Fri<=1', 'Sep Sun>=25', 'Dec 31',
         'Jul Mon>=1', 'Nov lastSat', 'Jun 15', 'Aug Thu<=31', 'May Tue>=24']
SUF = ['', 's', 'u']


def rule_texts(low, level):
    """FROM TO IN ON AT SAVE LETTER texts, one list per swept field."""
    sweeps = {}
    ys = list(range(1985, 2224)) if low else (
        list(range(1800, 2301)) + [1, 2, 99, 100, 255, 256, 1582, 1799, 2999,
                                   4095, 4096, 8191, 9900])
    y = []
    for n, f in enumerate(ys):
        for t in ('only', str(f + 1), str(min(f + 130, 2225 if low else
                                              9990)), 'max'):
            if t.isdigit() and int(t) <= f:
                continue
            y.append('%d %s %s 2:00 1:00 D' % (f, t, DATES[n % 10]))
    sweeps['years'] = y
    step = 60
    at = []
    n = 0
    for s in range(0, 90001, step):
        for x in SUF:
            at.append('1990 max %s %s%s 1:00 D' % (DATES[n % 10], hm(s), x))
            n += 1
    if not low:
        secs = range(0, 90001) if level else itertools.chain(
            range(0, 3700), range(65500, 65600), range(86350, 86450),
            range(89950, 90001))
        for s in secs:
            if s % 60:
                at.append('1990 max %s %s%s 1:00 D' % (DATES[n % 10], hm(s),
                                                       SUF[n % 3]))
                n += 1
    sweeps['at'] = at
    # savings x remainder x suffix, all combinations of the packed fields
    save = range(-3600, 9901, 900) if low else range(-3600, 7621, 60)
    sv = []
    for d in save:
        for r in range(15) if low else (0, 1, 14):
            for x in SUF:
                a = 7200 + r * (60 if low else 1)
                sv.append('1990 max %s %s%s %s %s' % (
                    DATES[n % 10], hm(a), x, hm(d), 'XYZ'[n % 3]))
                n += 1
    sweeps['save'] = sv
    sweeps['letter'] = ['1990 max %s 2:00 1:00 %s' % (DATES[i % 10], l)
                        for i, l in enumerate(
                            ['-', 'A', 'z', 'WAT', '+01', '-0330', 'ABCDEFGH',
                             '0', 'SD'] + ['L%d' % i for i in range(20)])]
    sweeps['date'] = ['1990 max %s %s 2:00 1:00 D' % (m, d)
                      for m in ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun',
                                'Jul', 'Aug', 'Sep', 'Nov', 'Dec')
                      for d in ['1', '2', '27', '28', 'lastSun', 'lastMon',
                                'Sun>=8', 'Sat>=15', 'Mon<=14', 'Fri<=25']]
    return sweeps


STD = '1985 max Oct lastSun 2:00 0 S'


def rule_cases(low, level):
    """Cases of 30 swept rules... one policy per rule keeps them apart."""
    out = []
    for name, rules in rule_texts(low, level).items():
        for r in rules:
            out.append((name, u.Case({'P': (STD, r)}, ('1:00 P A%sT',))))
    return out


def era_cases(low, level):
    out = []

    def add(name, *eras):
        out.append((name, u.Case({}, tuple(eras))))
    lim = 25 * 3600
    for s in range(-lim, lim + 1, 60):
        add('offset', hm(s) + ' - A')
    if not low:
        near = range(-lim, lim + 1) if level else itertools.chain(
            range(-3700, 3700), range(lim - 40, lim + 1),
            range(-lim, -lim + 40), range(32700, 32800),
            range(-32800, -32700))
        for s in near:
            if s % 60:
                add('offset', hm(s) + ' - A')
    # offset remainder x saving: they share a byte
    save = range(-3600, 9901, 900) if low else range(-7680, 7621, 60)
    for d in save:
        if d == 0:
            continue
        for r in range(15):
            a = r * (60 if low else 1)
            add('delta', '%s %s A' % (hm(a + 3600), hm(d)))
            add('delta', '%s %s A' % (hm(a - 3600 * 5), hm(d)))
    n = 0
    for s in range(0, 90001, 60):
        for x in SUF:
            add('until', '1:00 - A 2001 %s %s%s' % (
                ['Mar 5', 'Jan 1', 'Dec 31', 'Jun 30'][n % 4], hm(s), x),
                '2:00 - B')
            n += 1
    if not low:
        for s in (range(0, 90001) if level else itertools.chain(
                range(0, 1000), range(65500, 65600), range(89900, 90001))):
            if s % 60:
                add('until', '1:00 - A 2001 Mar 5 %s%s' % (hm(s), SUF[n % 3]),
                    '2:00 - B')
                n += 1
    days = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    for m, k in enumerate(days):
        for d in range(1, k + 1):
            add('day', '1:00 - A 2004 %s %d 1:00' % (
                'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()[m],
                d), '2:00 - B')
    for y in (range(1985, 2224) if low else itertools.chain(
            [2, 99, 100, 255, 256, 1582], range(1800, 2301),
            [4095, 4096, 8191, 9998])):
        add('year', '1:00 - A %d' % y, '2:00 - B')
        add('year', '1:00 - A %d Jul 4 2:00u' % y, '2:00 - B')
    for f in ['A%sT', '%s', 'A/B', '%z', '+05', '-0330', 'LMT', 'ABCDEFGHIJ']:
        if '%s' in f:
            out.append(('format', u.Case({'P': (STD, '1990 max Mar 1 2:00 '
                                                '1:00 D')},
                                         ('1:00 P %s 2001' % f,
                                          '2:00 P x%s' % f))))
        else:
            add('format', '1:00 - %s 2001' % f, '2:00 - %s' % f)
    return out


def expected(case, i):
    """Source records of case i: (eras with None or the policy's rules)."""
    src = u.source(case, i)
    z = u.zname(i)
    return [e if e.policy is None else
            e._replace(policy=tuple(src.policies[e.policy]))
            for e in src.zones[z]]


def short(fmt):
    return '' if fmt == '%z' else fmt.replace('%s', '%')


def plain(eras):
    """Comparable form: short format, rules as a set without the anchor."""
    out = []
    for e in eras:
        p = e.policy
        if p is not None:
            p = tuple(sorted((r for r in p if r.frm != tzmodel.MIN_YEAR),
                             key=repr))
        out.append(e._replace(fmt=short(e.fmt), policy=p))
    return out


