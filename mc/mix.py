"""Databases assembled from a small catalogue of zone kinds, each good or bad
for a known reason in a known scope, plus links and unused policies.

Every kind renders the text of zone number i with policies of its own.
kind -> (text template, {scope: expected})   expected 'ok', or 'drop' (the zone
cannot be emitted in that scope)
{z} zone name, {p} {q} policy names."""

GOOD_P = ('Rule\t{p}\t1990\tmax\t-\tMar\tlastSun\t1:00u\t1:00\tD\n'
          'Rule\t{p}\t1990\tmax\t-\tOct\tlastSun\t1:00u\t0\tS\n')
GOOD_Q = ('Rule\t{q}\t1985\t2001\t-\tApr\tSun>=1\t2:00\t1:00\tD\n'
          'Rule\t{q}\t1985\tmax\t-\tSep\tSun>=1\t2:00\t0\tS\n')


def _p(*rules):
    return ''.join('Rule\t{p}\t%s\n' % r.replace(' ', '\t') for r in rules)


OK = {'basic': 'ok', 'extended': 'ok', 'complete': 'ok'}
BASIC = {'basic': 'drop', 'extended': 'ok', 'complete': 'ok'}
BAD = {'basic': 'drop', 'extended': 'drop', 'complete': 'drop'}
LOW = {'basic': 'drop', 'extended': 'drop', 'complete': 'ok'}

EARLY = ('1980 1981 - Apr 1 0:00 1:00 D', '1980 1981 - Sep 1 0:00 0 S',
         '1985 max - Apr 3 0:00 1:00 D', '1985 max - Sep 3 0:00 0 S')
LATE = ('1995 max - May 1 2:00 1:00 D', '1995 max - Nov 1 2:00 0 S',
        '2030 2031 - Jul 1 2:00 1:00 V', '2030 2031 - Jul 9 2:00 0 S')

KINDS = {
    # good everywhere; rules lost only after (before) the window
    'late': (_p(*LATE) + 'Zone\t{z}\t3:00\t{p}\tA%sT\n', OK),
    'early': (_p(*EARLY) + 'Zone\t{z}\t3:00\t{p}\tA%sT\n', OK),
    'later': (_p(*LATE) + 'Zone\t{z}\t4:00\t{p}\tA%sT\n', OK),
    'fixed': ('Zone\t{z}\t1:00\t-\tAAA\n', OK),
    'policy': (GOOD_P + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', OK),
    'two': (GOOD_P + GOOD_Q + 'Zone\t{z}\t1:00\t{p}\tA%sT\t2002\n'
            '\t\t\t2:00\t{q}\tB%sT\n', OK),
    'old': ('Zone\t{z}\t0:17:30\t-\tLMT\t1950\n\t\t\t1:00\t-\tA\n', OK),
    'new': ('Zone\t{z}\t1:00\t-\tA\t2010\n\t\t\t2:00\t-\tB\n', OK),
    'oldpol': (GOOD_Q.replace('{q}', '{p}') + 'Zone\t{z}\t1:00\t{p}\tA%sT\t'
               '1980\n\t\t\t1:00\t-\tB\n', OK),
    # beyond basic
    'month': ('Zone\t{z}\t1:00\t-\tA\t2001 Jun\n\t\t\t2:00\t-\tB\n', BASIC),
    'day': ('Zone\t{z}\t1:00\t-\tA\t2001 Jan 2\n\t\t\t2:00\t-\tB\n', BASIC),
    'time': ('Zone\t{z}\t1:00\t-\tA\t2001 Jan 1 3:00\n\t\t\t2:00\t-\tB\n',
             BASIC),
    'dst': ('Zone\t{z}\t1:00\t1:00\tA\n', BASIC),
    'double': (_p('1990 max - Mar 1 0:00 1:00 D', '1990 max - Mar 20 0:00 0 '
                  'S') + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', BASIC),
    'border': (_p('1990 max - Jan 1 0:00 1:00 D', '1990 max - Jun 1 0:00 0 '
                  'S') + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', BASIC),
    'mixed': (_p('1990 max - Mar 1 0:00 1:00 D', '1990 max - Mar 20 0:00 0 '
                 'S') + GOOD_Q + 'Zone\t{z}\t1:00\t{p}\tA%sT\t2002\n'
              '\t\t\t2:00\t{q}\tB%sT\n', BASIC),
    # unsupported everywhere
    'nopolicy': ('Zone\t{z}\t1:00\tNone{p}\tA%sT\n', BAD),
    'badday': ('Zone\t{z}\t1:00\t-\tA\t2001 Feb 30\n\t\t\t2:00\t-\tB\n', BAD),
    'shift': ('Zone\t{z}\t1:00\t-\tA\t2001 Dec Tue>=30\n\t\t\t2:00\t-\tB\n',
              BAD),
    'badoff': ('Zone\t{z}\t1:60\t-\tA\n', BAD),
    'nonmono': ('Zone\t{z}\t1:00\t-\tA\t2002\n\t\t\t2:00\t-\tB\t2001\n'
                '\t\t\t3:00\t-\tC\n', BAD),
    'badsuffix': ('Zone\t{z}\t1:00\t-\tA\t2001 Jan 1 0:00g\n'
                  '\t\t\t2:00\t-\tB\n', BAD),
    'badsave': (_p('1990 max - Mar 1 0:00 3:00 D', '1990 max - Oct 1 0:00 0 '
                   'S') + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', BAD),
    'badon': (_p('1990 max - Mar Xun>=1 0:00 1:00 D', '1990 max - Oct 1 0:00 '
                 '0 S') + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', BAD),
    'badat': (_p('1990 max - Mar 1 26:00 1:00 D', '1990 max - Oct 1 0:00 0 '
                 'S') + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', BAD),
    'half': (_p('1990 max - Mar 1 26:00 1:00 D', '1990 max - Oct 1 0:00 0 S')
             + GOOD_Q + 'Zone\t{z}\t1:00\t{q}\tA%sT\t2002\n'
             '\t\t\t2:00\t{p}\tB%sT\n', BAD),
    # off the low granularity (strict)
    'seconds': ('Zone\t{z}\t1:00:30\t-\tA\n', LOW),
    'save10': (_p('1990 max - Mar 1 0:00 0:20 D', '1990 max - Oct 1 0:00 0 S')
               + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', LOW),
    'at30': (_p('1990 max - Mar 1 0:00:30 1:00 D', '1990 max - Oct 1 0:00 0 '
                'S') + 'Zone\t{z}\t1:00\t{p}\tA%sT\n', LOW),
}


def zname(i):
    return 'Z/K%d' % i


def pname(i):
    return 'P%d' % i


def qname(i):
    return 'Q%d' % i


def render(kind, i):
    return KINDS[kind][0].format(z=zname(i), p=pname(i), q=qname(i))


def expected(kind, scope):
    return KINDS[kind][1][scope]


def policies(kind, i):
    t = KINDS[kind][0]
    out = []
    if 'Rule\t{p}' in t:
        out.append(pname(i))
    if 'Rule\t{q}' in t:
        out.append(qname(i))
    return out
