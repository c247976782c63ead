"""Bounded universes of TZDB sources, and batched compilation of them by the
real compiler.

A Case is one independent zone with the policies only it uses:
  rules  {'P': [rule text fields after the name, joined by spaces], ...}
  eras   [era text fields joined by spaces]; RULES may name 'P', 'Q', ...
Rendering gives every case its own zone and policy names, so hundreds of cases
travel through one compile; if the compile fails the batch is bisected down to
the single failing case.
"""
import collections
import itertools
from . import explore, runner, tzmodel

Case = collections.namedtuple('Case', 'rules eras')


def zname(i):
    return 'Z/C%d' % i


def pname(p, i):
    return '%s%d' % (p, i)


def render(case, i, zone=None):
    """Text of case number i."""
    zone = zone or zname(i)
    out = []
    for p in sorted(case.rules):
        for r in case.rules[p]:
            f = r.split()
            # FROM TO IN ON AT SAVE LETTER
            out.append('Rule\t%s\t%s\t%s\t-\t%s\t%s\t%s\t%s\t%s' % (
                pname(p, i), f[0], f[1], f[2], f[3], f[4], f[5], f[6]))
    first = True
    for e in case.eras:
        f = e.split()
        if f[1] in case.rules:
            f[1] = pname(f[1], i)
        body = '\t'.join(f[:3]) + ('\t' + ' '.join(f[3:]) if f[3:] else '')
        out.append(('Zone\t%s\t' % zone if first else '\t\t\t') + body)
        first = False
    return '\n'.join(out) + '\n'


def source(case, i):
    return tzmodel.parse_source({'africa': render(case, i)})


def compile_batch(cases, argv, fname='africa', extra='', prefix='',
                  timeout=120):
    """Compile [(i, Case)] together.  Yields (Result, [(i, Case)]) for each
    compile that succeeded and (Result, [(i, Case)]) of one case for each case
    that does not compile even alone (or hangs)."""
    stack = [list(cases)]
    while stack:
        part = stack.pop()
        if not part:
            continue
        text = prefix + ''.join(render(c, i) for i, c in part) + extra
        res = runner.run_main({fname: text}, argv, timeout)
        if res.ok or len(part) == 1:
            yield res, part
        else:
            m = len(part) // 2
            stack.append(part[m:])
            stack.append(part[:m])


def argv_for(scope, start, until, languages, actions='zonedb,json', more=()):
    return ['--actions', actions, '--languages', languages, '--scope', scope,
            '--start_year', str(start), '--until_year', str(until),
            '--tz_version', '2026e', '--db_namespace', 'zonedb'] + list(more)


# --- alphabets -------------------------------------------------------------
# All relative to the window [S, U) = [2000, 2004).

S, U = 2000, 2004

SPANS = ['1990 only', '1995 1997', '1997 1998', '1998 only', '1998 1999',
         '1999 only', '1990 max', '2000 max', '2001 2003', '2003 only',
         '2004 only', '2004 max', '2005 only', '2005 max', '2006 only',
         '1996 2006']
WHEN3 = ['Mar lastSun 1:00u', 'Oct Sun>=1 2:00', 'Jul 15 3:00s']
WHEN_EDGE = ['Jan 1 0:00', 'Dec 31 24:00', 'Dec 30 23:00s', 'Apr Fri<=1 2:00',
             'Sep Sun>=25 25:00', 'Feb 28 0:00u']
SAVES = ['0 S', '1:00 D']
SAVES_ALL = ['0 S', '0 -', '1:00 D', '0:30 +01', '2:00 DD', '-1:00 W']


def rules_of(spans, whens, saves):
    return ['%s %s %s' % t for t in itertools.product(spans, whens, saves)]


def has_std(rs):
    return any(r.split()[5] == '0' for r in rs)


def policy_universe(level):
    """Rule sets (each a tuple of rule texts) reachable by adding rules."""
    out = []
    trans = 0

    def take(alpha, lo, hi):
        nonlocal trans
        r = explore.subsets(alpha, lo, hi)
        trans += r.transitions
        out.extend(r.states)

    # one and two rules: all spans, dates and both saves
    take(rules_of(SPANS, WHEN3[:2] if level == 0 else WHEN3, SAVES), 1, 2)
    # edges of the year
    take(rules_of(['1990 1998', '1998 max', '2000 2003', '2004 only',
                   '2005 max'], WHEN_EDGE, SAVES), 1, 2)
    # three rules
    take(rules_of(['1995 1997', '1998 only', '1990 max', '2000 2003',
                   '2004 max', '2005 2006'] if level == 0 else SPANS[1:13],
                  WHEN3[:2], SAVES), 3, 3)
    # unusual savings
    take(rules_of(['1997 1998', '2001 max', '2004 only'],
                  WHEN3[:2], SAVES_ALL), 2, 2 if level == 0 else 3)
    if level:
        take(rules_of(['1997 1998', '1998 1999', '2000 2003', '2004 max'],
                      WHEN3[:2], SAVES), 4, 4)
    return list(dict.fromkeys(out)), trans


UNTILS = ['1996', '1998', '1998 Dec 31 24:00', '1999', '1999 Jun 15 2:00',
          '2000', '2000 Mar lastSun 1:00u', '2002 Feb 29 0:00s'.replace(
              '29', '28'), '2003 Dec 31 24:00', '2004', '2004 Aug Sun>=8 2:00s',
          '2005', '2005 Jan 1 3:00u', '2005 Jul', '2006', '2006 Nov lastFri '
          '2:00', '2007']
BODIES = ['1:00 - AAA', '2:00 P B%sT', '-3:30 1:00 C', '2:00 Q D/E',
          '0:17:30 - LMT', '-9:15 P %z']
P_RULES = ('1990 max Mar lastSun 1:00u 1:00 D', '1990 max Oct Sun>=1 2:00 0 S')
Q_RULES = ('1985 1998 Apr Sun>=1 2:00 1:00 -', '1985 1998 Oct lastSun 2:00 0 -',
           '2001 2003 May 1 0:00s 0:30 -', '2001 2003 Sep Fri<=30 0:00 0 -')


def era_universe(max_eras, bodies, untils):
    """Every zone history: append eras with increasing UNTIL, then a final
    era.  States are the closed histories."""
    def succ(s):
        done, last, closed = s
        if closed:
            return
        for b in bodies:
            yield (done + (b,), last, True)
        if len(done) + 1 < max_eras:
            for u in range(last + 1, len(untils)):
                for b in bodies:
                    yield (done + (b + ' ' + untils[u],), u, False)
    r = explore.reach([((), -1, False)], succ, max_eras + 1)
    hist = [s[0] for s in r.states if s[2]]
    return hist, r.transitions


def wrap_policy(rs, kind):
    """A case that observes rule set rs."""
    if kind == 0:
        eras = ('1:00 P A%sT',)
    elif kind == 1:
        eras = ('0:30 - LMT 1999 Jun 15 2:00', '-5:00 P X%sT')
    elif kind == 2:
        eras = ('3:00 P F/G 2002 Apr 1 0:00s', '3:00 - H')
    elif kind == 3:
        eras = ('1:00 1:00 M 1996', '-1:00 P %z 2004 Mar lastSun 1:00u',
                '2:00 P N%s')
    return Case({'P': tuple(rs)}, eras)


def wrap_eras(hist):
    used = {h.split()[1] for h in hist}
    rules = {}
    if 'P' in used:
        rules['P'] = P_RULES
    if 'Q' in used:
        rules['Q'] = Q_RULES
    return Case(rules, tuple(hist))
