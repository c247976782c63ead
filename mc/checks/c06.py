"""C06: granularity: strict removes, nostrict truncates toward zero, noted."""
import itertools
import json
import re
from .. import cal, explore, runner, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c01 import mixed_decode

ID = 'C06'
BOUNDS = (
    'A: each of STDOFF, RULES, UNTIL, AT, SAVE over every second next to every '
    'multiple of the granularities (thorough: every second of 3 hours), one '
    'at a time, under the defaults of every scope and 7 granularity options, '
    'strict and not; B: every combination of 5 fields over {on, off below, '
    'off above, negative}; C: emitted Arduino, C and Go tables; D: the real '
    'TZDB; strict removal is observed in basic scope as a removal and in the '
    'others as a refusal')
ASSUMPTIONS = ['a granularity finer than the low-resolution tables is '
               'examined on the Python and JSON outputs only']
MORE = ('--ignore_buf_size_too_large',)
DEF = {'basic': (60, 60, 900), 'extended': (60, 60, 900),
       'complete': (1, 1, 60)}


def grans(scope, opts):
    a, o, d = DEF[scope]
    opts = dict(opts)
    if 'granularity' in opts:
        a = o = d = opts['granularity']
    else:
        a = opts.get('until_at_granularity', a)
        o = opts.get('offset_granularity', o)
        d = opts.get('delta_granularity', d)
    return a, o, d


def hms(v):
    s = '-' if v < 0 else ''
    v = abs(v)
    t = '%s%d:%02d' % (s, v // 3600, v // 60 % 60)
    return t + (':%02d' % (v % 60) if v % 60 else '')


def make(off=3600, rules=None, until=None, at=None, save=None):
    """A zone with the given values (None = a value on every granularity)."""
    eras, pol = [], {}
    if until is not None:
        eras.append('%s - AAA 2002 Jun 15 %s' % (hms(off), hms(until)))
        eras.append('3:00 - BBB')
    elif rules is not None:
        eras.append('%s %s AAA' % (hms(off), hms(rules)))
    elif at is not None or save is not None:
        pol['P'] = ('1990 max Mar 15 %s %s D' % (
            hms(at or 0), hms(3600 if save is None else save)),
            '1990 max Oct 15 0:00 0 S')
        eras.append('%s P A%%sT' % hms(off))
    else:
        eras.append('%s - AAA' % hms(off))
    if until is not None and rules is not None:
        eras[1] = '3:00 %s BBB' % hms(rules)
    if until is not None and (at is not None or save is not None):
        pol['P'] = ('1990 max Mar 15 %s %s D' % (
            hms(at or 0), hms(3600 if save is None else save)),
            '1990 max Oct 15 0:00 0 S')
        eras.append('5:00 P C%sT')
        eras[1] += ' 2003'
    return u.Case(pol, tuple(eras))


def off_fields(src_eras, pols, g):
    """Which of zone / policy have a value off the granularity."""
    at, of, de = g
    z = any(e.off % of or e.save % de or (
        e.until is not None and e.until[2] % at) for e in src_eras)
    p = any(r.at % at or r.save % de for rs in pols.values() for r in rs)
    return z, p


STATED = re.compile(r"truncated to '?(-?)(\d+):(\d\d)(?::(\d\d))?")


def wrong_notes(notes, raw, cut):
    """Whether the values the notes state (to the minute, unless they state
    seconds) are other than those the fields raw were truncated to (cut)."""
    stated = [STATED.search(x) for x in notes]
    if not stated or None in stated:
        return False            # another wording: not judged
    secs = any(m.group(4) for m in stated)
    got = {(m.group(1), int(m.group(2)), int(m.group(3)),
            int(m.group(4) or 0)) for m in stated}
    want = set()
    for a, b in zip(raw, cut):
        if a != b:
            v = abs(b)
            want.add(('-' if b < 0 else '', v // 3600, v // 60 % 60,
                      v % 60 if secs else 0))
    return got != want


def era_values(eras):
    return [v for e in eras for v in (
        e.off, e.save, e.until[2] if e.until is not None else 0)]


def rule_values(rules):
    return [v for r in rules for v in (r.at, r.save)]


def rules_equal(emitted, want):
    return sorted(emitted[1:]) == sorted(want)


def batch(item):
    from ..harness import Out
    out = Out()
    cs, scope, opts, strict, lang = item
    g = grans(scope, opts)
    more = MORE + ('--strict' if strict else '--nostrict',)
    for k, v in opts:
        more += ('--' + k, str(v))
    argv = u.argv_for(scope, 2000, 2004, lang, more=more)
    pre = 'Zone\tA/Good\t1:00\t-\tGGG\n' if scope == 'basic' else ''

    def pay(c):
        return {'case': [c.rules, c.eras], 'scope': scope, 'opts': opts,
                'strict': strict, 'lang': lang}
    if strict and scope != 'basic':
        bad, good = [], []
        for i, c in cs:
            src = u.source(c, i)
            (bad if any(off_fields(src.zones[u.zname(i)], src.policies, g))
             else good).append((i, c))
        # every off-granularity case must be refused on its own
        for i, c in bad:
            out.states += 1
            res = runner.run_main({'africa': u.render(c, i)}, argv)
            if res.ok:
                out.bad('kept', 'strict %s: value off the granularity %s kept'
                        '\n%s' % (scope, g, u.render(c, i)), pay(c))
            elif res.kind == 'hang' or res.files:
                out.bad('kept', 'strict %s: %s %s' % (
                    scope, res.kind, sorted(res.files)), pay(c))
            else:
                out.outcome('strict: refused')
        cs = good
    for res, part in u.compile_batch(cs, argv, prefix=pre):
        out.states += len(part)
        if not res.ok:
            i, c = part[0]
            out.bad('refused', '%s %s %s refused: %s\n%s' % (
                scope, opts, 'strict' if strict else 'nostrict', res.exc,
                u.render(c, i)), pay(c))
            continue
        out.traces += len(part)
        db = mixed_decode(res.files, lang, scope)
        j = json.loads(res.files['zonedb.json'])
        for i, c in part:
            judge(i, c, db, j, g, strict, lang, scope, out, pay(c))
    return out


def policy_key(db, lang, name):
    if lang == 'python':
        return name
    return None


def judge(i, c, db, j, g, strict, lang, scope, out, p):
    src = u.source(c, i)
    z = u.zname(i)
    zoff, poff = off_fields(src.zones[z], src.policies, g)
    where = '%s %s granularity=%s %s\n%s' % (
        lang, scope, g, 'strict' if strict else 'nostrict', u.render(c, i))
    if strict and (zoff or poff):
        if z in db.zones:
            out.bad('kept', 'zone with a value off the granularity kept %s' %
                    where, p)
        elif not j['removed_zones'].get(z) or (
                not zoff and not any(j['removed_policies'].get(n)
                                     for n in src.policies)):
            out.bad('no-reason', 'removed without a reason %s' % where, p)
        else:
            out.outcome('strict: removed')
        return
    if z not in db.zones:
        out.bad('removed', 'zone removed (%s) %s' % (
            j['removed_zones'].get(z), where), p)
        return
    want = src if strict else tzmodel.truncate(src, *g)
    we, ge = want.zones[z], db.zones[z]
    if [(e.off, e.save, e.until) for e in we] != \
            [(e.off, e.save, e.until) for e in ge]:
        out.bad('era-value', 'eras %s, expected %s %s' % (ge, we, where), p)
        return
    for a, b in zip(we, ge):
        if a.policy is None:
            continue
        if not rules_equal(db.policies[b.policy], want.policies[a.policy]):
            out.bad('rule-value', 'rules %s, expected %s %s' % (
                db.policies[b.policy], want.policies[a.policy], where), p)
            return
    notes = [x for x in j['notable_zones'].get(z, []) if 'truncated' in x]
    if bool(notes) != (zoff and not strict):
        out.bad('note', 'zone notes %s %s' % (
            j['notable_zones'].get(z), where), p)
        return
    if wrong_notes(notes, era_values(src.zones[z]), era_values(we)):
        out.bad('note-value', 'zone notes %s %s' % (notes, where), p)
        return
    for n in src.policies:
        pn = [x for x in j['notable_policies'].get(n, [])
              if 'truncated' in x]
        if bool(pn) != (poff and not strict):
            out.bad('note', 'policy notes %s %s' % (
                j['notable_policies'].get(n), where), p)
            return
        if wrong_notes(pn, rule_values(src.policies[n]),
                       rule_values(want.policies[n])):
            out.bad('note-value', 'policy notes %s %s' % (pn, where), p)
            return
    out.outcome('strict: kept exactly' if strict else (
        'nostrict: truncated and noted' if zoff or poff
        else 'nostrict: unchanged'))


def real(item):
    from ..harness import Out
    out = Out()
    scope, strict, opts = item
    g = grans(scope, opts)
    files = real_tzdb()
    src = tzmodel.parse_source(files)
    more = MORE + ('--strict' if strict else '--nostrict',)
    for k, v in opts:
        more += ('--' + k, str(v))
    res = runner.run_main(files, u.argv_for(scope, 2000, 2050, 'python',
                                            more=more))
    p = {'real': list(item)}
    if not res.ok:
        # a strict extended/complete compile may be refused: some value is off
        anyoff = any(any(off_fields([e], {}, g)) for es in src.zones.values()
                     for e in tzmodel.kept_eras(es, 2000, 2050)) or any(
            off_fields([], {n: rs}, g)[1] for n, rs in src.policies.items())
        if not (strict and scope != 'basic' and anyoff):
            out.bad('refused', 'real TZDB %s: %s' % (item, res.exc), p)
        out.outcome('real refused')
        return out
    db = mixed_decode(res.files, 'python', scope)
    want = src if strict else tzmodel.truncate(src, *g)
    for z, ge in db.zones.items():
        out.states += 1
        out.traces += 1
        # emitted eras are a run of the source eras, the last one extended
        we = want.zones[z]
        n = len(ge)
        sig = [(e.off, e.save, e.fmt) for e in ge]
        if not any([(e.off, e.save) for e in we[k:k + n]] ==
                   [(e.off, e.save) for e in ge] and
                   [e.until for e in we[k:k + n - 1]] ==
                   [e.until for e in ge[:-1]]
                   for k in range(len(we) - n + 1)):
            out.bad('real', 'real zone %s: eras %s are not source eras' % (
                z, sig), p)
    for n, rs in db.policies.items():
        ws = [(r.at, r.save, r.month, r.frm, r.to) for r in want.policies[n]]
        for r in rs[1:]:
            if (r.at, r.save, r.month, r.frm, r.to) not in ws:
                out.bad('real', 'real policy %s: rule %s is not a source rule'
                        % (n, r), p)
    out.outcome('real TZDB values agree')
    return out


def near(unit, lo, hi, d=(-1, 0, 1)):
    return [k * unit + x for k in range(lo, hi + 1) for x in d]


def check(ctx):
    t = ctx.thorough
    h = 3600
    opts = [(), (('granularity', 900),), (('granularity', 60),),
            (('offset_granularity', 900), ('delta_granularity', 3600)),
            (('until_at_granularity', 1800),),
            (('until_at_granularity', 15), ('offset_granularity', 7)),
            (('delta_granularity', 1800),), (('granularity', 3600),)]
    step = range(0, 3 * h) if t else []
    offs = sorted({v * k for v in near(60, 0, 4) + near(900, 0, 8) +
                   near(h, 9, 12) + list(step) for k in (1, -1)
                   if abs(v) < 15 * h})
    times = sorted({v for v in near(60, 0, 4) + near(900, 0, 8) + near(
        1800, 40, 50) + [25 * h - 1, 25 * h] + list(step)
        if 0 <= v <= 25 * h})
    saves = sorted({v for v in near(60, -4, 4) + near(300, -12, 25) + near(
        900, -4, 11) + list(range(-h, 3 * h - 60, 1 if t else 420))
        if -h <= v < 3 * h - 60 and v})
    fields = {'off': offs, 'until': times, 'at': times, 'save': saves,
              'rules': saves}
    items = []
    total = 0

    def put(cases, scope, op, strict, lang):
        nonlocal total
        total += len(cases)
        n = 60 if strict and scope != 'basic' else 250
        for b in explore.batches(list(enumerate(cases)), n):
            items.append((b, scope, op, strict, lang))
    for f, vals in fields.items():
        for k, op in enumerate(opts):
            for scope in ('basic', 'extended', 'complete'):
                if scope == 'basic' and f in ('until', 'rules'):
                    continue
                if not t and k and scope != ('basic', 'extended',
                                             'complete')[k % 3]:
                    continue
                for strict in (True, False):
                    vv = vals
                    if strict and scope != 'basic' and k and not t:
                        vv = vals[::3]
                    cases = [make(**{f: v}) for v in vv]
                    put(cases, scope, op, strict, 'python')
                    if not strict and k == 0:
                        for lg in ('arduino', 'c') + (
                                ('go',) if scope == 'complete' else ()):
                            # the tables hold at most +-127 minutes
                            put([make(**{f: v}) for v in vals
                                 if f not in ('rules', 'save') or
                                 abs(v) <= 127 * 60],
                                scope, op, strict, lg)
    small = {'off': (3600, 3630, -3630, -2700, 1, 59),
             'until': (None, 0, 7200, 7201, 7259, 5430),
             'rules': (None, 1800, 1199, -660),
             'at': (None, 7200, 7229, 899),
             'save': (None, 1800, 1201, -61)}
    combos = [make(*v) for v in itertools.product(*(
        small[f] for f in ('off', 'rules', 'until', 'at', 'save')))]
    combos = list(dict.fromkeys(
        (tuple(sorted(c.rules.items())), c.eras) for c in combos))
    combos = [u.Case(dict(r), e) for r, e in combos]
    ctx.notes['field combinations'] = len(combos)
    for scope in ('extended', 'complete'):
        for op in opts if t else opts[:3]:
            put(combos, scope, op, False, 'python')
            put(combos if t else combos[::5], scope, op, True, 'python')
    ctx.transitions += total
    ctx.pmap(batch, items, 'A-C')
    ctx.pmap(real, [(s, st, op) for s in ('basic', 'extended', 'complete')
                    for st in (True, False)
                    for op in (opts if t else opts[:2])], 'D')


def replay(p):
    if 'real' in p:
        x = p['real']
        o = real((x[0], x[1], tuple(map(tuple, x[2]))))
    else:
        r, e = p['case']
        o = batch(([(0, u.Case(r, tuple(e)))], p['scope'],
                   tuple(map(tuple, p['opts'])), p['strict'], p['lang']))
    return [m for _, m, _ in o.viol]
