"""C18: time strings convert exactly or are rejected."""
import itertools
import json
import re
from .. import cal, explore, runner
from .. import universe as u
from .c01 import mixed_decode
from .c17 import refused

ID = 'C18'
BOUNDS = (
    'A: the converter on every [-]h[:mm[:ss]] with h<=25 in every spelling, '
    'and on every string of length <=5 (thorough: 6) over 11 characters; the '
    'suffix splitter on all of them x 14 suffixes; B: STDOFF, RULES, UNTIL, '
    'AT and SAVE with every minute and a grid of seconds (thorough: every '
    'second), compiled and decoded in four languages; C: 60 texts that are '
    'not times in each of the five fields')
ASSUMPTIONS = [
    'a leading plus, and negative AT or UNTIL, may be converted exactly or '
    'rejected',
    'RULES without a colon is a policy name',
    'SAVE is limited to -1:00..2:59 in every scope (refused beyond)',
]
TIME = re.compile('(-?)([0-9]+)(?::([0-9]+))?(?::([0-9]+))?', re.A)


def ref(s):
    """Seconds, None (not a time) or Ellipsis (free to reject)."""
    m = TIME.fullmatch(s)
    if not m:
        return None
    h, mi, se = int(m.group(2)), int(m.group(3) or 0), int(m.group(4) or 0)
    if h > 25 or mi > 59 or se > 59:
        return None
    v = h * 3600 + mi * 60 + se
    return -v if m.group(1) else v


def converter(strs):
    from acetimetools.transformer import transformer as t
    from ..harness import Out
    out = Out()
    inv = t.INVALID_SECONDS
    for s in strs:
        out.states += 1
        w = ref(s)
        try:
            g = t.time_string_to_seconds(s)
        except Exception as e:
            g = '%s: %s' % (type(e).__name__, e)
            if w is None:
                g = inv
        if w is None:
            if g != inv:
                out.bad('convert-bad', '%r is not a time but is converted to '
                        '%s' % (s, g), {'convert': s})
            else:
                out.outcome('rejected')
        elif g != w:
            out.bad('convert', '%r -> %s, expected %d' % (s, g, w),
                    {'convert': s})
        else:
            out.outcome('converted')
    return out


def suffixes(strs):
    from acetimetools.extractor.extractor import parse_at_time_string
    from ..harness import Out
    out = Out()
    for s, x in strs:
        out.states += 1
        legal = x in ('', 'w', 's', 'u', 'g', 'z')
        try:
            g = parse_at_time_string(s + x)
        except Exception as e:
            g = None
        if legal and g != (s, x):
            out.bad('suffix', '%r -> %r' % (s + x, g), {'suffix': [s, x]})
        elif not legal and g is not None and g[1] not in ('',) and \
                g[1] in ('w', 's', 'u', 'g', 'z') and ref(g[0]) is not None:
            out.bad('suffix-bad', '%r is read as %r' % (s + x, g),
                    {'suffix': [s, x]})
        elif not legal and g is not None and g[1] == '' and \
                ref(g[0]) is not None:
            out.bad('suffix-bad', '%r is read as %r' % (s + x, g),
                    {'suffix': [s, x]})
        else:
            out.outcome('suffix ok')
    return out


def spell(v):
    """All spellings of v seconds."""
    sign = '-' if v < 0 else ''
    h, m, s = abs(v) // 3600, abs(v) // 60 % 60, abs(v) % 60
    out = ['%s%d:%02d:%02d' % (sign, h, m, s)]
    if h < 10:
        out.append('%s%02d:%02d:%02d' % (sign, h, m, s))
    if not s:
        out.append('%s%d:%02d' % (sign, h, m))
        out.append('%s%d:%d' % (sign, h, m))
        if not m:
            out.append('%s%d' % (sign, h))
            out.append('%s%02d' % (sign, h))
    return out


FIELDS = ['STDOFF', 'RULES', 'UNTIL', 'AT', 'SAVE']


def case(field, t):
    if field == 'STDOFF':
        return u.Case({}, ('%s - A' % t,))
    if field == 'RULES':
        return u.Case({}, ('1:00 %s A' % t,))
    if field == 'UNTIL':
        return u.Case({}, ('1:00 - A 2005 Mar 7 %s' % t, '2:00 - B'))
    if field == 'AT':
        return u.Case({'P': ('1900 only May 5 0:00 0 -',
                             '2001 max Apr 9 %s 1:00 -' % t)}, ('1:00 P A',))
    return u.Case({'P': ('1900 only May 5 0:00 0 -',
                         '2001 max Apr 9 2:00 %s X' % t,
                         '2002 max Aug 9 2:00 0 Y')}, ('1:00 P A',))


def read(db, i, field):
    z = db.zones.get(u.zname(i))
    if not z:
        return None
    if field == 'STDOFF':
        return z[0].off
    if field == 'RULES':
        return z[0].save
    if field == 'UNTIL':
        return z[0].until[2:] if z[0].until else None
    rs = db.policies[z[0].policy]
    if field == 'AT':
        return [(r.at, r.suf) for r in rs if r.save] or None
    return [r.save for r in rs if r.month == 4] or None


def fields(item):
    from ..harness import Out
    out = Out()
    lang, scope, field, texts = item
    argv = u.argv_for(scope, 1995, 2045, lang, more=(
        '--ignore_buf_size_too_large',))
    cases = [case(field, t) for t in texts]
    for res, part in u.compile_batch(list(enumerate(cases)), argv):
        if not res.ok:
            i, c = part[0]
            out.states += 1
            out.bad('refused:' + field, '%s: %s' % (u.render(c, i), res.exc),
                    {'field': [lang, scope, field, [texts[i]]]})
            continue
        db = mixed_decode(res.files, lang, scope)
        for i, c in part:
            out.states += 1
            out.traces += 1
            t = texts[i]
            suf = 'w'
            if t[-1] in 'wsugz':
                t, suf = t[:-1], t[-1]
            want = cal.hms(t)
            got = read(db, i, field)
            ok = {'UNTIL': (want, suf), 'AT': [(want, suf)],
                  'SAVE': [want]}.get(field, want)
            if got != ok:
                out.bad('value:' + field, '%s %s: %s %r is emitted as %s' % (
                    lang, scope, field, texts[i], got),
                    {'field': [lang, scope, field, [texts[i]]]})
            else:
                out.outcome(field + ' exact')
    return out


BAD = ['26', '26:00', '24:60', '1:60', '1:00:60', '99:00', '100', '1:', ':30',
       '1:00:', '1::00', '1:00:00:00', '1:00:00.5', '1.5', '1:3x', 'x:30',
       '1:-30', '1:+30', '--1:00', '1:00-', '1-00', '0x1:00', '1e1', '1h',
       '1:00:0x', '\u0661:00', '1:\u0663\u0660', '1_0:00', '-', '-:30',
       '-26:00', '-1:60', 'noon', '1;00', '1,5', '1:00pm', '999999999:00',
       '1:000000000060', 'W', '2:00W', '2:00S', '2:00ss', '2:00sw', '2:00x',
       '2:00d', '2:00t', 's', 'w']
SUFFIXES = ['', 'w', 's', 'u', 'g', 'z', 'W', 'S', 'U', 'x', 'd', 'ww', 'sw',
            '-']


def bad(item):
    from ..harness import Out
    out = Out()
    field, t, scope = item
    c = case(field, t)
    refused(out, c, field, {'bad': list(item)}, 'python', scope)
    return out


def grid(step):
    part = [0, 1, 14, 15, 16, 29, 30, 31, 44, 45, 46, 59]
    for h in range(26):
        for m in range(60):
            for s in (part if step else range(60)):
                yield h * 3600 + m * 60 + s


def check(ctx):
    t = ctx.thorough
    vals = [v for h in range(26) for m in range(60) for s in range(60)
            for v in (h * 3600 + m * 60 + s, -(h * 3600 + m * 60 + s))]
    strs = sorted({x for v in vals for x in spell(v)})
    ctx.pmap(converter, list(explore.batches(strs, 40000)), 'A')
    al = '0159:-+. xs' if not t else '02569:-+.x '
    junk = [''.join(p) for n in range(0, 7 if t else 6)
            for p in itertools.product(al, repeat=n)]
    extra = [c + s + d for s in ('1:00', '2', '1:00:00') for c in
             ('', '\t', '\n', '\u00a0', '+', '-') for d in
             ('', '\n', '\t', ' ', '\u0660', '\u00b9', 'Z', '.0')]
    ctx.pmap(converter, list(explore.batches(junk + extra, 40000)), 'A')
    few = sorted({x for v in vals[::97] for x in spell(v)})
    ctx.pmap(suffixes, list(explore.batches(
        [(s, x) for s in few for x in SUFFIXES], 20000)), 'A')
    jobs = []

    def put(lang, scope, field, values, sufs=('',)):
        texts = sorted({x + q for v in values for x in spell(v)
                        for q in sufs if field != 'RULES' or ':' in x})
        n = 1500 if lang == 'python' else 250
        jobs.extend((lang, scope, field, b)
                    for b in explore.batches(texts, n))
    sec = list(grid(not t))
    put('python', 'complete', 'STDOFF', [v * k for v in sec for k in (1, -1)])
    put('python', 'complete', 'UNTIL', sec)
    put('python', 'complete', 'AT', sec)
    small = [v for v in sec if v % 3600 in (0, 1, 59, 60, 899, 900, 1799,
                                            3599, 3540)]
    put('python', 'complete', 'UNTIL', small, ('w', 's', 'u'))
    put('python', 'complete', 'AT', small, ('w', 's', 'u'))
    mins = [m * 60 for m in range(-60, 180)]
    for lang in ('python', 'arduino', 'c', 'go'):
        some = [m for m in mins if m and (lang == 'python' or
                                          abs(m) <= 127 * 60)]
        put(lang, 'complete', 'RULES', some)
        put(lang, 'complete', 'SAVE', some)
        if lang == 'python':
            continue
        tt = sec if t else small
        put(lang, 'complete', 'STDOFF', [v * k for v in tt for k in (1, -1)])
        put(lang, 'complete', 'UNTIL', tt, ('', 's', 'u'))
        put(lang, 'complete', 'AT', tt, ('', 's', 'u'))
    m15 = [m * 60 for m in range(0, 26 * 60)]
    for lang in ('python', 'arduino', 'c'):
        put(lang, 'extended', 'UNTIL', m15, ('', 's', 'u'))
        put(lang, 'extended', 'AT', m15, ('', 's', 'u'))
        put(lang, 'extended', 'STDOFF', [m * k for m in m15 for k in (1, -1)
                                         if m < 57600])
        put(lang, 'extended', 'RULES', [m * 900 for m in range(-4, 12) if m])
        put(lang, 'extended', 'SAVE', [m * 900 for m in range(-4, 12) if m])
    ctx.pmap(fields, jobs, 'B')
    ctx.pmap(bad, [(f, x, sc) for f in FIELDS for x in BAD
                   for sc in ('complete', 'extended', 'basic')
                   if not (f in ('STDOFF', 'RULES', 'SAVE') and x == '-')],
             'C')


def replay(p):
    if 'convert' in p:
        o = converter([p['convert']])
    elif 'suffix' in p:
        o = suffixes([tuple(p['suffix'])])
    elif 'bad' in p:
        o = bad(tuple(p['bad']))
    else:
        o = fields(tuple(p['field']))
    return [m for _, m, _ in o.viol]
