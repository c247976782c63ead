"""The reference model: TZDB source text -> Db, and the meaning of a Db (local
time as a function of UTC), following zic(8).

A Db is (zones, policies, links) where
  zones    {name: [Era]}
  policies {name: [Rule]}
  links    {link name: target name}
Both the TZDB source and every emitted artifact are decoded to this same shape
and are interpreted by the same function, `timeline`, so a difference between
two timelines is a difference in content.
"""
import collections
from . import cal

Rule = collections.namedtuple(
    'Rule', 'frm to month on at suf save letter')
# until: None (= forever) or (year, day number, seconds, suffix)
Era = collections.namedtuple('Era', 'off policy save fmt until')
Db = collections.namedtuple('Db', 'zones policies links')

MIN_YEAR = -32767
MAX_TO = 32766
MAX_UNTIL = 32767
FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
         'etcetera', 'europe', 'northamerica', 'southamerica']


# --- source text -----------------------------------------------------------

def month_no(s):
    return [m.lower() for m in cal.MONTHS].index(s[:3].lower()) + 1


def split_suffix(s):
    """'2:00s' -> ('2:00', 's'); no suffix means wall clock."""
    if s[-1] in 'wsugz':
        return s[:-1], s[-1]
    return s, 'w'


def logical_lines(text):
    for line in text.split('\n'):
        i = line.find('#')
        if i >= 0:
            line = line[:i]
        line = line.rstrip()
        if line:
            yield line


def parse_rule(tok):
    frm = int(tok[2])
    to = {'only': frm, 'max': MAX_TO}.get(tok[3])
    if to is None:
        to = int(tok[3])
    at, suf = split_suffix(tok[7])
    letter = '' if tok[9] == '-' else tok[9]
    on = cal.parse_on(tok[6])
    if on is None:
        raise ValueError('bad ON %r' % tok[6])
    return Rule(frm, to, month_no(tok[5]), on, cal.hms(at), suf,
                cal.hms(tok[8]), letter)


def parse_era(tok):
    off = cal.hms(tok[0])
    policy, save = None, 0
    if tok[1] == '-':
        pass
    elif ':' in tok[1]:
        save = cal.hms(tok[1])
    else:
        policy = tok[1]
    until = None
    if len(tok) > 3:
        y = int(tok[3])
        m = month_no(tok[4]) if len(tok) > 4 else 1
        on = cal.parse_on(tok[5]) if len(tok) > 5 else ('d', 1)
        at, suf = split_suffix(tok[6]) if len(tok) > 6 else ('0', 'w')
        until = (y, cal.resolve(y, m, on), cal.hms(at), suf)
    return Era(off, policy, save, tok[2], until)


def parse_source(files):
    """{file name: text} -> Db for well-formed input."""
    zones, policies, links = {}, {}, {}
    for f in FILES:
        cur = None
        for line in logical_lines(files.get(f, '')):
            t = line.split()
            if line.startswith('Rule'):
                policies.setdefault(t[1], []).append(parse_rule(t))
                cur = None
            elif line.startswith('Link'):
                links[t[2]] = t[1]
                cur = None
            elif line.startswith('Zone'):
                cur = zones.setdefault(t[1], [])
                cur.append(parse_era(t[2:]))
            elif line[0].isspace() and cur is not None:
                cur.append(parse_era(t))
    return Db(zones, policies, links)


# --- meaning ---------------------------------------------------------------

def abbrev(fmt, letter, off, save):
    if fmt in ('%z', ''):
        t = off + save
        sign = '-' if t < 0 else '+'
        t = abs(t)
        h, m, s = t // 3600, t // 60 % 60, t % 60
        r = '%s%02d' % (sign, h)
        if m or s:
            r += '%02d' % m
        if s:
            r += '%02d' % s
        return r
    if '%s' in fmt:
        return fmt.replace('%s', letter)
    if '%' in fmt:
        return fmt.replace('%', letter)
    if '/' in fmt:
        a, b = fmt.split('/', 1)
        return b if save else a
    return fmt


def _initial_letter(rules):
    """Before any rule applies: standard time, abbreviation of the first
    standard-time rule (zic(8))."""
    std = [r for r in rules if r.save == 0]
    if not std:
        return ''
    return min(std, key=lambda r: (cal.resolve(r.frm, r.month, r.on),
                                   r.at)).letter


def _to_utc(day, secs, suf, off, save):
    t = day * 86400 + secs
    if suf == 'w':
        t -= off + save
    elif suf == 's':
        t -= off
    return t


def timeline(eras, policies, lo, hi):
    """Piecewise constant local time over UTC [lo, hi): list of
    (utc_start, total offset, save, abbreviation), first starts at lo."""
    segs = []
    start = None     # UTC start of this era, None = -infinity
    y_lo = cal.civil(lo // 86400)[0]
    y_hi = cal.civil(hi // 86400)[0]

    def put(t, off, save, ab):
        segs.append((t, off + save, save, ab))

    for era in eras:
        if start is not None and start >= hi:
            break
        save = era.save
        if era.policy is None:
            put(start, era.off, save, abbrev(era.fmt, '', era.off, save))
            until = None
            if era.until is not None:
                until = _to_utc(era.until[1], era.until[2], era.until[3],
                                era.off, save)
        else:
            rules = policies[era.policy]
            save, letter = 0, _initial_letter(rules)
            y0 = y_lo - 1
            if start is not None:
                y0 = max(y0, cal.civil(start // 86400)[0] - 1)
            y1 = y_hi + 1
            if era.until is not None:
                y1 = min(y1, era.until[0] + 1)
            byyear = {}
            for r in rules:
                a, b = r.frm, r.to
                if a < y0:
                    byyear.setdefault(min(b, y0 - 1), []).append(r)
                for y in range(max(a, y0), min(b, y1) + 1):
                    byyear.setdefault(y, []).append(r)
            pend = []        # (utc, save, letter) at or after start
            began = start is None
            done = False
            until = None
            if era.until is not None:
                until = _to_utc(era.until[1], era.until[2], era.until[3],
                                era.off, save)
            first = True
            for y in sorted(byyear):
                todo = [(cal.resolve(y, r.month, r.on), r)
                        for r in byyear[y]]
                while todo:
                    best = None
                    for i, (d, r) in enumerate(todo):
                        t = _to_utc(d, r.at, r.suf, era.off, save)
                        if best is None or t < best[0]:
                            best = (t, i)
                    t, i = best
                    r = todo.pop(i)[1]
                    if until is not None and t >= until:
                        done = True
                        break
                    if start is not None and t <= start:
                        save, letter = r.save, r.letter
                    else:
                        if not began:
                            pend.append((start, save, letter))
                            began = True
                        elif start is None and first:
                            pend.append((None, 0, _initial_letter(rules)))
                        pend.append((t, r.save, r.letter))
                        save, letter = r.save, r.letter
                        first = False
                    if era.until is not None:
                        until = _to_utc(era.until[1], era.until[2],
                                        era.until[3], era.off, save)
                if done:
                    break
            if not began:
                pend.append((start, save, letter))
            elif start is None and first:
                pend.append((None, save, letter))
            for t, s, le in pend:
                put(t, era.off, s, abbrev(era.fmt, le, era.off, s))
        if until is None:
            break
        start = until
    # clip to [lo, hi) and merge
    out = []
    for t, tot, sv, ab in segs:
        if t is not None and t >= hi:
            break
        if t is None or t <= lo:
            out = [(lo, tot, sv, ab)]
        elif not out:
            out = [(lo, None, None, None), (t, tot, sv, ab)]
        elif out[-1][1:] != (tot, sv, ab):
            if out[-1][0] == t:
                out.pop()
                if out and out[-1][1:] == (tot, sv, ab):
                    continue
            out.append((t, tot, sv, ab))
    return out


def year_utc(y):
    return cal.days(y, 1, 1) * 86400


def diff(a, b):
    """First instant where two timelines differ, or None."""
    if a == b:
        return None
    i = j = 0
    ts = sorted({s[0] for s in a} | {s[0] for s in b})
    for t in ts:
        while i + 1 < len(a) and a[i + 1][0] <= t:
            i += 1
        while j + 1 < len(b) and b[j + 1][0] <= t:
            j += 1
        if a[i][1:] != b[j][1:]:
            return t, a[i][1:], b[j][1:]
    return None


def fmt_utc(t):
    y, m, d = cal.civil(t // 86400)
    s = t % 86400
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (
        y, m, d, s // 3600, s // 60 % 60, s % 60)


def truncate(db, at_g, off_g, delta_g):
    """The documented --nostrict truncation, applied to a source Db."""
    zones = {}
    for n, eras in db.zones.items():
        zones[n] = [e._replace(
            off=cal.trunc0(e.off, off_g), save=cal.trunc0(e.save, delta_g),
            until=None if e.until is None else (
                e.until[0], e.until[1], cal.trunc0(e.until[2], at_g),
                e.until[3])) for e in eras]
    policies = {n: [r._replace(at=cal.trunc0(r.at, at_g),
                               save=cal.trunc0(r.save, delta_g))
                    for r in rs] for n, rs in db.policies.items()}
    return Db(zones, policies, db.links)


def kept_eras(eras, start, until):
    """The eras that overlap [start - 1, until + 1]: what the compiler is
    documented to keep for the years [start, until)."""
    out = []
    prev = None
    for e in eras:
        if (e.until is None or e.until[0] >= start - 1) and \
                (prev is None or prev <= until + 1):
            out.append(e)
        prev = e.until[0] if e.until else None
    return out
