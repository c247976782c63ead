#!/usr/bin/env python3
"""One-off tool: expand the abbreviated tzdata.zi of the system into the nine
full-syntax region files that the compiler reads.  Output is committed under
/verif/tzdata so that checks never depend on the system copy."""
import os
import sys

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
DAYS = ['Sunday', 'Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
        'Saturday']
REGION = {
    'Africa': 'africa', 'Antarctica': 'antarctica', 'Asia': 'asia',
    'Australia': 'australasia', 'Pacific': 'australasia',
    'Indian': 'australasia', 'Etc': 'etcetera', 'Europe': 'europe',
    'America': 'northamerica', 'Atlantic': 'southamerica',
}
FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera',
         'europe', 'northamerica', 'southamerica']


def month(s):
    c = [m for m in MONTHS if m.lower().startswith(s.lower())]
    assert len(c) == 1, s
    return c[0][:3]


def dow(s):
    c = [d for d in DAYS if d.lower().startswith(s.lower())]
    assert len(c) == 1, s
    return c[0][:3]


def day(s):
    if s.isdigit():
        return s
    for op in ('>=', '<='):
        if op in s:
            a, b = s.split(op)
            return dow(a) + op + b
    assert s.startswith('last')
    return 'last' + dow(s[4:])


def time(s):
    """'2s' -> '2:00s'"""
    suf = ''
    if s[-1].isalpha():
        suf, s = s[-1], s[:-1]
    if s == '-':
        s = '0'
    if ':' not in s and s != '0':
        s += ':00'
    return s + suf


def main(src, dst):
    out = {f: [] for f in FILES}
    cur = None
    version = 'unknown'
    for line in open(src):
        if line.startswith('#'):
            if line.startswith('# version'):
                version = line.split()[2]
            continue
        t = line.split()
        if t[0] == 'R':
            to = {'o': 'only', 'ma': 'max'}.get(t[3], t[3])
            rule = ['Rule', t[1], t[2], to, t[4], month(t[5]), day(t[6]),
                    time(t[7]), time(t[8]), t[9]]
            # rule placement is irrelevant; keep them beside europe/namerica
            f = 'northamerica' if t[1] in (
                'u', 'US', 'CA', 'NYC') else 'europe'
            out[f].append('\t'.join(rule))
            cur = None
        elif t[0] == 'L':
            out['backward'].append('Link\t%s\t%s' % (t[1], t[2]))
            cur = None
        else:
            if t[0] == 'Z':
                name = t[1]
                cur = REGION.get(name.split('/')[0], 'etcetera')
                t = t[2:]
                head = 'Zone\t%s\t' % name
            else:
                head = '\t\t\t'
            rules = t[1]
            if ':' not in rules and rules.lstrip('-').isdigit():
                rules += ':00'
            f = [time(t[0]), rules, t[2]]
            if len(t) > 3:
                u = [t[3]]
                if len(t) > 4:
                    u.append(month(t[4]))
                if len(t) > 5:
                    u.append(day(t[5]))
                if len(t) > 6:
                    u.append(time(t[6]))
                f.append(' '.join(u))
            out[cur].append(head + '\t'.join(f))
    os.makedirs(dst, exist_ok=True)
    for f in FILES:
        with open(os.path.join(dst, f), 'w') as o:
            o.write('# expanded from tzdata.zi version %s (public domain)\n'
                    % version)
            for ln in out[f]:
                o.write(ln + '\n')


main(sys.argv[1], sys.argv[2])
