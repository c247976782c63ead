"""C05: extraction reads every source line with its TZDB meaning."""
import itertools
import json
from .. import cal, explore, runner, sweep, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from . import c07, c09
from .c04 import json_db

ID = 'C05'
BOUNDS = (
    'A: the line automaton: every sequence of up to 5 (thorough 6) lines over '
    '13 kinds (two Rule policies, open and closed Zone, open and closed '
    'continuation, Link, comment of data text, blank, white space, indented '
    'comment, end of file, end of file without newline), legal ones compared '
    'with the grammar, those whose last line is illegal must be refused or '
    'leave every other record alone, also if the missing '
    'lines come later; B: every legal spelling of every field, all pairs of field spellings of a line; C: every white space at every '
    'gap, a comment after every field of every line kind, with and without '
    'space, line ends; V: about 400 values that no field can have, in every field of the '
    'line kinds; D: the real TZDB, each line respelled in each of '
    'several ways')
ASSUMPTIONS = [
    'lower case or abbreviated keywords, quoted fields, one and two letter '
    'months and "-" as a time are outside the supported grammar: they must '
    'be refused or read right, never misread',
]
WIN = (0, 9998)
MORE = ('--skip_bufestimator', '--ignore_buf_size_too_large')


def argv(scope='complete', more=MORE):
    return u.argv_for(scope, *WIN, 'python', actions='json', more=more)


TAIL = (
    'Rule\tP{i}\t1970\tonly\t-\tNov\t2\t2:00\t0:10\tX\n'
    'Rule\tQ{i}\t1971\tonly\t-\tNov\t2\t2:00\t0:10\tY\n'
    'Rule\tP{i}\t1980\tmax\t-\tNov\t3\t2:00\t0\t-\n'
    'Rule\tQ{i}\t1981\tmax\t-\tNov\t4\t3:00\t0\tS\n'
    'Zone\tT/p{i}\t5:00\tP{i}\tT%s\n'
    'Zone\tT/q{i}\t6:00\tQ{i}\tU%s\n')

# symbol -> (text, what it does to the automaton)
NOISE = {
    'c': '# Zone\tX/X\t9:00\t-\tNO\n',
    'b': '\n',
    'w': ' \t \n',
    'i': '\t\t# 9:00\t-\tNO\t2011\n',
}
DATA = 'rqoOkKl|'
# r, q: Rule; o: open Zone, O: closed Zone; k: open continuation, K: closed;
# l: Link; |: end of file; !: end of file without a newline


def render(seq, i):
    """[text of file 0, 1, ...] of the sequence, names made unique by i."""
    files, cur = [], ''
    n = nl = 0
    kk = 0
    for s in seq:
        if s in NOISE:
            cur += NOISE[s]
        elif s == 'r':
            n += 1
            cur += ('Rule\tP%d\t%d\tmax\t-\tMar\t%d\t2:00\t1:00\tD # r\n' % (
                i, 1982 + n, n))
        elif s == 'q':
            n += 1
            cur += ('Rule Q%d %d only - May Sun>=%d 2:00u 0:30 E\n' % (
                i, 1982 + n, n))
        elif s == 'o':
            n += 1
            cur += 'Zone A/z%d_%d %d:00 - FM%d %d#open\n' % (
                i, n, n, n, 1960 + n)
            kk = 1970
        elif s == 'O':
            n += 1
            cur += 'Zone\tA/z%d_%d\t%d:30\tP%d\tG%%s\n' % (i, n, n, i)
        elif s == 'k':
            kk += 1
            cur += '\t\t\t%d:15\tP%d\tH%%s\t%d Mar 3 2:00s\n' % (
                kk % 10, i, kk)
        elif s == 'K':
            kk += 1
            cur += '   -%d:45 Q%d  I%%s/J%%s # %d\n'.replace(
                'I%%s/J%%s', 'I%%s') % (kk % 10, i, kk)
        elif s == 'l':
            nl += 1
            cur += 'Link\tT/p%d\tL/l%d_%d\n' % (i, i, nl)
        else:
            files.append(cur.rstrip('\n') if s == '!' else cur)
            cur = ''
    files.append(cur)
    return files


def step(open_, s):
    """The grammar: new state, or None if the line is illegal here."""
    if s in NOISE:
        return open_
    if s in 'kK':
        return s == 'k' if open_ else None
    if open_:
        return None         # an open zone must be continued
    return s == 'o'


def sequences(depth, noise_max):
    """(legal sequences, sequences whose last symbol is the first illegal
    one, transitions)"""
    legal, illegal = [()], []
    tr = 0
    level = [((), False)]
    done = []
    for _ in range(depth):
        nxt = []
        for seq, st in level:
            nz = sum(x in NOISE for x in seq)
            for s in list(NOISE) + list(DATA) + ['!']:
                if s in NOISE and (nz >= noise_max or
                                   (seq and seq[-1] == s)):
                    continue
                if s == '!' and (not seq or seq[-1] in '|!'):
                    continue
                if s == '|' and not seq:
                    continue
                if sum(x in '|!' for x in seq) >= 2 and s in '|!':
                    continue
                tr += 1
                t = step(st, s)
                if t is None:
                    illegal.append(seq + (s,))
                else:
                    nxt.append((seq + (s,), t))
        level = nxt
        done += nxt
    for seq, st in done:
        (illegal if st else legal).append(seq + (('$',) if st else ()))
    return legal, illegal, tr


def left_open(seq, i):
    """{zone: lines that follow each other} of the zones whose UNTIL is not
    followed by a continuation line."""
    out, cur, n, k = {}, None, 0, 0
    for s in seq:
        if s in NOISE:
            continue
        if s not in 'kK' and cur:
            out[cur] = k
            cur = None
        n += s in 'rqoO'
        k += 1
        if s == 'o':
            cur, k = 'A/z%d_%d' % (i, n), 1
        elif s == 'K':
            cur = None
    return out


def assemble(seqs):
    """{file: text} of several sequences, and which zones belong to each."""
    parts = {}
    for n, (i, seq) in enumerate(seqs):
        fs = render([s for s in seq if s != '$'], i)
        for k, t in enumerate(fs):
            # a sequence starts a file of its own as far as files go
            f = tzmodel.FILES[(n * 3 + k) % 9]
            parts.setdefault(f, []).append(t)
        parts.setdefault('southamerica', [])
    text = {}
    for f, ts in parts.items():
        text[f] = ''.join(ts)
    text['southamerica'] = text.get('southamerica', '')
    tail = ''.join(TAIL.format(i=i) for i, _ in seqs)
    text['southamerica'] += tail
    return text


def legal_batch(item):
    """Three sequences at a time: each has three files of its own."""
    from ..harness import Out
    out = Out()
    for n in range(0, len(item), 3):
        seqs = item[n:n + 3]
        _legal(seqs, out)
    return out


def _legal(seqs, out):
    text = assemble(seqs)
    res = runner.run_main(text, argv())
    d = ''
    if not res.ok:
        d = '%s' % res.exc
    else:
        d = whole(text, res)
    if d and len(seqs) > 1:
        for s in seqs:
            _legal([s], out)
        return
    out.states += len(seqs)
    out.traces += len(seqs)
    out.outcome('legal read right' if not d else 'legal WRONG', len(seqs))
    if d:
        out.bad('sequence', '%s: %s\n%s' % (
            ''.join(seqs[0][1]), d, show(text)),
            {'part': 'A', 'seq': seqs[0]})


def show(text):
    return '\n'.join('--- %s\n%s' % (f, t.expandtabs(4))
                     for f, t in text.items() if t)


def whole(text, res, src=None):
    """'' or how the JSON database differs from the grammar's."""
    if src is None:
        src = tzmodel.parse_source(text)
    return c07.whole(src, json_db(res.files['zonedb.json']))


def illegal_batch(item):
    from ..harness import Out
    out = Out()
    for i, seq in item:
        out.states += 1
        out.traces += 1
        text = assemble([(i, seq)])
        res = runner.run_main(text, argv())
        p = {'part': 'I', 'item': [i, list(seq)]}
        if not res.ok:
            out.outcome('illegal refused')
            if res.files or not res.exc or res.kind != 'exc':
                out.bad('illegal partial', '%s: %s %s' % (
                    ''.join(seq), res.kind, sorted(res.files)), p)
            continue
        out.outcome('illegal accepted')
        db = json_db(res.files['zonedb.json'])
        more = [z for z, k in left_open(seq, i).items()
                if len(db.zones.get(z, ())) > k]
        if more:
            out.bad('illegal end', '%s: %s has lines from elsewhere\n%s' % (
                ''.join(seq), more, show(text)), p)
            continue
        # the records other than the zone being continued are untouched
        keep = [s for s in seq if s not in 'kK$']
        want = c09.res_db(tzmodel.parse_source(assemble([(i, keep)])))
        got = c09.res_db(db)
        for z, eras in want.items():
            if eras[-1].until is not None:
                continue
            if z not in got or sweep.plain(got[z]) != sweep.plain(eras):
                out.bad('illegal effect', '%s: %s became %s\n%s' % (
                    ''.join(seq), z, got.get(z), show(text)), p)
                break
        else:
            for z in got:
                if z not in want:
                    out.bad('illegal effect', '%s: %s appeared\n%s' % (
                        ''.join(seq), z, show(text)), p)
    return out


# --- B: spellings -----------------------------------------------------------

def month_spellings(m):
    full = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
            'August', 'September', 'October', 'November', 'December'][m]
    out = []
    for k in range(3, len(full) + 1):
        out += [full[:k], full[:k].lower(), full[:k].upper()]
    return list(dict.fromkeys(out))


# field -> [(spelling, canonical spelling, must be accepted)]
def fields():
    f = {}
    mo = [(s, cal.MONTHS[m], True) for m in range(12)
          for s in month_spellings(m)]
    # shorter unambiguous prefixes: legal for zic
    mo += [(s, c, False) for s, c in (
        ('D', 'Dec'), ('F', 'Feb'), ('N', 'Nov'), ('O', 'Oct'), ('S', 'Sep'),
        ('Ap', 'Apr'), ('Au', 'Aug'), ('de', 'Dec'), ('no', 'Nov'),
        ('Ja', 'Jan'))]
    f['month'] = mo
    days = [('last' + d, 'last' + d, True) for d in cal.DOWS]
    days += [('%s>=%d' % (d, k), '%s>=%d' % (d, k), True)
             for d in cal.DOWS for k in (1, 2, 8, 9, 15, 22, 25)]
    days += [('%s<=%d' % (d, k), '%s<=%d' % (d, k), True)
             for d in cal.DOWS for k in (7, 8, 14, 25, 28)]
    days += [(str(k), str(k), True) for k in range(1, 29)]
    days += [('05', '5', False), ('Sun>=08', 'Sun>=8', False)]
    full = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday',
            'Saturday', 'Sunday']
    for n, d in enumerate(full):
        for k in range(1, len(d) + 1):
            for s in (d[:k], d[:k].lower(), d[:k].upper()):
                if s == cal.DOWS[n]:
                    continue
                if k == 1 and d[0] in 'TS':
                    continue
                days += [('last' + s, 'last' + cal.DOWS[n], False),
                         (s + '>=8', cal.DOWS[n] + '>=8', False),
                         (s + '<=25', cal.DOWS[n] + '<=25', False)]
    f['day'] = days
    ti = []
    for base, forms in (('0:00', ['0', '00', '0:0', '00:00', '0:00:00',
                                  '00:00:00']),
                        ('2:00', ['2', '02', '2:0', '02:00', '2:00:00']),
                        ('2:05', ['2:05', '02:05', '2:5', '2:05:00']),
                        ('12:34:56', ['12:34:56']),
                        ('24:00', ['24', '24:00', '24:00:00']),
                        ('0:01', ['0:01', '00:01', '0:1'])):
        for x in ('', 'w', 's', 'u'):
            ti += [(y + x, base + x, True) for y in [base] + forms]
        for x in ('g', 'z'):
            ti += [(y + x, base + 'u', False) for y in [base] + forms]
    ti += [('-', '0:00', False), ('2:00.5', '2:00', False)]
    f['time'] = ti
    f['save'] = [('0', '0', True), ('0:00', '0', True), ('1:00', '1:00', True),
                 ('1', '1:00', True), ('01:00', '1:00', True),
                 ('1:00:00', '1:00', True), ('0:30', '0:30', True),
                 ('00:30', '0:30', True), ('-1:00', '-1:00', True),
                 ('-1', '-1:00', True), ('-0:20', '-0:20', True),
                 ('2:00', '2:00', True), ('0:20:00', '0:20', True),
                 ('1:00d', '1:00', False), ('0s', '0', False),
                 ('-', '0', False), ('-0:00', '0', True), ('-0', '0', True),
                 ('0d', None, False), ('1:00s', None, False)]
    f['from'] = [(str(y), str(y), True) for y in
                 (1, 1700, 1916, 1999, 2000, 2037, 2500)]
    f['to'] = [('only', 'only', True), ('max', 'max', True),
               ('2600', '2600', True), ('2501', '2501', True)] + [
        (s, 'max', False) for s in ('maximum', 'ma', 'maxi', 'MAX', 'm')] + [
        (s, 'only', False) for s in ('o', 'on', 'onl', 'ONLY')]
    f['letter'] = [('-', '-', True), ('S', 'S', True), ('EST', 'EST', True),
                   ('+01', '+01', True), ('s', 's', True),
                   ('max', 'max', True), ('0', '0', True),
                   ('D-', 'D-', True), ('a-b', 'a-b', True)]
    f['off'] = [('1:00', '1:00', True), ('1', '1:00', True),
                ('01:00', '1:00', True), ('-1', '-1:00', True),
                ('-01:00', '-1:00', True), ('-0:30', '-0:30', True),
                ('-00:30:00', '-0:30', True), ('0', '0:00', True),
                ('-0', '0:00', True), ('0:00:01', '0:00:01', True),
                ('-0:00:01', '-0:00:01', True), ('-12:34:56', '-12:34:56',
                                                 True),
                ('14', '14:00', True), ('5:7:9', '5:07:09', True),
                ('-', '0:00', False)]
    f['rules'] = [('-', '-', True), ('P', 'P', True), ('1:00', '1:00', True),
                  ('-1:00', '-1:00', True), ('0:30', '0:30', True),
                  ('0:20:00', '0:20', True), ('01:00', '1:00', True),
                  ('1:00d', '1:00', False)]
    f['format'] = [('EST', 'EST', True), ('+01', '+01', True),
                   ('%z', '%z', True), ('A/B', 'A/B', True),
                   ('-00', '-00', True), ('E%sT', 'E%sT', True),
                   ('+0530/+0630', '+0530/+0630', True)]
    f['until'] = [(str(y), str(y), True) for y in (1, 1883, 1999, 2600)]
    f['until month'] = f['month']
    f['until day'] = [x for x in f['day']]
    f['until time'] = f['time']
    f['rulename'] = [(n, n, True) for n in (
        'P', 'US', 'EU', 'C-Eur', 'E-EurAsia', 'W_x', 'NT_YK', 'Rule',
        'Zone', 'Link', 'max', 'x1', 'a.b', 'A/B')]
    return f


RULE = ['rulename', 'from', 'to', 'month', 'day', 'time', 'save', 'letter']
ERA = ['off', 'rules', 'format', 'until', 'until month', 'until day',
       'until time']
DEFAULT = {'rulename': 'P', 'from': '1999', 'to': 'max', 'month': 'Apr',
           'day': 'Sun>=8', 'time': '2:05s', 'save': '1:00', 'letter': 'D',
           'off': '1:30', 'rules': '-', 'format': 'FMT', 'until': '1999',
           'until month': 'Apr', 'until day': 'Sun>=8',
           'until time': '2:05s'}


def spelled(vals, i):
    """Source text with the given field spellings; names carry i."""
    v = dict(DEFAULT, **vals)
    # the policy name under test keeps its spelling, made unique by a suffix
    rn = '%s_%d' % (v['rulename'], i)
    fmt = v['format']
    if v['rules'] != 'P' and '%s' in fmt:
        fmt = fmt.replace('%s', '-')
    rl = rn if v['rules'] == 'P' else v['rules']
    t = ('Rule\t%s\t0100\tmax\t-\tNov\t20\t0:00\t0\t-\n'
         'Rule\t%s\t1600\tonly\t-\tMar\t20\t0:00\t0:10\tB\n' % (rn, rn))
    if any(k in RULE for k in vals):
        t += 'Rule\t%s\t%s\t%s\t-\t%s\t%s\t%s\t%s\t%s\n' % (
            rn, v['from'], v['to'], v['month'], v['day'], v['time'],
            v['save'], v['letter'])
    t += 'Zone\tR/r%d\t3:00\t%s\tZ%%s\n' % (i, rn)
    if any(k in ERA for k in vals):
        t += 'Zone\tE/e%d\t%s\t%s\t%s\t%s %s %s %s\n\t\t\t9:00\t-\tNIN\n' % (
            i, v['off'], rl, fmt, v['until'], v['until month'],
            v['until day'], v['until time'])
        t += 'Zone\tE/f%d\t9:00\t-\tNIN\t0005\n\t\t\t%s\t%s\t%s\n' % (
            i, v['off'], rl, fmt)
    return t


def bad_day(v):
    """UNTIL or ON days which leave their month or year are C17's."""
    for m, d in (('month', 'day'), ('until month', 'until day')):
        mm, dd = v.get(m, DEFAULT[m]), v.get(d, DEFAULT[d])
        on = cal.parse_on(dd)
        mi = cal.MONTHS.index(mm) + 1
        if on[0] == 'd' and on[1] > 28:
            return True
        if on[0] == 'ge' and on[2] > (22 if mi in (2, 12) else 24):
            return True
        if on[0] == 'le' and mi in (1, 2) and (on[2] <= 7 or on[2] > 28):
            return True
    return False


def spell_batch(item):
    from ..harness import Out
    out = Out()
    _spell(item, out)
    return out


def _spell(item, out):
    """item: [(i, spelling vals, canonical vals or None, must)]"""
    must = [x for x in item if x[3]]
    if must:
        _spell_run(must, out)
    for x in item:
        if not x[3]:
            _spell_run([x], out)


def _spell_run(xs, out):
    src = {'europe': ''.join(spelled(x[1], x[0]) for x in xs)}
    res = runner.run_main(src, argv())
    must = xs[0][3]
    d = None
    if not res.ok:
        d = 'refused: %s' % res.exc
    elif xs[0][2] is None:
        d = ''
        db = json_db(res.files['zonedb.json'])
        i = xs[0][0]
        if 'R/r%d' % i in db.zones:
            d = 'accepted'
    else:
        can = {'europe': ''.join(spelled(x[2], x[0]) for x in xs)}
        db = json_db(res.files['zonedb.json'])
        want = tzmodel.parse_source(can)
        if not must:
            # may be removed with a reason
            j = json.loads(res.files['zonedb.json'])
            gone = [z for z in want.zones if z not in db.zones]
            if all(j['removed_zones'].get(z) for z in gone):
                want = tzmodel.Db({z: e for z, e in want.zones.items()
                                   if z not in gone}, want.policies, {})
        d = c07.whole(want, db)
    if d and must and len(xs) > 1:
        h = len(xs) // 2
        _spell_run(xs[:h], out)
        _spell_run(xs[h:], out)
        return
    out.states += len(xs)
    out.traces += len(xs)
    if d and not res.ok and not must:
        out.outcome('spelling refused')
        if res.files or res.kind != 'exc' or not res.exc:
            out.bad('spelling partial', '%s %s' % (res.kind, xs[0][1]),
                    {'part': 'B', 'item': [xs[0]]})
        return
    out.outcome('spelling read right' if not d else 'spelling WRONG',
                len(xs))
    if d:
        out.bad('spelling:' + '+'.join(sorted(xs[0][1])), '%s: %s\n%s' % (
            xs[0][1], d, src['europe'].expandtabs(2)),
            {'part': 'B', 'item': [xs[0]]})


def spellings(level):
    f = fields()
    out = []

    def add(vals):
        sp = {k: x[0] for k, x in vals.items()}
        can = {k: x[1] for k, x in vals.items()}
        must = all(x[2] for x in vals.values())
        if None in can.values():
            can = None
        elif bad_day(can):
            return
        out.append((len(out), sp, can, must))
    for group in (RULE, ERA):
        for k in group:
            for x in f[k]:
                add({k: x})
        for a, b in itertools.combinations(group, 2):
            fa, fb = ([x for x in f[k] if x[2]] for k in (a, b))
            if not level:
                fa = fa[::max(1, len(fa) // 9)]
                fb = fb[::max(1, len(fb) // 9)]
            for x, y in itertools.product(fa, fb):
                if {a, b} == {'from', 'to'} and y[1].isdigit() and \
                        int(y[1]) < int(x[1]):
                    continue
                add({a: x, b: y})
    return out


# --- C: white space, comments, line ends ------------------------------------

LINES = [
    ('Rule', ['Rule', 'P', '1990', 'max', '-', 'Mar', 'Sun>=8', '2:00s',
              '1:00', 'D']),
    ('Zone', ['Zone', 'A/z', '-1:30', 'P', 'X%s', '1995', 'Apr', 'Sun>=8',
              '2:00u']),
    ('era', ['', '2:30', 'P', 'Y%s', '1999', 'Oct', 'lastSun', '3:00']),
    ('last', ['', '3:30', '-', 'ZZZ']),
    ('Link', ['Link', 'A/z', 'A/link'])]
GAPS = [' ', '\t', '  ', '\t\t', ' \t', '\t ', '          ', '\f', '\v',
        ' \v', '\t\f ']
ENDS = ['', ' ', '\t', ' \t  ', '#', ' #', '\t# c', '#c', ' # Rule\tX',
        ' # "q', ' ## #', ' # caf\u00e9', '\f', ' \v', '#a # b', '#a #b', '## c #',
        '#\tc\t#d', '\f# c']
LINESEP = ['\n', '\r\n']
# between two lines: white and comment lines
BETWEEN = ['\n\f\n', '\n\v\n', '\n \f\t\n', '\n\n\n', '\n\t#x\n',
           '\n\f# 9:00\t-\tNO\n', '\r\n\v\r\n', '\n#\n']


def layout(gaps, ends, lead, sep):
    """The five lines with a gap string per gap and an end per line."""
    out = []
    g = iter(gaps)
    for n, (kind, tok) in enumerate(LINES):
        t = lead if tok[0] == '' else tok[0]
        for k, x in enumerate(tok[1:]):
            t += (next(g) if k or tok[0] else '') + x
        out.append(t + ends[n])
    return sep.join(out) + sep


NGAPS = sum(len(t) - (2 if t[0] == '' else 1) for _, t in LINES)
BASE = ('Rule\tP\t1980\tmax\t-\tNov\t3\t2:00\t0\t-\n'
        'Zone\tT/p\t5:00\tP\tT%s\n')


def layouts(level):
    out = []
    one = ['\t'] * NGAPS
    for g in GAPS:
        out.append(([g] * NGAPS, [''] * 5, '\t', '\n'))
        for i in range(NGAPS):
            out.append((one[:i] + [g] + one[i + 1:], [''] * 5, '\t', '\n'))
        if level:
            for i, j in itertools.combinations(range(NGAPS), 2):
                x = list(one)
                x[i], x[j] = g, ' '
                out.append((x, [''] * 5, '\t', '\n'))
    for e in ENDS:
        for n in range(5):
            x = [''] * 5
            x[n] = e
            for sep in LINESEP:
                out.append((one, x, '\t', sep))
    for es in itertools.product(ENDS[::1 if level else 4], repeat=3):
        out.append((one, [es[0], es[1], es[2], es[0], es[1]], ' ', '\n'))
    for sep in BETWEEN:
        for lead in ('\t', ' ', '\f', '\v'):
            for e in ('', ' ', '\f', '# c', ' # a # b'):
                out.append((one, [e] * 5, lead, sep))
    for lead in ('\t', ' ', '\t\t\t', '    ', ' \t ', '\t\t\t\t\t', '\f',
                 '\v', '\f\t', ' \v'):
        for sep in LINESEP:
            for e in ENDS:
                out.append((one, [e] * 5, lead, sep))
    return out


def layout_batch(item):
    from ..harness import Out
    out = Out()
    src = BASE + layout(['\t'] * NGAPS, [''] * 5, '\t', '\n')
    want = tzmodel.parse_source({'europe': src})
    for x in item:
        out.states += 1
        out.traces += 1
        text = {'europe': BASE + layout(*x)}
        res = runner.run_main(text, argv())
        d = whole(text, res, want) if res.ok else 'refused: %s' % res.exc
        out.outcome('layout read right' if not d else 'layout WRONG')
        if d:
            out.bad('layout', '%s\n%r' % (d, text['europe']),
                    {'part': 'C', 'item': x})
    return out


def cuts():
    """A comment after every field of every line, glued or not: the text is
    the line cut there."""
    out = []
    for n, (kind, tok) in enumerate(LINES):
        for k in range(1, len(tok) + 1):
            for c in ('#', ' # x', '\t#\t' + ' '.join(tok[k:]),
                      '#' + ' '.join(tok[k:])):
                out.append((n, k, c))
    return out


def cut_text(n, k, c):
    lines = []
    for i, (kind, tok) in enumerate(LINES):
        t = tok if i != n else tok[:k]
        lines.append('\t'.join(t) + (c if i == n else ''))
    return BASE + '\n'.join(lines) + '\n'


NEED = {'Rule': 10, 'Zone': 6, 'era': 5, 'last': 4, 'Link': 3}


def cut_batch(item):
    from ..harness import Out
    out = Out()
    for n, k, c in item:
        out.states += 1
        out.traces += 1
        text = {'europe': cut_text(n, k, c)}
        kind, tok = LINES[n]
        p = {'part': 'K', 'item': [n, k, c]}
        legal = k >= NEED[kind]
        gone = tok[0] == '' and k == 1      # nothing but a comment is left
        res = runner.run_main(text, argv())
        if legal or gone and kind == 'era':
            plain = {'europe': cut_text(n, k, '')}
            d = whole(text, res, tzmodel.parse_source(plain)) if res.ok \
                else 'refused: %s' % res.exc
            out.outcome('cut read right' if not d else 'cut WRONG')
            if d:
                out.bad('cut', '%s\n%r' % (d, text['europe']), p)
        elif res.ok:
            j = json.loads(res.files['zonedb.json'])
            # a line cut short defines nothing
            z = json_db(res.files['zonedb.json'])
            out.outcome('cut accepted')
            bad = ''
            if kind == 'Rule' or kind == 'Link':
                bad = 'an incomplete %s line was accepted' % kind
            elif gone or kind in ('Zone', 'era') and k == NEED[kind] - 1:
                continue    # a zone after its end: no meaning to compare
            elif 'A/z' in z.zones or not j['removed_zones'].get('A/z'):
                bad = 'a zone with an incomplete line was accepted'
            if bad:
                out.bad('cut', '%s\n%r' % (bad, text['europe']), p)
        else:
            out.outcome('cut refused')
            if res.files or res.kind != 'exc' or not res.exc:
                out.bad('cut', 'files written: %r' % text, p)
    return out


# --- D: the real TZDB respelled -----------------------------------------

FULL = {m: f for m, f in zip(cal.MONTHS, [
    'January', 'February', 'March', 'April', 'May', 'June', 'July', 'August',
    'September', 'October', 'November', 'December'])}


def each_line(f):
    def g(text):
        out = []
        for line in text.split('\n'):
            i = line.find('#')
            body, com = (line, '') if i < 0 else (line[:i], line[i:])
            out.append(f(body, com))
        return '\n'.join(out)
    return g


def spaces(body, com):
    if not body.strip():
        return body + com
    lead = body[:1].isspace()
    return (' ' if lead else '') + '  '.join(body.split()) + com


def tabs(body, com):
    if not body.strip():
        return body + com
    lead = body[:1].isspace()
    return ('\t\t\t' if lead else '') + '\t'.join(body.split()) + com


def months(up):
    def f(body, com):
        t = body.split('\t') if '\t' in body else [body]
        out = []
        for x in t:
            out.append(' '.join(
                FULL[w].upper() if up and w in FULL else FULL.get(w, w)
                for w in x.split(' ')))
        # a name that is a month would be renamed; the TZDB has none
        return '\t'.join(out) + com
    return f


RESPELL = {
    'as is': lambda t: t,
    'no comments': each_line(lambda b, c: b.rstrip()),
    'comment everywhere': each_line(
        lambda b, c: b + '#Zone\tX/X\t1:00\t-\tX' + c),
    'blank lines': lambda t: t.replace('\n', '\n\n \t\n'),
    'comment lines': lambda t: t.replace(
        '\n', '\n# Zone\tX/X\t1:00\t-\tX\n\t\t# 2:00\t-\tY\n'),
    'crlf': lambda t: t.replace('\n', '\r\n'),
    'spaces': each_line(spaces),
    'tabs': each_line(tabs),
    'months': each_line(months(False)),
    'MONTHS': each_line(months(True)),
    'no final newline': lambda t: t.rstrip('\n'),
    'trailing space': lambda t: t.replace('\n', ' \t\n'),
}


def respell(item):
    from ..harness import Out
    out = Out()
    name, how = item
    out.states += 1
    out.traces += 1
    db = real_tzdb()
    p = {'part': 'D', 'item': list(item)}
    src = tzmodel.parse_source(db)
    if how == 'moved':      # every file's content under another file's name
        text = {f: db.get(g, '') for f, g in zip(
            tzmodel.FILES, reversed(tzmodel.FILES))}
    elif how == 'one file':
        text = {'asia': '\n'.join(db[f] for f in tzmodel.FILES if f in db)}
    else:
        text = {f: RESPELL[how](t) for f, t in db.items()}
    res = runner.run_main(text, argv(name), timeout=600)
    d = ''
    if not res.ok:
        d = 'refused: %s' % res.exc
    else:
        got = json_db(res.files['zonedb.json'])
        d = c07.whole(src, got)
        if not d:
            out.add('real zones compared', len(src.zones))
    out.outcome('real ' + ('read right' if not d else 'WRONG'))
    if d:
        out.bad('real:' + how, '%s: %s' % (how, d[:3000]), p)
    return out


# --- V: values no field can have ----------------------------------------

BADTIME = ['abc', 'x', '2:60', '2:00:60', '2:99', '2::00', '2:', '::', ':30',
           '2:00:', '2:00:00:00', '2,00', '2.5', '1e3', '2:00x', '2:00ss',
           '2:00us', '2 00', '2:0O', '0x2', '2-00', '2:-5', '2:00:-1',
           '--2:00', '26:00', '99:00', '2:00.5', '2;00']
BADDAY = ['0', '32', '-1', '99', '1.5', 'x', 'Sun', 'last', 'lastFoo',
          'first', 'lastSun8', 'Last', 'Foo>=8', '>=8', '<=8', '8>=Sun',
          'Sun>8', 'Sun<8', 'Sun=>8', 'Sun=8', 'Sun==8', 'Sun>=', 'Sun<=',
          'Sun>=x', 'Sun>=0', 'Sun<=0', 'Sun>=32', 'Sun<=32', 'Sun>=-1',
          'Sun>=1.5', 'Sun>=8,', 'SunMon', 'Sunday>=', '8Sun', 'Sun>=8<=20',
          'lastSun>=8']
BADMONTH = ['0', '1', '12', '13', 'x', 'Foo', 'J', 'Ju', 'Ma', 'M', 'A', '-',
            'Sun', 'xJan', '1Jan']
BADYEAR = ['abc', 'x', '-', '1.5', '2000a', 'a2000', '0x7d0', '2e3', '2000,',
           '20:00', 'only', 'max', '=2000', '2000-', '>=2000']


def bad_values():
    """(line, field number, value): line 0 is a Rule, 1 the last era of a
    zone, 2 an era with UNTIL, 3 a Link, 4 the first line of a zone."""
    out = []

    def add(line, k, vals):
        out.extend((line, k, v) for v in vals)
    add(0, 2, BADYEAR)
    add(0, 3, [y for y in BADYEAR if y not in ('only', 'max')] +
        ['1998', '1', '1900', '-5', '0'])
    add(0, 4, ['even', 'odd', 'uspres', 'nonpres', 'x', '--', 'max', '0',
               'Apr', 'only'])
    add(0, 5, BADMONTH)
    add(0, 6, BADDAY)
    add(0, 7, BADTIME)
    add(0, 8, BADTIME + ['1:00w', '1:00u', '24:00', '-24:00'])
    add(0, 0, ['Ruler', 'Rules', 'Rule:', '-Rule', 'Zule', 'Rul', 'Rul3'])
    for line, k in ((1, 0), (2, 0)):
        add(line, k, BADTIME + ['1:00w', '1:00u', '1:00s', '99:00', '-99:00'])
        add(line, k + 1, ['1:60', '1::0', '1:00x', '1:00w', '1:0:60',
                          'Missing', '24:00', ':', '1:'])
    add(2, 3, BADYEAR)
    add(2, 4, BADMONTH)
    add(2, 5, BADDAY)
    add(2, 6, BADTIME)
    add(3, 0, ['Lin', 'Links', 'Link:', 'Linked', '-Link', 'Zone'])
    add(3, 1, ['A/missing', 'A/Z', 'A/z/', '/A/z', 'A', 'B/l'])
    add(4, 0, ['Zones', 'Zoned', 'Zone:', 'zone', 'Zon', 'Zonne'])
    add(4, 5, BADYEAR)
    return out


VLINES = [['Rule', 'P', '1999', 'max', '-', 'Apr', 'Sun>=8', '2:05s', '1:00',
           'D'],
          ['3:00', 'P', 'C%sT'],
          ['2:00', 'P', 'B%sT', '2001', 'Apr', 'Sun>=8', '2:05s'],
          ['Link', 'A/z', 'B/l'],
          ['Zone', 'A/z', '1:00', '-', 'AAA', '1990']]


def value_text(n, k, v):
    tok = [list(x) for x in VLINES]
    tok[n][k] = v
    r, last, era, link, zone = ['\t'.join(x) for x in tok]
    return ('Rule\tP\t1980\tmax\t-\tOct\tlastSun\t2:00\t0\tS\n' + r +
            '\n' + zone + '\n\t\t\t' + era + '\n\t\t\t' +
            last + '\nZone\tA/plain\t5:00\t-\tPPP\n' + link + '\n')


def value_batch(item):
    from ..harness import Out
    out = Out()
    for n, k, v, scope, mode in item:
        out.states += 1
        out.traces += 1
        text = value_text(n, k, v)
        p = {'part': 'V', 'item': [n, k, v, scope, mode]}
        res = runner.run_main({'europe': text}, u.argv_for(
            scope, 1980 if scope != 'complete' else 1, 2100, 'python',
            actions='json', more=MORE + ('--' + mode,)))
        if not res.ok:
            out.outcome('value refused')
            if res.files or res.kind != 'exc' or not res.exc:
                out.bad('value', 'files written: %r' % text, p)
            continue
        j = json.loads(res.files['zonedb.json'])
        if n == 3:
            gone = 'B/l' not in j['links_map'] and (
                k == 0 or j['removed_links'].get('B/l'))
        else:
            gone = 'A/z' not in j['zones_map'] and (
                j['removed_zones'].get('A/z'))
        out.outcome('value: not emitted' if gone else 'value ACCEPTED')
        if not gone:
            out.bad('value', 'accepted %r in field %d of\n%s' % (
                v, k, text), p)
        if 'A/plain' not in j['zones_map']:
            out.bad('value', 'A/plain is missing\n%s' % text, p)
    return out


def check(ctx):
    t = ctx.thorough
    hows = list(RESPELL) + ['moved', 'one file']
    ctx.pmap(respell, [('complete', h) for h in hows], 'real TZDB')
    legal, illegal, tr = sequences(6 if t else 5, 2 if t else 1)
    if not t:
        illegal = [s for s in illegal if len(s) <= 4]
    # the same, and what looks like the rest of the zone comes later
    late = [s + x for s in illegal if s[-1] not in 'kK$' and
            len(s) <= (4 if t else 3)
            for x in (('K',), ('k', 'K'), ('c', 'K'), ('l', 'K'))]
    illegal += late
    ctx.transitions += tr + len(late)
    ctx.notes['sequences'] = {'legal': len(legal), 'illegal': len(illegal)}
    ctx.pmap(layout_batch, list(explore.batches(layouts(t), 40)), 'layouts')
    ctx.pmap(cut_batch, list(explore.batches(cuts(), 8)), 'cuts')
    bv = [x + y for x in bad_values() for y in (
        ('complete', 'nostrict'), ('complete', 'strict'),
        ('extended', 'nostrict'), ('basic', 'nostrict'))]
    ctx.notes['illegal values'] = len(bv)
    ctx.transitions += len(bv)
    ctx.pmap(value_batch, list(explore.batches(bv, 20)), 'values')
    sp = spellings(t)
    ctx.notes['spellings'] = len(sp)
    ctx.pmap(spell_batch, list(explore.batches(sp, 120)), 'spellings')
    ctx.pmap(illegal_batch, list(explore.batches(
        list(enumerate(illegal)), 200)), 'illegal sequences')
    ctx.pmap(legal_batch, list(explore.batches(
        list(enumerate(legal)), 300)), 'sequences')


def replay(p):
    k = p['part']
    if k == 'A':
        from ..harness import Out
        o = Out()
        _legal([(p['seq'][0], tuple(p['seq'][1]))], o)
    elif k == 'I':
        o = illegal_batch([(p['item'][0], tuple(p['item'][1]))])
    elif k == 'B':
        o = spell_batch([tuple(x) for x in p['item']])
    elif k == 'C':
        o = layout_batch([p['item']])
    elif k == 'K':
        o = cut_batch([tuple(p['item'])])
    elif k == 'V':
        o = value_batch([tuple(p['item'])])
    else:
        o = respell(tuple(p['item']))
    return [m for _, m, _ in o.viol]
