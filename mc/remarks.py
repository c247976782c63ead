"""Reading the explanatory comments of the generated files: every comment that
stands beside a value is evaluated and compared with that value.

judge(files, lang, scope, j, base) -> [what is untrue]
j is zonedb.json of the same compile."""
import re

SUF = {'W': 0, 'S': 16, 'U': 32}


def snake(s):
    return re.sub(r'([A-Z])', lambda m: '_' + m.group(1).lower(), s)


LABELS = {
    'context': ['start_year', 'until_year', 'start_year_accurate',
                'until_year_accurate', 'max_transitions', 'tz_version',
                'num_fragments', 'num_letters', 'fragments', 'letters'],
    'info': ['name', 'zone_id', 'zone_context', 'num_eras', 'eras',
             'target_info'],
    'policy': ['rules', 'num_rules'],
    'era_low': ['zone_policy', 'format', 'offset_code', 'delta_code',
                'until_year_tiny', 'until_month', 'until_day',
                'until_time_code', 'until_time_modifier'],
    'era_high': ['zone_policy', 'format', 'offset_code', 'offset_remainder',
                 'delta_minutes', 'until_year', 'until_month', 'until_day',
                 'until_time_code', 'until_time_modifier'],
    'rule_low': ['from_year_tiny', 'to_year_tiny', 'in_month',
                 'on_day_of_week', 'on_day_of_month', 'at_time_code',
                 'at_time_modifier', 'delta_code', 'letter_index'],
    'rule_high': ['from_year', 'to_year', 'in_month', 'on_day_of_week',
                  'on_day_of_month', 'at_time_modifier', 'at_time_code',
                  'delta_minutes', 'letter_index'],
}
LABELS['context_arduino'] = (LABELS['context'][:4] + ['base_year'] +
                             LABELS['context'][4:])


def body(text):
    """The file without its header."""
    k = text.find('DO NOT EDIT')
    return text[k:].split('\n')[1:]


def squash(s):
    return ' '.join(s.split())


FIELD = re.compile(r'^\s*(\S.*?) /\*(\w+)(?: \((.*)\))?\*/,?$')
GOFIELD = re.compile(r'^\t\t(\w+): (-?\w+),(?: // (.*))?$')
SUFNOTE = re.compile(r'^k?(?:Atc)?Suffix([WSU]) \+ '
                     r'(minute|seconds|remainder)=(-?\d+)$')
DELTA = re.compile(r'^\(\(?delta_?[mM]inutes=(-?\d+)\)/15 \+ 4\)$')
DELTA2 = re.compile(r'^\(\(offset_?[mM]inute=(-?\d+)\) << 4\) \+ '
                    r'\(\(delta_?[mM]inutes=(-?\d+)\)/15 \+ 4\)$')


def tiny(kind, year, base):
    hi, inf = (126, 32766) if kind == 'rule' else (127, 32767)
    if year == -32767:
        return -127
    if year == inf:
        return hi
    return max(-127, min(hi, year - base))


def note(field, value, text, group, letters, base, low):
    """'' or why the note (text) of a field is not true of its value."""
    m = SUFNOTE.match(text)
    if m and field.endswith('modifier'):
        n = int(m.group(3))
        if not 0 <= n < 15 or value != SUF[m.group(1)] + n:
            return 'note says %d' % (SUF[m.group(1)] + n)
        if low != (m.group(2) == 'minute'):
            return 'unit %s' % m.group(2)
        return ''
    m = DELTA.match('(' + text if not text.startswith('((') else text) or \
        DELTA.match('(' + text + ')')
    if m and field == 'delta_code':
        d = int(m.group(1))
        return '' if d % 15 == 0 and d // 15 + 4 == value else \
            'note says %d' % (d // 15 + 4)
    m = DELTA2.match(text)
    if m and field == 'delta_code':
        o, d = int(m.group(1)), int(m.group(2))
        return '' if d % 15 == 0 and 0 <= o < 15 and \
            (o << 4) + d // 15 + 4 == value else \
            'note says %d' % ((o << 4) + d // 15 + 4)
    m = re.match(r'^(-?\d+)(/| / |%)15$', text)
    if m:
        s = int(m.group(1))
        rest = group.get(field.replace('_code', '_remainder'), None)
        if field.endswith('remainder'):
            code, rest = group.get(field.replace('_remainder', '_code')), value
        else:
            code = value
            if rest is None:
                rest = group.get(field.replace('_code', '_modifier'))
                rest = None if rest is None else rest & 15
        if not isinstance(code, int) or not isinstance(rest, int):
            return 'no counterpart'
        return '' if code * 15 + rest == s else 'note says %d seconds, ' \
            'the fields hold %d' % (s, code * 15 + rest)
    if re.match(r'^-?\d+$', text) and field.endswith('year_tiny'):
        kind = 'until' if field.startswith('until') else 'rule'
        w = tiny(kind, int(text), base)
        return '' if w == value else 'note says %s' % w
    m = re.match(r'^"(.*)"$', text)
    if m and field == 'letter_index':
        if not 0 <= value < len(letters) or letters[value] != m.group(1):
            return 'the letters are %s' % letters[:9]
        return ''
    return 'unknown note'


def c_files(files, lang, scope, j, base):
    """Judge the Arduino or C files."""
    bad = []
    ext = '.cpp' if lang == 'arduino' else '.c'
    names = dict(j['zone_ids'])
    names.update(j['link_ids'])
    byid = {v: k for k, v in names.items()}
    low = scope != 'complete'
    t = {n: body(files[n].decode('utf-8')) for n in files
         if n.endswith(('.h', ext))}
    infos = t['zone_infos' + ext]
    # letters, fragments: "value, // text" or "/*index*/ text"
    letters = []
    defs = {}
    for line in infos:
        m = re.match(r'^static const char (kLetter\d+)\[\].* = "(.*)";$', line)
        if m:
            defs[m.group(1)] = m.group(2)
    where = None
    for line in infos:
        if re.search(r'\bk(Atc)?(Fragments|Letters)\[\]', line):
            where, n = ('letter' if 'Letters' in line else 'fragment'), 0
            continue
        if line.startswith('}'):
            where = None
        if where is None:
            continue
        m = re.match(r'^\s*(kLetter\d+), // "(.*)"$', line)
        if m and where == 'letter':
            letters.append(defs.get(m.group(1)))
            if letters[-1] != m.group(2):
                bad.append('letter comment: %s but %s is "%s"' % (
                    line, m.group(1), letters[-1]))
            continue
        m = re.match(r'^/\*(\d+)\*/ "(.*)",$', line)
        if m and where == 'letter':
            if int(m.group(1)) != len(letters):
                bad.append('letter comment: %s at %d' % (line, len(letters)))
            letters.append(m.group(2))
            continue
        m = re.match(r'^/\*\\x([0-9a-f]{2})\*/ (.*),$', line) or re.match(
            r'^\s*(?:kFragment\w*|nullptr|NULL|".*"), // ()(.*)$', line)
        if m and where == 'fragment':
            if m.group(1) and int(m.group(1), 16) != n:
                bad.append('fragment comment: %s at %d' % (line, n))
            k = re.search(r"'\\x([0-9a-f]{2})'", line)
            if k and int(k.group(1), 16) != n:
                bad.append('fragment comment: %s at %d' % (line, n))
            n += 1
            continue
        if where == 'fragment' and line.strip():
            n += 1
    # symbol of each zone and link, by its id
    name_of = {}
    cur = None
    for line in infos:
        m = re.match(r'^const .*ZoneInfo k\w*?Zone(\w+)\s.*= \{$', line)
        if m:
            cur = m.group(1)
        m = re.match(r'^  (0x[0-9a-f]{8}) /\*', line)
        if m and cur is not None:
            name_of[cur] = byid.get(int(m.group(1), 16))
            cur = None
    if len(name_of) != len(names):
        bad.append('%d records for %d names' % (len(name_of), len(names)))

    def named(sym, text, what, line):
        """text is NAME or LINK -> NAME"""
        n = name_of.get(sym)
        want = n
        if n in j['links_map'] and what != 'id':
            want = '%s -> %s' % (n, j['links_map'][n])
        if text != want:
            bad.append('%s comment: %s, the symbol is of %s' % (
                what, line, want))
    # sections, records
    raws = {}
    for z, info in j['zones_map'].items():
        raws['zone', z] = [squash(e['raw_line']) for e in info['eras']]
    for p, pol in j['policies_map'].items():
        raws['policy', p] = [squash(r['raw_line']) for r in pol['rules']]
    for f, kind in (('zone_infos', 'zone'), ('zone_policies', 'policy')):
        sect = None
        seen = {}
        group, raw, rec = None, None, None
        for line in t[f + ext]:
            m = re.match(r'^// (Zone|Policy|Link) name: (.*)$', line)
            if m:
                sect = m.group(2)
                if m.group(1) != 'Link':
                    seen[sect] = []
                continue
            m = re.match(r'^static const .*Zone(Era|Rule)s?(\w+)\[\]', line)
            if m:
                if m.group(1) == 'Era':
                    named(m.group(2), sect, 'section', line)
                continue
            m = re.match(r'^const .*ZoneInfo k\w*?Zone(\w+)\s.*= \{$', line)
            if m:
                named(m.group(1), sect, 'section', line)
            if re.match(r'^const .*Zone(Info|Policy|Context) .*= \{$', line):
                group, rec = [], line
                continue
            m = re.match(r'^  // (.*)$', line)
            if m and group is None:
                raw = squash(m.group(1))
                continue
            if line == '  {':
                group, rec = [], 'record'
                if sect in seen:
                    seen[sect].append(raw)
                raw = None
                continue
            m = FIELD.match(line)
            if m and group is not None:
                group.append((snake(m.group(2)), m.group(1), m.group(3),
                              line))
                continue
            if re.match(r'^\s*\},?;?$', line) and group is not None:
                fields(group, rec, kind, lang, low, letters, base, bad)
                group = None
        for n, raw in seen.items():
            if raws.get((kind, n)) != raw:
                bad.append('%s %s: the records are preceded by %s, their '
                           'source lines are %s' % (kind, n, raw,
                                                    raws.get((kind, n))))
        miss = {n for k, n in raws if k == kind} - set(seen)
        if miss:
            bad.append('no section for %s' % sorted(miss)[:4])
    # declarations, ids, buffer sizes, registries
    for f in ('zone_infos.h', 'zone_registry' + ext):
        for line in t[f]:
            m = re.match(r'^extern const .*ZoneInfo k\w*?Zone(\w+); // (.*)$',
                         line)
            if m:
                named(m.group(1), m.group(2), 'declaration', line)
            m = re.match(r'^(?:const uint32_t|#define) k\w*?ZoneId(\w+)'
                         r'(?: =)? (0x[0-9a-f]+);? (?:// |/\* )(.*?)(?: \*/)?$',
                         line)
            if m and names.get(m.group(3)) != int(m.group(2), 16):
                bad.append('id comment: %s' % line)
            elif m:
                named(m.group(1), m.group(3), 'id', line)
            m = re.match(r'^(?:const uint8_t|#define) k\w*?ZoneBufSize(\w+)'
                         r'(?: =)? (\d+);?  (?:// |/\* )(\S+) in (-?\d+)'
                         r'(?: \*/)?$', line)
            if m:
                if j['buf_sizes'].get(m.group(3)) != [int(m.group(2)),
                                                      int(m.group(4))]:
                    bad.append('buffer size comment: %s, estimated %s' % (
                        line, j['buf_sizes'].get(m.group(3))))
                named(m.group(1), m.group(3), 'id', line)
            m = re.match(r'^  &k\w*?Zone(\w+), // (0x[0-9a-f]+), (.*)$', line)
            if m:
                n = m.group(3).split(' -> ')[0]
                if names.get(n) != int(m.group(2), 16):
                    bad.append('registry comment: %s' % line)
                named(m.group(1), m.group(3), 'registry', line)
    return bad


def fields(group, rec, kind, lang, low, letters, base, bad):
    got = [g[0] for g in group]
    if rec == 'record':
        want = LABELS[('era_' if kind == 'zone' else 'rule_') + (
            'low' if low else 'high')]
    elif 'ZoneContext' in rec:
        want = LABELS['context_arduino' if lang == 'arduino' else 'context']
    else:
        want = LABELS['info' if kind == 'zone' else 'policy']
    if got != want:
        bad.append('labels %s, the fields are %s' % (got, want))
        return
    vals = {}
    for f, v, _, _ in group:
        vals[f] = int(v) if re.match(r'^-?\d+$', v) else v
    for f, v, n, line in group:
        if n is not None:
            d = note(f, vals[f], n, vals, letters, base, low)
            if d:
                bad.append('note of %s: %s' % (line.strip(), d))


def go_list(lines, name):
    """The strings of a Go constant made of concatenated literals."""
    out = None
    for line in lines:
        if line.startswith('const %s = "' % name):
            out = []
            line = line.split(' = ', 1)[1]
        if out is not None:
            out.append(line.strip().rstrip('+').strip().strip('"'))
            if not line.rstrip().endswith('+'):
                return out
    return out or []


def go_files(files, j):
    bad = []
    names = dict(j['zone_ids'])
    names.update(j['link_ids'])
    order = sorted(names, key=names.get)
    pols = sorted(j['policies_map'])
    t = {n: body(files[n].decode('utf-8')) for n in files
         if n.endswith('.go')}
    strings = {'LetterIndex': go_list(t['zone_policies.go'], 'LetterData'),
               'FormatIndex': go_list(t['zone_infos.go'], 'FormatData'),
               'NameIndex': go_list(t['zone_infos.go'], 'NameData')}
    eras = {z: [squash(e['raw_line']) for e in i['eras']]
            for z, i in j['zones_map'].items()}
    rules = {p: [squash(r['raw_line']) for r in i['rules']]
             for p, i in j['policies_map'].items()}
    for f, src in (('zone_infos_test.go', eras),
                   ('zone_policies_test.go', rules)):
        sect, n, seen, raw, group = None, 0, {}, None, None
        infos = 0
        for line in t[f]:
            m = re.match(r'^\t// (?:Zone|Policy)Name: (.*)$', line)
            if m:
                sect = m.group(1)
                seen[sect] = []
                continue
            m = re.match(r'^\t// (?:Era|Rule)Index: (\d+)$', line)
            if m:
                if int(m.group(1)) != n:
                    bad.append('index comment of %s: %s at %d' % (sect, line,
                                                                  n))
                continue
            m = re.match(r'^\t// (?:Era|Rule)Count: (\d+)$', line)
            if m:
                if int(m.group(1)) != len(src.get(sect, ())):
                    bad.append('count comment of %s: %s' % (sect, line))
                continue
            m = re.match(r'^\t// (\d+): (Zone|Link) (.*)$', line)
            if m:
                sect = None
                k = int(m.group(1))
                want = '?'
                if k < len(order):
                    w = order[k]
                    want = 'Link %s -> %s' % (w, j['links_map'][w]) \
                        if w in j['links_map'] else 'Zone ' + w
                if k != infos or m.group(2) + ' ' + m.group(3) != want:
                    bad.append('info comment: %s at %d, expected %s' % (
                        line, infos, want))
                infos += 1
                continue
            m = re.match(r'^\t\{RuleIndex: (\d+), RuleCount: (\d+)\}, '
                         r'// (\d+): PolicyName: (.*)$', line)
            if m:
                k = int(m.group(3))
                want = '(none)' if k == 0 else (
                    pols[k - 1] if k <= len(pols) else '?')
                if m.group(4).lower() != want.lower() or k != infos:
                    bad.append('policy comment: %s at %d, expected %s' % (
                        line, infos, want))
                infos += 1
                continue
            m = re.match(r'^\t// (.*)$', line)
            if m and group is None and not m.group(1).startswith('---'):
                raw = squash(m.group(1))
                continue
            if line == '\t{':
                group = []
                if sect is not None:
                    seen[sect].append(raw)
                    n += 1
                raw = None
                continue
            m = GOFIELD.match(line)
            if m and group is not None:
                group.append((m.group(1), int(m.group(2), 0), m.group(3),
                              line))
                continue
            if line == '\t},' and group is not None:
                go_fields(group, strings, pols, order, bad)
                group = None
        for s, r in seen.items():
            if src.get(s) != r:
                bad.append('%s: the records are preceded by %s, their source '
                           'lines are %s' % (s, r, src.get(s)))
        if set(src) - set(seen):
            bad.append('no section for %s' % sorted(set(src) - set(seen))[:4])
    syms = {}
    for line in t['zone_registry.go']:
        m = re.match(r'^\tZoneID(\w+) uint32 = (0x[0-9a-f]+) // (.*)$', line)
        if m:
            syms[m.group(1)] = m.group(3)
            if names.get(m.group(3)) != int(m.group(2), 16):
                bad.append('id comment: %s' % line)
    for line in t['zone_registry_test.go']:
        m = re.match(r'^\tZoneInfoIndex(\w+) uint16 = (\d+) // (.*)$', line)
        if m and (int(m.group(2)) >= len(order) or
                  order[int(m.group(2))] != m.group(3) or
                  syms.get(m.group(1)) != m.group(3)):
            bad.append('index comment: %s' % line)
    return bad


def go_fields(group, strings, pols, order, bad):
    vals = {snake(f)[1:]: v for f, v, _, _ in group}
    for f, v, n, line in group:
        if n is None:
            continue
        if f in strings:
            s = strings[f]
            ok = 0 <= v < len(s) and n == '"%s"' % s[v]
        elif f == 'PolicyIndex':
            ok = n.lower() == 'policyname: (none)' if v == 0 else (
                v <= len(pols) and n == 'PolicyName: ' + pols[v - 1])
        elif f == 'TargetIndex':
            ok = 0 <= v < len(order) and n == order[v]
        elif f == 'EraCount':
            ok = n == 'IsLink=true' and v == 0
        else:
            d = note(snake(f)[1:], v, n, vals, [], 0, False)
            if d:
                bad.append('note of %s: %s' % (line.strip(), d))
            continue
        if not ok:
            bad.append('note of %s' % line.strip())


def py_files(files, j):
    bad = []
    src = {('Zone', z): [squash(e['raw_line']) for e in i['eras']]
           for z, i in j['zones_map'].items()}
    src.update({('Policy', p): [squash(r['raw_line']) for r in i['rules']]
                for p, i in j['policies_map'].items()})
    seen = {}
    for f in ('zone_infos.py', 'zone_policies.py'):
        sect = raw = None
        for line in body(files[f].decode('utf-8')):
            m = re.match(r'^# (Zone|Policy) name: (.*)$', line)
            if m:
                sect = m.group(1), m.group(2)
                seen[sect] = []
                continue
            m = re.match(r'^# Link name: (\S+) -> (\S+)$', line)
            if m:
                sect = None
                if j['links_map'].get(m.group(1)) != m.group(2):
                    bad.append('link comment: %s' % line)
                continue
            m = re.match(r'^    # (.*)$', line)
            if m:
                raw = squash(m.group(1))
            if line == '    {' and sect:
                seen[sect].append(raw)
                raw = None
            if line.startswith(']'):
                sect = None
    for k in set(src) | set(seen):
        if src.get(k) != seen.get(k):
            bad.append('%s %s: the records are preceded by %s, their source '
                       'lines are %s' % (k + (seen.get(k), src.get(k))))
    return bad


def judge(files, lang, scope, j, base):
    if lang in ('arduino', 'c'):
        return c_files(files, lang, scope, j, base)
    if lang == 'go':
        return go_files(files, j)
    return py_files(files, j)
