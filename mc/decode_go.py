"""Decode the generated Go artifacts: the binary XxxData strings, the offset
tables, the XxxRecord twins used by acetimego's own tests, the ID and index
constants.  `scan` is a small parser of the emitted Go declarations; check C08
compares it against the Go compiler's own view of the same files."""
import re
from . import cal
from .decode_py import Artifact
from .tzmodel import Db, Rule, Era

_TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>"(?:[^"\\\n]|\\.)*")
  | (?P<num>-?(?:0[xX][0-9a-fA-F]+|\d+))
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*(?:\.[A-Za-z_][A-Za-z_0-9]*)*)
  | (?P<op>[{}()\[\];=,:+&*])
''', re.X | re.S)


def go_string(lit):
    s, out, i = lit[1:-1], bytearray(), 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
        elif s[i + 1] == 'x':
            h = s[i + 2:i + 4]
            if not re.fullmatch('[0-9a-fA-F]{2}', h):
                raise Artifact('bad \\x escape in %s' % lit[:40])
            out.append(int(h, 16))
            i += 4
        else:
            m = {'n': 10, 't': 9, 'r': 13, '\\': 92, '"': 34}
            if s[i + 1] not in m:
                raise Artifact('unknown escape in %s' % lit[:40])
            out.append(m[s[i + 1]])
            i += 2
    return bytes(out)


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = _TOK.match(text, i)
        if not m:
            raise Artifact('cannot tokenise Go at %r' % text[i:i + 40])
        i = m.end()
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


def _expr(t, i):
    k, v = t[i]
    if k == 'str':
        b = go_string(v)
        i += 1
        while i + 1 < len(t) and t[i][1] == '+' and t[i + 1][0] == 'str':
            b += go_string(t[i + 1][1])
            i += 2
        return b, i
    if k == 'num':
        return int(v, 0), i + 1
    if k == 'id':
        if t[i + 1][1] == '{':
            return _comp(t, i + 1)
        return ('ref', v), i + 1
    if v == '[':
        while t[i][1] != '{':
            i += 1
        return _comp(t, i)
    if v == '{':
        return _comp(t, i)
    raise Artifact('unexpected Go token %r' % v)


def _comp(t, i):
    i += 1
    lst, dct = [], {}
    while t[i][1] != '}':
        if t[i][0] == 'id' and t[i + 1][1] == ':':
            key = t[i][1]
            dct[key], i = _expr(t, i + 2)
        else:
            x, i = _expr(t, i)
            lst.append(x)
        if t[i][1] == ',':
            i += 1
        elif t[i][1] != '}':
            raise Artifact('bad composite literal near %r' % (t[i],))
    return (dct if dct else lst), i + 1


def scan(text):
    """{name: value} of all package level const/var declarations."""
    t = tokens(text)
    out = {}
    i = 0

    def decl(i):
        name = t[i][1]
        i += 1
        while t[i][1] != '=':
            i += 1
        val, i = _expr(t, i + 1)
        if name in out:
            raise Artifact('%s declared twice' % name)
        out[name] = val
        return i
    while i < len(t):
        w = t[i][1]
        if w == 'package':
            i += 2
        elif w == 'import':
            if t[i + 1][1] == '(':
                while t[i][1] != ')':
                    i += 1
                i += 1
            else:
                i += 2
        elif w in ('const', 'var'):
            if t[i + 1][1] == '(':
                i += 2
                while t[i][1] != ')':
                    i = decl(i)
                i += 1
            else:
                i = decl(i + 1)
        elif w == 'func':
            while t[i][1] != '{':
                i += 1
            d = 0
            while True:
                d += {'{': 1, '}': -1}.get(t[i][1], 0)
                i += 1
                if d == 0:
                    break
        else:
            raise Artifact('unexpected Go token %r' % (t[i],))
    return out


class Tables:
    pass


def _le(b, signed=False):
    return int.from_bytes(b, 'little', signed=signed)


SUFFIX = {0x00: 'w', 0x10: 's', 0x20: 'u'}


def _secs(code, mod, what):
    if (mod & 0xf0) not in SUFFIX or (mod & 15) > 14:
        raise Artifact('%s: bad modifier %#x' % (what, mod))
    return code * 15 + (mod & 15), SUFFIX[mod & 0xf0]


def strtab(g, what):
    data, offs = g[what + 'Data'], g[what + 'Offsets']
    if offs != sorted(offs) or not offs or offs[-1] > len(data) or offs[0]:
        raise Artifact('%sOffsets is not an offset table' % what)
    return [data[a:b].decode('utf-8') for a, b in zip(offs, offs[1:])]


def decode(files):
    text = {}
    for f in ('zone_policies.go', 'zone_infos.go', 'zone_registry.go',
              'zone_policies_test.go', 'zone_infos_test.go',
              'zone_registry_test.go', 'reader_test.go'):
        if f not in files:
            raise Artifact('missing artifact %s' % f)
        text[f] = files[f].decode('utf-8')
    g = {}
    pk = set()
    for f, s in text.items():
        for k, v in scan(s).items():
            if k in g:
                raise Artifact('%s declared twice' % k)
            g[k] = v
        m = re.search(r'^package\s+(\S+)', s, re.M)
        pk.add(m.group(1) if m else None)
    if len(pk) != 1:
        raise Artifact('package names differ: %s' % sorted(map(str, pk)))
    T = Tables()
    T.package = pk.pop()
    T.g = g
    try:
        interpret(T, g)
    except KeyError as e:
        raise Artifact('missing Go declaration %s' % e)
    return T


def interpret(T, g):
    ctx = g['DataContext']
    T.context = {}
    for k, v in ctx.items():
        if isinstance(v, tuple):
            if v[1] not in g:
                raise Artifact('DataContext.%s refers to undeclared %s' % (
                    k, v[1]))
            if k != v[1]:
                raise Artifact('DataContext.%s is bound to %s' % (k, v[1]))
            v = g[v[1]]
        T.context[k] = v
    letters, formats, names = (strtab(g, 'Letter'), strtab(g, 'Format'),
                               strtab(g, 'Name'))
    T.letters, T.formats, T.names = letters, formats, names

    def chunks(what, size):
        d, n = g['Zone%sData' % what[1]], g['Zone%sCount' % what[0]]
        cs = g['Zone%sChunkSize' % what[0]]
        if cs != size:
            raise Artifact('%s chunk size %d' % (what[0], cs))
        if len(d) != n * size:
            raise Artifact('%s data is %d bytes, count %d' % (
                what[0], len(d), n))
        return [d[i * size:(i + 1) * size] for i in range(n)]

    rules = []
    T.rule_rec = []
    for b in chunks(('Rule', 'Rules'), 12):
        fy, ty = _le(b[0:2], True), _le(b[2:4], True)
        mon, dw, dm = b[4], b[5], _le(b[6:7], True)
        mod, code = b[7], _le(b[8:10])
        dmin, li = _le(b[10:11], True), b[11]
        T.rule_rec.append({
            'FromYear': fy, 'ToYear': ty, 'InMonth': mon, 'OnDayOfWeek': dw,
            'OnDayOfMonth': dm, 'AtSecondsModifier': mod,
            'AtSecondsCode': code, 'DeltaMinutes': dmin, 'LetterIndex': li})
        if li >= len(letters):
            raise Artifact('rule letter index %d of %d' % (li, len(letters)))
        if not 1 <= mon <= 12 or dw > 7 or (dw == 0 and dm < 1):
            raise Artifact('rule selects no date: %s' % b.hex())
        at, suf = _secs(code, mod, 'rule')
        rules.append(Rule(fy, ty, mon, cal.on_from_codes(dw, dm), at, suf,
                          dmin * 60, letters[li]))
    pols = []
    T.policy_rec = []
    for b in chunks(('Policy', 'Policies'), 4):
        ri, rc = _le(b[0:2]), _le(b[2:4])
        T.policy_rec.append({'RuleIndex': ri, 'RuleCount': rc})
        if ri + rc > len(rules):
            raise Artifact('policy rules [%d,%d) of %d' % (
                ri, ri + rc, len(rules)))
        pols.append(rules[ri:ri + rc])
    if not pols or pols[0]:
        raise Artifact('policy 0 is not the null policy')
    eras = []
    T.era_rec = []
    for b in chunks(('Era', 'Eras'), 14):
        fi, pi, orem = _le(b[0:2]), b[2], b[3]
        oc, uy = _le(b[4:6], True), _le(b[6:8], True)
        dmin, um, ud, mod = _le(b[8:9], True), b[9], b[10], b[11]
        uc = _le(b[12:14])
        T.era_rec.append({
            'FormatIndex': fi, 'PolicyIndex': pi,
            'OffsetSecondsRemainder': orem, 'OffsetSecondsCode': oc,
            'UntilYear': uy, 'DeltaMinutes': dmin, 'UntilMonth': um,
            'UntilDay': ud, 'UntilSecondsModifier': mod,
            'UntilSecondsCode': uc})
        if fi >= len(formats) or pi >= len(pols) or orem > 14:
            raise Artifact('era indexes out of range: %s' % b.hex())
        secs, suf = _secs(uc, mod, 'era')
        until = None
        if uy != 32767:
            until = (uy, cal.days(uy, um, ud), secs, suf)
        eras.append(Era(oc * 15 + orem, pi or None, dmin * 60, formats[fi],
                        until))
    zones, links, ids = {}, {}, {}
    order = []
    info = []
    T.info_rec = []
    for b in chunks(('Info', 'Infos'), 12):
        zid, ni = _le(b[0:4]), _le(b[4:6])
        ei, ec, ti = _le(b[6:8]), _le(b[8:10]), _le(b[10:12])
        T.info_rec.append({'ZoneID': zid, 'NameIndex': ni, 'EraIndex': ei,
                           'EraCount': ec, 'TargetIndex': ti})
        if ni >= len(names):
            raise Artifact('name index %d of %d' % (ni, len(names)))
        info.append((names[ni], zid, ei, ec, ti))
    for n, zid, ei, ec, ti in info:
        if n in ids:
            raise Artifact('name %r appears twice' % n)
        ids[n] = zid
        order.append(n)
        if ec == 0:
            if ti >= len(info) or info[ti][3] == 0:
                raise Artifact('link %s has no target zone' % n)
            links[n] = info[ti][0]
        else:
            if ei + ec > len(eras):
                raise Artifact('eras of %s out of range' % n)
            zones[n] = eras[ei:ei + ec]
    T.order, T.ids = order, ids
    T.db = Db(zones, {i: p for i, p in enumerate(pols) if i}, links)

    # twins and constants
    T.records = {k: g.get(k) for k in (
        'ZoneRuleRecords', 'ZonePolicyRecords', 'ZoneEraRecords',
        'ZoneInfoRecords')}
    T.id_consts = {k[6:]: v for k, v in g.items()
                   if k.startswith('ZoneID') and isinstance(v, int)}
    T.index_consts = {k[13:]: v for k, v in g.items()
                      if k.startswith('ZoneInfoIndex') and isinstance(v, int)}
