"""Decode the generated Arduino (C++) and C artifacts by evaluating their
static initialisers.  `scan` is a small parser for C initialisers; check C26
compares it with what a compiled program reads from the same tables."""
import re
from . import cal
from .decode_py import Artifact
from .tzmodel import Db, Rule, Era

_TOK = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<num>[-+]?(?:0[xX][0-9a-fA-F]+|\d+)[uUlL]*)
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*(?:::[A-Za-z_][A-Za-z_0-9]*)*)
  | (?P<pp>\#[^\n]*)
  | (?P<op>[{}()\[\];=,&*<>:.?+\-|])
''', re.X | re.S)

_ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7,
        'b': 8, 'f': 12, 'v': 11, '?': 63}


def c_string(lit):
    """Bytes of one C string literal (with quotes).  A hex escape extends over
    all following hex digits, as in C."""
    s = lit[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out += c.encode('utf-8')
            i += 1
            continue
        c = s[i + 1]
        if c == 'x':
            j = i + 2
            while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                j += 1
            v = int(s[i + 2:j], 16)
            if v > 255:
                raise Artifact('hex escape out of range in %s' % lit)
            out.append(v)
            i = j
        elif c in '01234567':
            j = i + 1
            while j < len(s) and j < i + 4 and s[j] in '01234567':
                j += 1
            out.append(int(s[i + 1:j], 8) & 255)
            i = j
        elif c in _ESC:
            out.append(_ESC[c])
            i += 2
        else:
            raise Artifact('unknown escape in %s' % lit)
    return bytes(out)


class Ref(str):
    """A reference to another symbol."""


class Sym:
    __slots__ = ('name', 'type', 'dim', 'init', 'static')

    def __init__(self, name, type_, dim, init, static):
        self.name, self.type, self.dim = name, type_, dim
        self.init, self.static = init, static


def tokens(text):
    i, out = 0, []
    n = len(text)
    while i < n:
        m = _TOK.match(text, i)
        if not m:
            raise Artifact('cannot tokenise at %r' % text[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'pp'):
            continue
        out.append((k, m.group(k)))
    return out


def _value(t, i):
    """Parse one initialiser -> (value, next index)."""
    k, v = t[i]
    if v == '{':
        out = []
        i += 1
        while t[i][1] != '}':
            x, i = _value(t, i)
            out.append(x)
            if t[i][1] == ',':
                i += 1
            elif t[i][1] != '}':
                raise Artifact('bad initialiser near %r' % (t[i:i + 4],))
        return out, i + 1
    if k == 'str':
        b = b''
        while t[i][0] == 'str':
            b += c_string(t[i][1])
            i += 1
        return b, i
    if k == 'num':
        return int(v.rstrip('uUlL'), 0), i + 1
    if v == '(':            # a cast
        d = 0
        while True:
            d += {'(': 1, ')': -1}.get(t[i][1], 0)
            i += 1
            if d == 0:
                break
        return _value(t, i)
    if v == '&':
        return Ref(t[i + 1][1]), i + 2
    if k == 'id':
        if v in ('NULL', 'nullptr'):
            return None, i + 1
        return Ref(v), i + 1
    raise Artifact('bad initialiser near %r' % (t[i:i + 4],))


def scan(text):
    """{symbol: Sym} of all definitions with an initialiser, and the list of
    extern declarations."""
    t = tokens(text)
    syms, externs = {}, []
    i = 0
    n = len(t)
    while i < n:
        if t[i][1] == 'namespace':
            while t[i][1] != '{':
                i += 1
            i += 1
            continue
        if t[i][1] in ('}', ';'):
            i += 1
            continue
        if t[i][1] == 'extern' and t[i + 1][0] == 'str':   # extern "C" {
            i += 3
            continue
        j = i
        while j < n and t[j][1] not in ('=', ';'):
            j += 1
        head = t[i:j]
        words = [v for k, v in head]
        if j < n and t[j][1] == '=':
            val, k = _value(t, j + 1)
            if k >= n or t[k][1] != ';':
                raise Artifact('missing ; after %s' % ' '.join(words))
            name, dim = _declared(words)
            if name in syms:
                raise Artifact('symbol %s defined twice' % name)
            typ = [w for w in words[:words.index(name)]
                   if w not in ('const', 'static', '*', 'extern')]
            syms[name] = Sym(name, typ[0] if typ else '', dim, val,
                             'static' in words)
            i = k + 1
        else:
            if words and words[0] == 'extern':
                externs.append(_declared(words))
            i = j + 1
    return syms, externs


def _declared(words):
    w = list(words)
    dim = None
    if '[' in w:
        a = w.index('[')
        b = w.index(']')
        dim = int(w[a + 1]) if b > a + 1 else -1
        w = w[:a]
    while w[-1] in ('ACE_TIME_PROGMEM', 'PROGMEM'):
        w.pop()
    return w[-1], dim


# --- interpretation of the tables -----------------------------------------

SUFFIX = {0x00: 'w', 0x10: 's', 0x20: 'u'}


class Tables:
    """The consumer-level view of one Arduino or C database."""
    pass


def _deref(syms, v, what):
    if v is None:
        return None
    if isinstance(v, bytes):
        return v
    if not isinstance(v, Ref) or v not in syms:
        raise Artifact('%s: dangling reference %r' % (what, v))
    return syms[v].init


def _nstr(b, what):
    if b is None:
        return None
    if b'\0' in b:
        raise Artifact('%s: embedded NUL in %r' % (what, b))
    return b.decode('utf-8')


def _chk(v, lo, hi, what):
    if not isinstance(v, int) or v < lo or v > hi:
        raise Artifact('%s=%r does not fit its field [%d,%d]' % (
            what, v, lo, hi))
    return v


def decode(files, lang, scope, base=2100):
    """-> Tables with .db (Db; tiny years already expanded), .context, .ids,
    .registry, .link_registry, .numeric details.  Raises Artifact.
    base: the --tiny_base_year of the run, for the C database."""
    ext = 'cpp' if lang == 'arduino' else 'c'
    text = ''
    for f in ('zone_policies', 'zone_infos', 'zone_registry'):
        n = '%s.%s' % (f, ext)
        if n not in files:
            raise Artifact('missing artifact %s' % n)
        text += files[n].decode('utf-8') + '\n'
    syms, _ = scan(text)
    low = scope in ('basic', 'extended')
    return interpret(syms, lang, low, base)


def _by_type(syms, suffix):
    return [s for s in syms.values() if s.type.split('::')[-1] == suffix]


def interpret(syms, lang, low, base=2100):
    P = 'Atc' if lang == 'c' else ''
    T = Tables()
    T.syms = syms
    ctx = _by_type(syms, P + 'ZoneContext')
    if len(ctx) != 1:
        raise Artifact('%d zone contexts' % len(ctx))
    c = ctx[0].init
    if lang == 'arduino':
        names = ['start_year', 'until_year', 'start_year_accurate',
                 'until_year_accurate', 'base_year', 'max_transitions',
                 'tz_version', 'num_fragments', 'num_letters', 'fragments',
                 'letters']
    else:
        names = ['start_year', 'until_year', 'start_year_accurate',
                 'until_year_accurate', 'max_transitions',
                 'tz_version', 'num_fragments', 'num_letters', 'fragments',
                 'letters']
    if len(c) != len(names):
        raise Artifact('zone context has %d fields, expected %d' % (
            len(c), len(names)))
    T.context = dict(zip(names, c))
    X = T.context
    for f in ('start_year', 'until_year', 'start_year_accurate',
              'until_year_accurate'):
        _chk(X[f], -32768, 32767, f)
    if 'base_year' in X:
        _chk(X['base_year'], -32768, 32767, 'base_year')
    for f in ('max_transitions', 'num_fragments', 'num_letters'):
        _chk(X[f], 0, 255, f)
    X['tz_version'] = _nstr(_deref(syms, X['tz_version'], 'tz_version'),
                            'tz_version')

    def strtab(v, n, what):
        tab = _deref(syms, v, what)
        tab = [] if tab is None else [
            None if x is None else _nstr(_deref(syms, x, what), what)
            for x in tab]
        if len(tab) != n:
            raise Artifact('%s has %d entries, header says %d' % (
                what, len(tab), n))
        return tab
    if X['fragments'] is None and X['num_fragments'] in (0, 1):
        T.fragments = []
    else:
        T.fragments = strtab(X['fragments'], X['num_fragments'], 'fragments')
    T.letters = strtab(X['letters'], X['num_letters'], 'letters')
    # acetimec's context has no base year: it is known to the consumer
    base = X.get('base_year', base)

    def from_to(v):
        if not low:
            return _chk(v, -32768, 32767, 'year')
        _chk(v, -128, 127, 'tiny year')
        if v == -127:
            return -32767
        if v == 126:
            return 32766
        if v in (-128, 127):
            raise Artifact('from/to year uses reserved value %d' % v)
        return base + v

    def until_year(v):
        if not low:
            return _chk(v, -32768, 32767, 'year')
        _chk(v, -128, 127, 'tiny year')
        if v == 127:
            return None
        if v == -127:
            return -32767
        if v == -128:
            raise Artifact('until year uses reserved value -128')
        return base + v

    def timemod(code, mod, what):
        unit, cm = (900, 255) if low else (15, 65535)
        _chk(code, 0, cm, what + ' code')
        _chk(mod, 0, 255, what + ' modifier')
        if (mod & 0xf0) not in SUFFIX:
            raise Artifact('%s modifier %#x has an unknown suffix' % (
                what, mod))
        rem = mod & 0x0f
        if rem > 14:
            raise Artifact('%s modifier remainder %d' % (what, rem))
        return (code * unit + rem * (60 if low else 1),
                SUFFIX[mod & 0xf0])

    # policies
    policies, pol_sym = {}, {}
    pre = re.compile(r'^k\w*?ZonePolicy(.*)$')
    for s in _by_type(syms, P + 'ZonePolicy'):
        rules_ref, num = s.init
        raw = _deref(syms, rules_ref, s.name)
        _chk(num, 0, 255, s.name + ' numRules')
        if num != len(raw):
            raise Artifact('%s: numRules=%d but %d rules' % (
                s.name, num, len(raw)))
        out = []
        for r in raw:
            if len(r) != 9:
                raise Artifact('rule with %d fields' % len(r))
            if low:
                fy, ty, mon, dw, dm, ac, am, dc, li = r
            else:
                fy, ty, mon, dw, dm, am, ac, dc, li = r
            at, suf = timemod(ac, am, s.name + ' at')
            if low:
                _chk(dc, 0, 15, 'rule deltaCode')
                save = (dc - 4) * 900
            else:
                save = _chk(dc, -128, 127, 'rule deltaMinutes') * 60
            _chk(mon, 1, 12, 'inMonth')
            _chk(dw, 0, 7, 'onDayOfWeek')
            _chk(dm, -31, 31, 'onDayOfMonth')
            if dw == 0 and dm < 1:
                raise Artifact('rule of %s selects no day' % s.name)
            _chk(li, 0, 255, 'letterIndex')
            if li >= len(T.letters):
                raise Artifact('letterIndex %d of %d' % (li, len(T.letters)))
            out.append(Rule(from_to(fy), from_to(ty), mon,
                            cal.on_from_codes(dw, dm), at, suf, save,
                            T.letters[li]))
        pol_sym[s.name] = out
        policies[s.name] = out
    T.policy_symbols = pol_sym

    # infos
    T.info, zones, links = {}, {}, {}
    T.ids, T.raw_names = {}, {}
    era_cache = {}

    def eras_of(ref, n, what):
        raw = _deref(syms, ref, what)
        _chk(n, 1, 255, what + ' numEras')
        if n != len(raw):
            raise Artifact('%s: numEras=%d but %d eras' % (what, n, len(raw)))
        if ref in era_cache:
            return era_cache[ref]
        out = []
        for e in raw:
            if low:
                if len(e) != 9:
                    raise Artifact('era with %d fields' % len(e))
                pol, fmt, oc, dc, uy, um, ud, uc, umod = e
                _chk(oc, -128, 127, 'offsetCode')
                _chk(dc, 0, 255, 'era deltaCode')
                if dc >> 4 > 14:
                    raise Artifact('era offset minute %d' % (dc >> 4))
                off = oc * 900 + (dc >> 4) * 60
                save = ((dc & 15) - 4) * 900
            else:
                if len(e) != 10:
                    raise Artifact('era with %d fields' % len(e))
                pol, fmt, oc, orem, dm, uy, um, ud, uc, umod = e
                _chk(oc, -32768, 32767, 'offsetCode')
                _chk(orem, 0, 14, 'offsetRemainder')
                off = oc * 15 + orem
                save = _chk(dm, -128, 127, 'era deltaMinutes') * 60
            if pol is not None and pol not in pol_sym:
                raise Artifact('%s: unknown policy %r' % (what, pol))
            secs, suf = timemod(uc, umod, what + ' until')
            y = until_year(uy)
            if not low and y == 32767:
                y = None
            _chk(um, 1, 12, 'untilMonth')
            _chk(ud, 1, 31, 'untilDay')
            until = None if y is None else (y, cal.days(y, um, ud), secs, suf)
            out.append(Era(off, None if pol is None else str(pol), save,
                           _nstr(fmt, 'format'), until))
        era_cache[ref] = out
        return out

    def expand(raw):
        r = ''
        for ch in raw.decode('utf-8'):
            if ord(ch) < 32:
                if ord(ch) >= len(T.fragments) or ord(ch) == 0:
                    raise Artifact('name %r uses undefined fragment' % raw)
                r += T.fragments[ord(ch)]
            else:
                r += ch
        return r

    info_syms = _by_type(syms, P + 'ZoneInfo')
    info_syms = [s for s in info_syms if s.dim is None]
    named = {}
    for s in info_syms:
        if len(s.init) != 6:
            raise Artifact('info with %d fields' % len(s.init))
        nm, zid, cref, ne, eref, target = s.init
        raw = _deref(syms, nm, s.name)
        name = expand(raw)
        if name in named:
            raise Artifact('two infos are named %r' % name)
        if cref != ctx[0].name:
            raise Artifact('%s does not point at the zone context' % s.name)
        named[name] = s.name
        _chk(zid, 0, 0xffffffff, 'zoneId')
        T.ids[name] = zid
        T.raw_names[name] = raw
        T.info[s.name] = name
        zones[name] = (eras_of(eref, ne, s.name), eref, target)
    out_z = {}
    for name, (eras, eref, target) in zones.items():
        if target is None:
            out_z[name] = eras
        else:
            if target not in T.info:
                raise Artifact('%s: dangling target %r' % (name, target))
            tn = T.info[target]
            if zones[tn][1] != eref:
                raise Artifact('link %s does not share the eras of its '
                               'target %s' % (name, tn))
            links[name] = tn
    T.symbol_of = named
    T.db = Db(out_z, policies, links)

    # registries: arrays of pointers to infos
    T.registries = {}
    for s in _by_type(syms, P + 'ZoneInfo'):
        if s.dim is None:
            continue
        ent = []
        for r in s.init:
            if r not in T.info:
                raise Artifact('%s: dangling entry %r' % (s.name, r))
            ent.append(T.info[r])
        if s.dim not in (-1, len(ent)):
            raise Artifact('%s declared with %d entries, has %d' % (
                s.name, s.dim, len(ent)))
        T.registries[s.name] = ent
    return T
