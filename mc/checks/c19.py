"""C19: byte writers round-trip every value and refuse every other."""
import itertools
import re
from .. import explore

ID = 'C19'
BOUNDS = (
    'every integer in [-70000, 70000] for the 8- and 16-bit writers (and the '
    'whole neighbourhood of every power of two up to 2^70); for the 32-bit '
    'writers every value whose four bytes come from 12 (quick) or 24 '
    '(thorough) representative bytes, every 16-bit pattern in each half, and '
    'every refusal boundary; every sequence of <=3 (thorough: 4) writer calls '
    'over 26 boundary values on a buffer that already has content; hex '
    'rendering of every 1- and 2-byte string and every length x chunk size up '
    'to 40 x 45')
ASSUMPTIONS = ['the 32-bit writers treat equal bytes equally at the same '
               'position (values are covered bytewise, not all 2^32)']
FIELDS = [('write_u8', 1, False), ('write_i8', 1, True),
          ('write_u16', 2, False), ('write_i16', 2, True),
          ('write_u32', 4, False), ('write_i32', 4, True)]
EDGE_BYTES = [0, 1, 2, 0x0a, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff]
MORE_BYTES = [3, 4, 8, 0x0d, 0x10, 0x20, 0x30, 0x40, 0x55, 0xaa, 0xc0, 0xfd]


def fits(x, size, signed):
    b = 8 * size
    return -(1 << b - 1) <= x < 1 << b - 1 if signed else 0 <= x < 1 << b


def expect(x, size, signed):
    return (x + (1 << 8 * size) if x < 0 else x).to_bytes(size, 'little') \
        if fits(x, size, signed) else None


def call(f, buf, x):
    """-> None if refused"""
    try:
        f(buf, x)
    except Exception:
        return False
    return True


def mod():
    from acetimetools.generator import byteutils
    return byteutils


def try_value(out, name, size, signed, x, head=b'\xa5\x00'):
    f = getattr(mod(), name)
    buf = bytearray(head)
    ok = call(f, buf, x)
    want = expect(x, size, signed)
    out.states += 1
    got = bytes(buf)
    if want is None:
        if ok:
            out.bad(name + ':accepts', '%s accepts %d and writes %r' % (
                name, x, got[len(head):]), {'name': name, 'x': x})
        elif got != head:
            out.bad(name + ':partial', '%s refuses %d but has written %r' % (
                name, x, got[len(head):]), {'name': name, 'x': x})
        else:
            out.outcome('refused')
    elif not ok:
        out.bad(name + ':refuses', '%s refuses %d' % (name, x),
                {'name': name, 'x': x})
    elif got != head + want:
        out.bad(name + ':bytes', '%s(%d) gives %r, expected %r' % (
            name, x, got, head + want), {'name': name, 'x': x})
    else:
        out.outcome('%s round trip' % name)


def values(item):
    from ..harness import Out
    out = Out()
    name, xs = item
    size, signed = [(s, g) for n, s, g in FIELDS if n == name][0]
    for x in xs:
        try_value(out, name, size, signed, x)
    return out


def byte_product(item):
    from ..harness import Out
    out = Out()
    name, b3, alphabet = item
    size, signed = [(s, g) for n, s, g in FIELDS if n == name][0]
    for b in itertools.product(alphabet, repeat=3):
        v = b[0] | b[1] << 8 | b[2] << 16 | b3 << 24
        if signed and v >= 1 << 31:
            v -= 1 << 32
        try_value(out, name, size, signed, v)
    return out


EDGES = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768,
         -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1,
         2**32, 0x0a220d5c, -2, 92, 34, 10]


def sequences(item):
    """Every sequence of calls with this first call: the buffer is always the
    concatenation of what was accepted."""
    from ..harness import Out
    out = Out()
    first, depth = item
    ops = [(n, s, g, x) for n, s, g in FIELDS for x in EDGES]
    m = mod()
    small = [o for i, o in enumerate(ops) if i % 5 == 0]
    for n in range(1, depth + 1):
        for tail in itertools.product(small if n > 2 else ops, repeat=n - 1):
            seq = (first,) + tail
            buf, want = bytearray(b'#'), b'#'
            for name, size, signed, x in seq:
                out.transitions += 1
                ok = call(getattr(m, name), buf, x)
                w = expect(x, size, signed)
                want += w or b''
                if ok != (w is not None) or bytes(buf) != want:
                    out.bad('sequence', 'after %s the buffer is %r, expected '
                            '%r' % ([(q[0], q[3]) for q in seq], bytes(buf),
                                    want), {'seq': seq})
                    break
            out.states += 1
            out.traces += 1
    return out


def parse_go(text):
    """The bytes of a Go string expression "..." + "..." """
    b = bytearray()
    for p in re.split(r'[ \t]*\+\s*', text):    # '+' must end the line
        p = p.strip(' \t')
        if not re.fullmatch(r'"(\\x[0-9a-fA-F]{2})*"', p):
            return None
        b += bytes(int(h, 16) for h in re.findall(r'\\x(..)', p))
    return bytes(b)


def hexes(item):
    from ..harness import Out
    out = Out()
    m = mod()
    for d in item:
        s = m.hex_encode(bytearray(d))
        out.states += 1
        if not re.fullmatch(r'(\\x[0-9a-fA-F]{2})*', s) or bytes(
                int(h, 16) for h in re.findall(r'\\x(..)', s)) != d:
            out.bad('hex', 'hex_encode(%r) = %r' % (d, s), {'hex': d.hex()})
        else:
            out.outcome('hex round trip')
    return out


def chunks(item):
    from ..harness import Out
    out = Out()
    m = mod()
    for n, size, prefix in item:
        d = bytes((i * 37 + 11) % 256 for i in range(n))
        s = m.convert_to_go_string(bytearray(d), size, prefix)
        out.states += 1
        if parse_go(s) != d:
            out.bad('go-string', '%d bytes in chunks of %d: %r' % (n, size, s),
                    {'chunk': [n, size, prefix]})
        else:
            out.outcome('go string round trip')
    return out


def check(ctx):
    near = sorted({s * (1 << k) + d for k in range(0, 71) for s in (1, -1)
                   for d in range(-300, 301)})
    for name, size, signed in FIELDS:
        xs = list(range(-70000, 70001)) if size < 4 else \
            sorted({h << 16 | lo for h in (0, 1, 0x7fff, 0x8000, 0xffff)
                    for lo in range(0, 65536, 1 if ctx.thorough else 3)} |
                   {h << 16 | lo for lo in (0, 1, 0x7fff, 0x8000, 0xffff)
                    for h in range(0, 65536, 1 if ctx.thorough else 3)} |
                   {-x for x in range(0, 140000)})
        ctx.pmap(values, [(name, b) for b in explore.batches(xs, 40000)], name)
        ctx.pmap(values, [(name, b) for b in explore.batches(near, 20000)],
                 name)
    alpha = EDGE_BYTES + (MORE_BYTES if ctx.thorough else [])
    ctx.pmap(byte_product, [(n, b, alpha) for n in ('write_u32', 'write_i32')
                            for b in alpha], '32 bit')
    ops = [(n, s, g, x) for n, s, g in FIELDS for x in EDGES]
    ctx.pmap(sequences, [(o, 4 if ctx.thorough else 3) for o in (
        ops if not ctx.thorough else ops)], 'sequences')
    two = [bytes(b) for n in (0, 1, 2) for b in
           itertools.product(range(256), repeat=n)]
    ctx.pmap(hexes, list(explore.batches(two, 9000)), 'hex')
    ch = [(n, k, p) for n in range(41) for k in range(1, 46)
          for p in ('', '\t\t', '  ')]
    ctx.pmap(chunks, list(explore.batches(ch, 700)), 'chunks')


def replay(p):
    from ..harness import Out
    out = Out()
    if 'name' in p:
        s, g = [(s, g) for n, s, g in FIELDS if n == p['name']][0]
        try_value(out, p['name'], s, g, p['x'])
    elif 'hex' in p:
        out = hexes([bytes.fromhex(p['hex'])])
    elif 'chunk' in p:
        out = chunks([tuple(p['chunk'])])
    else:
        seq = [tuple(q) for q in p['seq']]
        buf, want = bytearray(b'#'), b'#'
        for name, size, signed, x in seq:
            call(getattr(mod(), name), buf, x)
            want += expect(x, size, signed) or b''
        if bytes(buf) != want:
            return ['buffer %r expected %r' % (bytes(buf), want)]
    return [m for _, m, _ in out.viol]
