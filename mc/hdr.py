"""Read what the generated C, Arduino and Go files declare by name: id
constants, registry sizes, buffer sizes, extern declarations."""
import re
from .decode_py import Artifact


def djb2(name):
    h = 5381
    for b in name.encode('utf-8'):
        h = (h * 33 + b) % 2 ** 32
    return h


def _uniq(pairs, what):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Artifact('%s %s is defined twice' % (what, k))
        d[k] = v
    return d


def strip_comments(text):
    return re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)


def id_consts(files, lang, ns='zonedb'):
    """symbol suffix -> (value, name in comment)"""
    t = files['zone_infos.h'].decode('utf-8')
    if lang == 'arduino':
        m = re.findall(r'^const uint32_t kZoneId(\w+) = (0x[0-9a-f]{8}); // '
                       r'(.*)$', t, re.M)
    else:
        m = re.findall(r'^#define k' + ns + r'ZoneId(\w+) (0x[0-9a-f]{8}) '
                       r'/\* (.*) \*/$', t, re.M)
    return _uniq([(a, (int(b, 16), c)) for a, b, c in m], 'zone id of')


def buf_sizes(files, lang, ns='zonedb'):
    """symbol suffix -> (size, comment)"""
    t = files['zone_infos.h'].decode('utf-8')
    if lang == 'arduino':
        m = re.findall(r'^const uint8_t kZoneBufSize(\w+) = (\d+);  // (.*)$',
                       t, re.M)
    else:
        m = re.findall(r'^#define k' + ns + r'ZoneBufSize(\w+) (\d+)  '
                       r'/\* (.*) \*/$', t, re.M)
    return _uniq([(a, (int(b), c)) for a, b, c in m], 'buffer size of')


def externs(files, lang, name='zone_infos.h', ns='zonedb', kind='Zone'):
    """symbol suffix -> comment"""
    t = files[name].decode('utf-8')
    pre = 'k' if lang == 'arduino' else 'k' + ns
    m = re.findall(r'^extern const [\w:]+ %s%s(\w+);(?: // (.*))?$' % (
        pre, kind), t, re.M)
    return _uniq(m, 'declaration of')


def registry_sizes(files, lang, ns='zonedb'):
    """{registry: (declared size, array dimension)}"""
    t = strip_comments(files['zone_registry.h'].decode('utf-8'))
    pre = 'k' if lang == 'arduino' else 'k' + ns
    out = {}
    for r in ('ZoneRegistry', 'ZoneAndLinkRegistry'):
        if lang == 'arduino':
            a = re.findall(r'\b%s%sSize\s*=\s*(\d+)' % (pre, r), t)
        else:
            a = re.findall(r'#define\s+%s%sSize\s+(\d+)' % (pre, r), t)
        b = re.findall(r'\b%s%s\[(\d+)\]' % (pre, r), t)
        if len(a) != 1 or len(b) != 1:
            raise Artifact('%s is not declared once' % r)
        out[r] = (int(a[0]), int(b[0]))
    return out


def registry_comments(files, lang):
    """{array symbol: [(id, text)]} from the comments beside the entries"""
    t = files['zone_registry.' + ('cpp' if lang == 'arduino' else 'c')
              ].decode('utf-8')
    out = {}
    cur = None
    for line in t.split('\n'):
        m = re.search(r'\b(k\w+Registry)\[', line)
        if m:
            cur = out.setdefault(m.group(1), [])
        m = re.match(r'^\s*&(\w+),\s*// (0x[0-9a-f]{8}), (.*)$', line)
        if m:
            cur.append((m.group(1), int(m.group(2), 16), m.group(3)))
    return out
