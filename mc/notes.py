"""Read the comment sections (unsupported and notable zones, policies, links)
of the generated sources, and separate code from comments and strings."""
import io
import re
import tokenize
from .decode_py import Artifact

TITLE = re.compile(r'^(?://|#)\s*(Un\w+|Notable|Removed) ((?:zone )?policies|'
                   r'zones|links): (\d+)$')
MAIN = {'python': ('zone_infos.py', 'zone_policies.py'),
        'arduino': ('zone_infos.h', 'zone_policies.h'),
        'c': ('zone_infos.h', 'zone_policies.h'),
        'go': ('zone_infos.go', 'zone_policies.go')}


def sections(text):
    """[(removed|notable, zones|policies|links, count, {name: reasons})];
    a reason is a text or {policy: [text]}"""
    lines = text.split('\n')
    out = []
    i = 0
    while i < len(lines):
        m = TITLE.match(lines[i])
        i += 1
        if not m:
            continue
        kind = 'notable' if m.group(1) == 'Notable' else 'removed'
        what = m.group(2).split()[-1]
        if not re.match(r'^(//|#)\s*-+$', lines[i]):
            raise Artifact('section title %r not closed' % m.group(0))
        i += 1
        while i < len(lines) and not lines[i].strip():
            i += 1
        body = []
        while i < len(lines) and re.match(r'^(//|#)(?!\s*-{10})', lines[i]):
            if lines[i].startswith('#') and not text.lstrip().startswith('#'):
                break       # a preprocessor line
            body.append(re.sub(r'^(//|#) ?', '', lines[i]))
            i += 1
        out.append((kind, what, int(m.group(3)), entries(body)))
    return out


def entries(body):
    out, order = {}, []
    i = 0
    while i < len(body):
        name, reasons, i = entry(body, i, '')
        if name in out:
            raise Artifact('%s is listed twice' % name)
        out[name] = reasons
        order.append(name)
    if order != sorted(order):
        raise Artifact('entries are not sorted: %s' % order)
    return out


def entry(body, i, ind):
    m = re.match('^' + ind + r'(\S+) \{(.*)$', body[i])
    if not m:
        raise Artifact('not an entry: %r' % body[i])
    name, rest = m.groups()
    if rest:
        if rest[-1] != '}':
            raise Artifact('entry does not end: %r' % body[i])
        return name, [rest[:-1]], i + 1
    reasons, sub = [], {}
    i += 1
    while True:
        if i >= len(body):
            raise Artifact('entry %s does not end' % name)
        if body[i] == ind + '}':
            break
        if body[i].endswith(',') and body[i].startswith(ind + '  '):
            if sub:
                raise Artifact('%s: reason after a policy' % name)
            reasons.append(body[i][len(ind) + 2:-1])
            i += 1
            continue
        n, r, i = entry(body, i, ind + '  ')
        if n in sub:
            raise Artifact('%s: policy %s twice' % (name, n))
        if sub and n < max(sub):
            raise Artifact('%s: policies not sorted' % name)
        sub[n] = r
    return name, reasons + ([sub] if sub else []), i + 1


# --- code without comments and strings --------------------------------------

def code(name, text):
    """The characters of the file that are neither comment nor string."""
    if name.endswith('.py'):
        out = []
        try:
            for t in tokenize.generate_tokens(io.StringIO(text).readline):
                if t.type not in (tokenize.COMMENT, tokenize.STRING):
                    out.append(t.string)
        except (tokenize.TokenError, SyntaxError) as e:
            raise Artifact('%s is not Python: %s' % (name, e))
        return ' '.join(out)
    go = name.endswith('.go')
    if not go:
        for a, b in (('??/', '\\'), ("??'", '^')):
            text = text.replace(a, b)
        text = text.replace('\\\r\n', '').replace('\\\n', '')
    out = []
    i, n = 0, len(text)
    while i < n:
        if text.startswith('//', i):
            j = text.find('\n', i)
            i = n if j < 0 else j
        elif text.startswith('/*', i):
            j = text.find('*/', i + 2)
            if j < 0:
                raise Artifact('%s: comment does not end' % name)
            i = j + 2
        elif go and text[i] == '`':
            j = text.find('`', i + 1)
            if j < 0:
                raise Artifact('%s: raw string does not end' % name)
            i = j + 1
        elif text[i] in '"\'':
            q = text[i]
            j = i + 1
            while j < n and text[j] != q:
                if text[j] == '\n':
                    raise Artifact('%s: string does not end' % name)
                j += 2 if text[j] == '\\' else 1
            if j >= n:
                raise Artifact('%s: string does not end' % name)
            i = j + 1
            out.append(q + q)
        else:
            out.append(text[i])
            i += 1
    return ''.join(out)
