"""Normal form of the files of a compile, for comparing compiles."""
import hashlib
import json
import re
from . import runner


def canon(res, flags=False):
    """{file: text}: JSON objects without key order, scratch paths and (with
    flags) the values of --languages/--actions blanked; or the refusal."""
    if not res.ok:
        return {'refused': str(res.kind)}
    out = {}
    d = runner.workspace().dir
    for n, b in res.files.items():
        t = b.decode('utf-8')
        if t.startswith('{'):
            t = json.dumps(json.loads(t), sort_keys=True, indent=0)
        t = t.replace(d, 'WS')
        if flags:
            t = re.sub(r'(--(?:languages|actions)) [a-z,]+', r'\1 X', t)
        out[n] = t
    return out


def digest(c):
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()


def first_diff(a, b):
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            return 'file %s only in %s' % (n, 'first' if n in a else 'second')
        if a[n] != b[n]:
            x, y = a[n].split('\n'), b[n].split('\n')
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return '%s line %d:\n  %s\n  %s' % (n, i + 1, p, q)
            return '%s: length' % n
    return ''
