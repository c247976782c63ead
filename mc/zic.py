"""Cross-check of the reference model against zic(8), the TZDB compiler, when
it is installed.  zic is only used to validate the oracle, never to decide a
property."""
import os
import shutil
import struct
import subprocess
import tempfile
from . import runner, tzmodel

ZIC = shutil.which('zic') or '/usr/sbin/zic'


def available():
    return os.access(ZIC, os.X_OK)


def _tzif(p):
    b = open(p, 'rb').read()

    def hdr(o):
        return struct.unpack('>6l', b[o + 20:o + 44])
    i1, i2, lp, tc, ty, ch = hdr(0)
    o = 44 + tc * 5 + ty * 6 + ch + lp * 8 + i2 + i1
    _, _, _, tc, ty, ch = hdr(o)
    o += 44
    times = struct.unpack('>%dq' % tc, b[o:o + 8 * tc])
    o += 8 * tc
    idx = b[o:o + tc]
    o += tc
    types = [struct.unpack('>lbB', b[o + 6 * i:o + 6 * i + 6])
             for i in range(ty)]
    o += 6 * ty
    chars = b[o:o + ch]

    def t(i):
        off, dst, ab = types[i]
        return off, dst, chars[ab:chars.index(b'\0', ab)].decode()
    return [(None,) + t(0)] + [(times[k],) + t(idx[k]) for k in range(tc)]


def compile_text(text):
    """-> (dict zone -> raw TZif segments, stderr) or (None, stderr)."""
    d = tempfile.mkdtemp(prefix='acezic.', dir=runner.tmp_base())
    try:
        src = os.path.join(d, 'src')
        with open(src, 'w') as f:
            f.write(text)
        out = os.path.join(d, 'out')
        r = subprocess.run([ZIC, '-b', 'fat', '-d', out, src],
                           capture_output=True, text=True, timeout=300)
        if r.returncode:
            return None, r.stderr
        res = {}
        for root, _, names in os.walk(out):
            for n in names:
                p = os.path.join(root, n)
                res[os.path.relpath(p, out)] = _tzif(p)
        return res, r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_as_zic(eras, policies, lo, hi):
    """The model's timeline in zic's output form: isdst as a flag, and zic's
    own removal of transitions that would make local time non-monotonic."""
    o = []
    for t, tot, save, ab in tzmodel.timeline(eras, policies, lo, hi):
        s = (t, tot, int(save != 0), ab)
        if len(o) >= 2 and t + o[-1][1] <= o[-1][0] + o[-2][1]:
            o[-1] = (o[-1][0],) + s[1:]
        else:
            o.append(s)
    b = []
    for s in o:
        if not b or b[-1][1:] != s[1:]:
            b.append(s)
    return b


def clip(segs, lo, hi):
    out = []
    for t, o, d, ab in segs:
        if t is None or t <= lo:
            out = [(lo, o, d, ab)]
        elif t < hi and out[-1][1:] != (o, d, ab):
            out.append((t, o, d, ab))
    return out


def compare(src, zic_out, lo, hi):
    """-> list of (zone, first difference)."""
    bad = []
    for z in src.zones:
        if z not in zic_out:
            bad.append((z, 'not produced by zic'))
            continue
        d = tzmodel.diff(model_as_zic(src.zones[z], src.policies, lo, hi),
                         clip(zic_out[z], lo, hi))
        if d:
            bad.append((z, d))
    return bad
