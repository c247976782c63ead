"""C22: notes and removal reasons reach the user complete and in place."""
import itertools
import json
from .. import decode_py, explore, mix, notes, runner
from .. import universe as u
from ..zonesrc import real_tzdb

ID = 'C22'
BOUNDS = (
    'A: every subset of up to 3 (thorough 5) of 13 noted zone features and '
    'of 11 noted policy features, per scope, granularity and strictness: the '
    'notes are exactly the union of those of each feature alone; B: every '
    'assignment of 3 zones to era sequences over 3 policies, each policy '
    'with none, one or several notes, each zone with 0..3 of its own: '
    'notes merged for exactly the zones that use it; crowds of up to 257 '
    'noted and removed zones, up to 16 (thorough: 40) noted policies in one '
    'zone, and all notes at once; C: every set of up to 3 '
    'kinds of unsupported zones, with links and include lists: each reason '
    'as alone; in all of these the JSON and every section of every source '
    'file of every language agree; D: hostile text in every field of every '
    'line, every language; E: the real TZDB in every scope and language')
ASSUMPTIONS = [
    'the wording of a reason is free: it is compared between outputs and '
    'between databases, not with a fixed text',
    'option texts (--db_namespace, --tz_version) are the user\'s own']
LANGS = ('python', 'arduino', 'c', 'go')
MORE = ('--ignore_buf_size_too_large', '--skip_bufestimator')


# --- one compile: all outputs agree ------------------------------------------

def consistent(res, lang, out, p, what):
    """JSON against itself and against the sections of the sources."""
    j = json.loads(res.text('zonedb.json'))
    n0 = len(out.viol)
    for k in ('zones', 'policies', 'links'):
        for m in ('removed', 'notable'):
            d = j['%s_%s' % (m, k)]
            for name, reasons in d.items():
                if not reasons or reasons != sorted(set(reasons)):
                    out.bad('json reasons', '%s: %s_%s %s: %s' % (
                        what, m, k, name, reasons), p)
    want = {}
    for z in set(j['notable_zones']) | set(j['zones_map']):
        w = sorted(j['notable_zones'].get(z, []))
        used = {e['policy_name'] for e in j['zones_map'][z]['eras']} \
            if z in j['zones_map'] else set()
        sub = {x: sorted(j['notable_policies'][x]) for x in used
               if x in j['notable_policies']}
        if sub:
            w.append(sub)
        if w:
            want[z] = w
    if want != j['merged_notable_zones']:
        out.bad('merged', '%s: merged notes are %s, expected %s' % (
            what, j['merged_notable_zones'], want), p)
    for k, v in (('removed_zones', 'zones_map'), ('removed_links',
                                                  'links_map'),
                 ('removed_policies', 'policies_map')):
        both = set(j[k]) & set(j[v])
        if both:
            out.bad('removed and emitted', '%s: %s' % (what, sorted(both)),
                    p)
    ref = {('removed', 'zones'): j['removed_zones'],
           ('notable', 'zones'): want,
           ('removed', 'links'): j['removed_links'],
           ('notable', 'links'): j['notable_links'],
           ('removed', 'policies'): j['removed_policies'],
           ('notable', 'policies'): j['notable_policies']}
    for part, f in zip((('zones', 'links'), ('policies',)),
                       notes.MAIN[lang]):
        try:
            secs = notes.sections(res.text(f))
        except decode_py.Artifact as e:
            out.bad('section', '%s: %s: %s' % (what, f, e), p)
            continue
        got = {}
        for m, k, n, ent in secs:
            if (m, k) in got:
                out.bad('section', '%s: %s has two sections %s %s' % (
                    what, f, m, k), p)
            got[m, k] = ent
            if n != len(ent):
                out.bad('section', '%s: %s says %d %s %s, lists %d' % (
                    what, f, n, m, k, len(ent)), p)
        for m in ('removed', 'notable'):
            for k in part:
                if got.get((m, k)) != ref[m, k]:
                    out.bad('section:%s %s' % (m, k), '%s: %s lists %s, '
                            'expected %s' % (what, f, got.get((m, k)),
                                             ref[m, k]), p)
        for key in got:
            if key[1] not in part:
                out.bad('section', '%s: %s has a section %s' % (
                    what, f, key), p)
    return j if len(out.viol) == n0 else None


def src_hash(text):
    return text


# --- A: union of features ---------------------------------------------------

# year i is feature i's own, so its texts are the same in every combination
ZF = ['1:00:20 - A %d', '1:07 - B %d', '1:30 0:30 C %d', '1:30 -1:00 D %d',
      '1:30 0:20:30 E %d', '2:00 - F %d Mar 3 2:00:10',
      '2:00 - G %d Mar 3 2:07', '2:00 - H %d Apr Sun<=1',
      '2:00 - I %d Jan Sun>=30', '0:59:59 1:00 J %d Jul 1 3:00:01u',
      '3:00 1:15 K %d', '3:10 - L %d', '4:00 - M %d']
PF = [('%d only Mar 3 2:00:10 1:00 S', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:07 1:00 S', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:00 0:30 S', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:00 -1:00 S', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:00 1:00 EST', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:00 0:20:30 S', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:07:07u 2:00 XX', '%d only Apr 3 2:00 0 -'),
      ('%d only Mar 3 2:00 1:00 S', '%d only Apr Sun<=1 2:00 0 -'),
      ('%d only Mar 3 2:00 1:00 S', '%d only Jun Sun>=28 2:00 0 LONG'),
      ('%d only Mar 3 2:00 1:30 S', '%d only Apr 3 0:01 0 -'),
      ('%d only Mar 3 2:00 1:00 S', '%d only Apr 3 2:00 0 -')]
CONF = [('basic', ('--strict',)), ('basic', ('--nostrict',)),
        ('extended', ('--strict',)), ('extended', ('--nostrict',)),
        ('complete', ('--strict',)), ('complete', ('--nostrict',)),
        ('extended', ('--nostrict', '--granularity', '3600')),
        ('complete', ('--nostrict', '--granularity', '1800'))]


def zone_text(fs, name='A/Z'):
    t = ''
    for k, f in enumerate(fs):
        o = ('\t\t\t' if k else 'Zone\t%s\t' % name)
        t += o + (ZF[f] % (2001 + f)).replace(' ', '\t', 3) + '\n'
    return t + ('\t\t\t' if fs else 'Zone\t%s\t' % name) + '5:00\t-\tEND\n'


def pol_text(fs, pol='P', user='A/U'):
    t = ''
    rs = ['1990 only Mar 3 2:00 1:00 S', '1990 only Apr 3 2:00 0 -']
    for f in fs:
        rs += [r % (2001 + f) for r in PF[f]]
    for r in rs:
        a, b, *r = r.split()
        t += '\t'.join(['Rule', pol, a, b, '-'] + r) + '\n'
    if user:
        t += 'Zone\t%s\t1:00\t%s\tA%%s\n' % (user, pol)
    return t


GOOD = 'Zone\tA/Good\t1:00\t-\tG\n'


def compile_(text, scope, more, lang):
    return runner.run_main({'asia': GOOD + text}, u.argv_for(
        scope, 2000, 2050, lang, more=MORE + tuple(more)))


_single = {}


def single(kind, f, conf):
    """Notes of one feature alone, or None if it is not emitted."""
    key = kind, f, conf
    if key not in _single:
        scope, more = CONF[conf]
        t = zone_text([f]) if kind == 'z' else pol_text([f])
        res = compile_(t, scope, more, 'python')
        n = None
        if res.ok:
            j = json.loads(res.text('zonedb.json'))
            if kind == 'z' and 'A/Z' in j['zones_map']:
                n = j['notable_zones'].get('A/Z', [])
            elif kind == 'p' and 'P' in j['policies_map']:
                n = j['notable_policies'].get('P', [])
        _single[key] = n
    return _single[key]


def unions(item):
    from ..harness import Out
    out = Out()
    for kind, fs, conf, lang in item:
        singles = [single(kind, f, conf) for f in fs]
        out.states += 1
        if None in singles and len(fs) > 1:
            out.outcome('not emitted alone')
            continue
        out.traces += 1
        scope, more = CONF[conf]
        t = zone_text(fs) if kind == 'z' else pol_text(fs)
        res = compile_(t, scope, more, lang)
        p = {'part': 'A', 'item': [kind, fs, conf, lang]}
        what = '%s %s %s\n%s' % (lang, scope, more, t)
        if not res.ok:
            out.outcome('refused')
            if None not in singles:
                out.bad('refused', '%s: %s' % (what, res.exc), p)
            continue
        j = consistent(res, lang, out, p, what)
        if j is None:
            continue
        if kind == 'z':
            e, n = 'A/Z' in j['zones_map'], j['notable_zones'].get('A/Z', [])
            miss = None if e else j['removed_zones'].get('A/Z')
        else:
            e, n = 'P' in j['policies_map'], j['notable_policies'].get('P',
                                                                       [])
            miss = None if e else j['removed_policies'].get('P')
        if not e:
            out.outcome('removed')
            if not miss:
                out.bad('no reason', what, p)
            elif None not in singles:
                out.bad('removed', '%s: %s' % (what, miss), p)
            continue
        if None in singles:
            continue
        want = sorted(set(x for s in singles for x in s))
        out.outcome('%d notes' % len(want))
        if n != want:
            out.bad('notes', '%s: notes %s, each alone %s' % (
                what, n, want), p)
        # a value that was changed or is coarse is named in a note
        if '--nostrict' in more:
            for x in changed(j, kind):
                if not any(repr(x) in r for r in n):
                    out.bad('unnamed', '%s: %r was truncated, notes are %s'
                            % (what, x, n), p)
    return out


def changed(j, kind):
    """Source texts whose value the database no longer holds."""
    if kind == 'z':
        for e in j['zones_map']['A/Z']['eras']:
            if e['offset_seconds'] != e['offset_seconds_truncated']:
                yield e['offset_string']
            if e['until_seconds'] != e['until_seconds_truncated']:
                yield e['until_time']
            if e['era_delta_seconds'] != e['era_delta_seconds_truncated']:
                yield e['rules']
    else:
        for r in j['policies_map']['P']['rules']:
            if r['at_seconds'] != r['at_seconds_truncated']:
                yield r['at_time']
            if r['delta_seconds'] != r['delta_seconds_truncated']:
                yield r['delta_offset']


# --- B: sharing --------------------------------------------------------------

SEQ = ['', 'P', 'Q', 'R', 'PQ', 'QP', 'PP', 'PQR']
PNOTES = [(), (2,), (1, 4), (1, 2, 4)]


def sharing(item):
    from ..harness import Out
    out = Out()
    for zs, ps, scope, lang in item:
        out.states += 1
        out.traces += 1
        t = ''.join(pol_text(PNOTES[n], 'PQR'[k], 'U/%s' % 'PQR'[k]
                             if n == 2 else None)
                    for k, n in enumerate(ps))
        for k, (seq, own) in enumerate(zs):
            head = 'Zone\tA/z%d\t' % k
            for n in range(own):    # one note each
                t += '%s1:%02d\t-\tLM%d\t%d\n' % (head, 7 + n, n, 2001 + n)
                head = '\t\t\t'
            for y, pol in enumerate(seq):
                t += '%s2:00\t%s\tB%%s\t%d\n' % (head, pol, 2004 + y)
                head = '\t\t\t'
            t += head + '3:00\t-\tEND\n'
        res = compile_(t, scope, (), lang)
        p = {'part': 'B', 'item': [zs, ps, scope, lang]}
        what = '%s %s\n%s' % (lang, scope, t)
        if not res.ok:
            out.bad('refused', '%s: %s' % (what, res.exc), p)
            continue
        j = consistent(res, lang, out, p, what)
        if j is None:
            continue
        # the merge does not lose or invent a policy
        for k, (seq, own) in enumerate(zs):
            z = 'A/z%d' % k
            if z not in j['zones_map']:
                if not j['removed_zones'].get(z):
                    out.bad('no reason', '%s: %s' % (what, z), p)
                continue
            m = j['merged_notable_zones'].get(z, [])
            sub = next((x for x in m if isinstance(x, dict)), {})
            exp = {x for x in seq if j['notable_policies'].get(x)}
            if set(sub) != exp:
                out.bad('sharing', '%s: %s is noted for %s, uses %s' % (
                    what, z, sorted(sub), sorted(exp)), p)
        for k, n in enumerate(ps):
            x = 'PQR'[k]
            used = x in j['policies_map']
            has = bool(j['notable_policies'].get(x))
            alone = [single('p', f, CONF.index((scope, ('--strict',))))
                     for f in PNOTES[n]]
            want = sorted(set(a for b in alone for a in b or ()))
            if used and j['notable_policies'].get(x, []) != want:
                out.bad('policy notes', '%s: %s has %s, expected %s' % (
                    what, x, j['notable_policies'].get(x), want), p)
            out.outcome('policy noted' if has else 'policy clean')
    return out


# --- B2: crowds ------------------------------------------------------------


def crowd_text(nz, npol, per, own):
    """nz zones over npol policies, each with `per` of the noted features;
    zone k runs through all of them starting at policy k, with `own` notes of
    its own; and as many zones that are removed."""
    t = ''
    for k in range(npol):
        t += pol_text([(k + f) % len(PF) for f in range(per)], 'C%d' % k, None)
    for z in range(nz):
        head = 'Zone\tA/c%d\t' % z
        y = 2001
        for f in range(own):
            t += head + (ZF[f] % y).replace(' ', '\t', 3) + '\n'
            head, y = '\t\t\t', y + 1
        for k in range(npol):
            t += '%s2:00\tC%d\tB%%s\t%d\n' % (head, (z + k) % npol, y)
            head, y = '\t\t\t', y + 1
        t += head + '3:00\t-\tEND\n'
    return t


def crowd(item):
    from ..harness import Out
    out = Out()
    for nz, npol, per, own, scope, more, lang in item:
        out.states += 1
        out.traces += 1
        t = crowd_text(nz, npol, per, own)
        if scope == 'basic':
            for k in range(nz):
                t += 'Zone\tR/r%d\t1:00\t-\tR\t2001 Jun\n\t\t\t2:00\t-\tR\n' % k
                t += 'Link\tR/r%d\tR/l%d\n' % (k, k)
        res = compile_(t, scope, more, lang)
        p = {'part': 'F', 'item': [nz, npol, per, own, scope, list(more),
                                   lang]}
        what = '%s %s %s crowd of %d zones, %d policies, %d and %d notes' % (
            lang, scope, ' '.join(more), nz, npol, per, own)
        if not res.ok:
            if '--nostrict' in more:
                out.bad('refused', '%s: %s' % (what, res.exc), p)
            out.outcome('refused')
            continue
        j = consistent(res, lang, out, p, what)
        if j is None:
            continue
        zs = ['A/c%d' % k for k in range(nz)]
        if scope != 'basic' and set(j['zones_map']) != set(zs) | {'A/Good'}:
            out.bad('crowd', '%s: zones %s' % (what, sorted(
                j['zones_map'])[:5]), p)
        if scope == 'basic' and set(j['removed_links']) != {
                'R/l%d' % k for k in range(nz)}:
            out.bad('crowd', '%s: removed links %s' % (what, sorted(
                j['removed_links'])[:5]), p)
        if scope != 'basic' and npol and any(
                len(next((x for x in j['merged_notable_zones'].get(z, [])
                          if isinstance(x, dict)), {})) !=
                len(j['notable_policies']) for z in zs):
            out.bad('crowd', '%s: a zone lacks notes of its policies' % what,
                    p)
        out.outcome('crowd: %s notes' % (
            'many' if len(j['merged_notable_zones']) > 64 else 'some'))
    return out


def crowds(level):
    """Around the sizes where a byte or a page of a listing would end."""
    out = []
    k = 0
    num = (0, 1, 2, 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128,
           129, 255, 256, 257) if level else (1, 10, 11, 64, 65, 100, 101, 128,
                                              129, 256, 257)
    for n in num:
        for npol, per, own in ((0, 0, 2), (1, 2, 1), (2, 1, 0)):
            for scope in ('basic', 'extended', 'complete'):
                for lang in LANGS if level else (LANGS[k % 4],):
                    out.append((n, npol, per, own, scope, ('--nostrict',),
                                lang))
                k += 1
    for npol in range(1, 41 if level else 17):
        for per in (1, 2, 4, len(PF)):
            for own in (0, 1, len(ZF)):
                scope = ('extended', 'complete')[k % 2]
                for lang in LANGS if level else (LANGS[k % 4],):
                    out.append((2, npol, per, own, scope, ('--nostrict',),
                                lang))
                k += 1
    return out


# --- C: removals -----------------------------------------------------------

_alone = {}


def alone(kind, i, scope, inc):
    key = kind, i, scope, inc
    if key not in _alone:
        res = _mix([kind], scope, 'python', inc, [i])
        _alone[key] = None if not res.ok else {
            k: v for k, v in json.loads(res.text('zonedb.json')).items()
            if k.startswith(('removed_', 'notable_'))}
    return _alone[key]


def _mix(kinds, scope, lang, inc, idx=None):
    idx = range(len(kinds)) if idx is None else idx
    t = GOOD
    for i, k in zip(idx, kinds):
        t += mix.render(k, i) + 'Link\t%s\tL/k%d\n' % (mix.zname(i), i)
    more = MORE
    include = None
    if inc is not None:
        include = 'A/Good\n' + ''.join('%s\n' % mix.zname(i) for i in idx
                                       if i in inc)
    return runner.run_main({'asia': t}, u.argv_for(
        scope, 2000, 2010, lang, more=more), include=include)


def removals(item):
    from ..harness import Out
    out = Out()
    for kinds, lang, inc in item:
        out.states += 1
        scope = 'basic'
        p = {'part': 'C', 'item': [kinds, lang, inc]}
        res = _mix(kinds, scope, lang, inc)
        singles = [alone(k, i, scope, inc) for i, k in enumerate(kinds)]
        what = 'basic %s include %s: %s' % (lang, inc, list(kinds))
        if not res.ok:
            out.outcome('refused')
            if None not in singles:
                out.bad('refused', '%s: %s' % (what, res.exc), p)
            continue
        out.traces += 1
        j = consistent(res, lang, out, p, what)
        if j is None:
            continue
        for i, (k, s) in enumerate(zip(kinds, singles)):
            if s is None:
                continue
            names = {'zones': [mix.zname(i)], 'links': ['L/k%d' % i],
                     'policies': mix.policies(k, i)}
            for m in ('removed', 'notable'):
                for w, ns in names.items():
                    for n in ns:
                        a, b = (x['%s_%s' % (m, w)].get(n)
                                for x in (s, j))
                        if a != b:
                            out.bad('reason', '%s: %s %s alone %s, together '
                                    '%s' % (what, m, n, a, b), p)
            z, l = mix.zname(i), 'L/k%d' % i
            for n, mp, rm in ((z, 'zones_map', 'removed_zones'),
                              (l, 'links_map', 'removed_links')):
                if n not in j[mp] and not j[rm].get(n):
                    out.bad('no reason', '%s: %s vanished' % (what, n), p)
            for n in names['policies']:
                if n not in j['policies_map'] and \
                        not j['removed_policies'].get(n):
                    out.bad('no reason', '%s: policy %s vanished' % (
                        what, n), p)
        out.outcome('%d removed' % len(j['removed_zones']))
    return out


# --- D: hostile text -------------------------------------------------------

HOST = ['*/', '/*', '//', '"', "'", '\\', '\\n', '??/', '{', '}', '};', '`',
        '\x00', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85',
        '\u2028', '\u2029', '\ufeff', '\u00e9', '\u200b', '%', '%s', '%n',
        '$x', "'''", '"""', '<', '>', '&', ';', ',', '(', ')', '\r', '~',
        '\u0660', '\uff11', '_', '\x7f', '\x08', '\x1a', '\u202e', '|', '^',
        '=', '@', '!', '*', '?', '[', ']', '\\x41', '\\u0041', '\ue000',
        '\U0001f600', '\\\\', '*\\', '*/ int QQ;/*'.replace(' ', '')]
FIELDS = {
    'Rule': ['P', '1990', 'max', '-', 'Mar', 'Sun>=8', '2:00', '1:00', 'D'],
    'Zone': ['A/Z', '1:00', 'P', 'X%s', '2005', 'Mar', '3', '2:00s'],
    'era': ['2:00', '-', 'Y', '2007', 'Mar', '3', '2:00'],
    'Link': ['A/Z', 'A/L']}


def hostile_text(kind, f, how):
    lines = ['Rule\tP\t1990\tmax\t-\tOct\t3\t2:00\t0\tS']
    for k in ('Rule', 'Zone', 'era', 'Link'):
        v = list(FIELDS[k])
        if k == kind:
            v[f] = how(v[f])
        lines.append('\t'.join([k if k != 'era' else '\t\t'] + v))
    lines.insert(4, '\t\t\t3:00\t-\tEND')
    return '\n'.join(lines) + '\n'


# QQ stands beside the text: it must stay inside comments and strings
HOW = [lambda v, h: v + 'QQ' + h + 'QQ', lambda v, h: 'QQ' + h + v,
       lambda v, h: v[:1] + h + 'QQ' + v[1:], lambda v, h: v + h,
       lambda v, h: h, lambda v, h: 'QQ' + h]


def hostile(item):
    from ..harness import Out
    out = Out()
    for kind, f, h, how, lang, scope in item:
        t = hostile_text(kind, f, lambda v: HOW[how](v, HOST[h]))
        out.states += 1
        out.traces += 1
        res = compile_(t, scope, ('--nostrict',), lang)
        p = {'part': 'D', 'item': [kind, f, h, how, lang, scope]}
        what = '%s %s %s[%d] with %r' % (lang, scope, kind, f, HOST[h])
        if not res.ok:
            out.outcome('hostile refused')
            if res.kind != 'exc' or res.files:
                out.bad('hostile refusal', '%s: %s %s' % (
                    what, res.kind, sorted(res.files)), p)
            continue
        j = consistent(res, lang, out, p, what)
        out.outcome('hostile accepted')
        if j is None:
            continue
        for n in sorted(res.files):
            if not n.endswith(('.py', '.h', '.c', '.cpp', '.go')):
                continue
            try:
                c = notes.code(n, res.text(n))
            except decode_py.Artifact as e:
                out.bad('hostile code', '%s: %s' % (what, e), p)
                break
            plain = HOST[h].isascii() and HOST[h] in ('_', '%', '%s')
            if 'QQ' in c and not plain and not symbol_only(c):
                out.bad('hostile code', '%s: %s has it outside comments and '
                        'strings' % (what, n), p)
                break
            if any(ord(x) > 126 or (ord(x) < 32 and x not in '\n\t')
                   for x in c):
                out.bad('hostile code', '%s: %s has odd characters in code' %
                        (what, n), p)
                break
            if n.endswith('.py'):
                try:
                    compile(res.files[n], n, 'exec')
                except (SyntaxError, ValueError) as e:
                    out.bad('hostile code', '%s: %s: %s' % (what, n, e), p)
                    break
    return out


def symbol_only(c):
    """A name with QQ may be part of an identifier of that zone."""
    import re
    for m in re.finditer(r'\w*QQ\w*', c):
        w = m.group(0)
        if not re.match(r'(k|Zone|ZONE|Kzone)\w+', w):
            return False
    return True


def real(item):
    from ..harness import Out
    out = Out()
    scope, lang, more, inc = item
    out.states += 1
    out.traces += 1
    db = real_tzdb()
    res = runner.run_main(db, u.argv_for(
        scope, 2000, 2050, lang, more=MORE + tuple(more)), timeout=400,
        include=inc)
    p = {'part': 'E', 'item': list(item)}
    if not res.ok:
        out.bad('refused', '%s %s: %s' % (scope, lang, res.exc), p)
        return out
    j = consistent(res, lang, out, p, 'real TZDB %s %s %s' % (scope, lang,
                                                              more))
    if j:
        out.add('real reasons', sum(
            len(v) for k in ('removed_zones', 'removed_links',
                             'removed_policies', 'merged_notable_zones')
            for v in j[k].values()))
    out.outcome('real')
    return out


def check(ctx):
    t = ctx.thorough
    it = []
    n = 0
    for kind, num in (('z', len(ZF)), ('p', len(PF))):
        r = explore.subsets(list(range(num)), 0, 5 if t else 3)
        ctx.transitions += r.transitions
        for fs in r.states:
            for conf in range(len(CONF)):
                if not t and len(fs) == 3 and (n + conf) % 4:
                    n += 1
                    continue
                lang = LANGS[n % 4]
                if len(fs) == 1:
                    it += [(kind, fs, conf, lg) for lg in LANGS]
                else:
                    it.append((kind, fs, conf, lang))
                n += 1
    ctx.pmap(unions, list(explore.batches(it, 80)), 'unions')
    it = []
    zb = [(s, own) for s in SEQ for own in range(4)]
    k = 0
    for nz in (1, 2, 3):
        for zs in itertools.combinations_with_replacement(zb, nz):
            pols = list(itertools.product(range(len(PNOTES)), repeat=3))
            if nz == 2:
                pols = pols[k % 8::8] if t else pols[k % 32::32]
            elif nz == 3:
                pols = pols[k % 64::64]
                if k % (2 if t else 16):
                    pols = []
            for ps in pols:
                it.append((zs, ps, ('extended', 'complete', 'basic')[k % 3],
                           LANGS[k // 3 % 4]))
                k += 1
            k += 1
    ctx.pmap(sharing, list(explore.batches(it, 60)), 'sharing')
    it = crowds(t)
    ctx.transitions += len(it)
    it.sort(key=lambda x: -x[0] * x[1])
    ctx.pmap(crowd, list(explore.batches(it, 8)), 'crowds')
    it = []
    r = explore.subsets(list(mix.KINDS), 1, 3 if t else 2)
    ctx.transitions += r.transitions
    for kinds in r.states:
        for inc in (None, (), (0,), (1,)):
            if len(kinds) == 1 and inc == (1,):
                continue
            if len(kinds) == 3 and (n % 3):
                n += 1
                continue
            it.append((kinds, LANGS[n % 4], inc))
            n += 1
    ctx.pmap(removals, list(explore.batches(it, 40)), 'removals')
    it = []
    for kind, fs in FIELDS.items():
        for f in range(len(fs)):
            for h in range(len(HOST)):
                for how in range(len(HOW)):
                    for lang in LANGS if t else (LANGS[n % 4],):
                        it.append((kind, f, h, how, lang,
                                   ('basic', 'complete', 'extended')[
                                       n // 4 % 3]))
                        if t:
                            it.append((kind, f, h, how, lang, 'basic'))
                        n += 1
    it = list(dict.fromkeys(it))
    ctx.pmap(hostile, list(explore.batches(it, 100)), 'hostile text')
    inc = ''.join('%s\n' % z for z in (
        'Europe/Paris', 'America/New_York', 'Asia/Tokyo'))
    rl = [(s, lg, m, None) for s in ('basic', 'extended', 'complete')
          for lg in LANGS for m in ((), ('--nostrict',))
          if t or (s == 'basic') or (len(s) + len(lg) + len(m)) % 3 == 0]
    rl += [(s, lg, (), inc) for s in ('basic', 'complete') for lg in LANGS]
    ctx.pmap(real, rl, 'real TZDB')


def replay(p):
    def tup(x):
        return tuple(map(tup, x)) if isinstance(x, list) else x
    f = {'A': unions, 'B': sharing, 'C': removals, 'D': hostile,
         'F': crowd}.get(
        p['part'])
    o = f([tup(p['item'])]) if f else real(tup(p['item']))
    return [m for _, m, _ in o.viol]
