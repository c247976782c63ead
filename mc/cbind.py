"""Compile generated C, Arduino (C++) and Python databases the way a consumer
does: the C and C++ files against stand-ins of the acetimec and AceTime types
they use, linked with a generated program that walks the tables through the
public headers; the Python files imported as packages.  The program's output
is compared with what decode_c and hdr made of the text of the same files."""
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile
from . import decode_c, hdr

CONTEXT = '''
  int16_t start_year, until_year, start_year_accurate, until_year_accurate;
  %s
  int16_t max_transitions;
  const char *tz_version;
  uint8_t num_fragments, num_letters;
  const char * const *fragments;
  const char * const *letters;
'''
RULE = {
    True: 'int8_t from_year, to_year; uint8_t in_month, on_dow; int8_t on_dom;'
          'uint8_t at_code, at_modifier, delta, letter;',
    False: 'int16_t from_year, to_year; uint8_t in_month, on_dow; int8_t on_dom;'
           'uint8_t at_modifier; uint16_t at_code; int8_t delta; uint8_t letter;'}
ERA = {
    True: 'const %s *policy; const char *format; int8_t offset; uint8_t delta;'
          'int8_t until_year; uint8_t until_month, until_day, until_code,'
          'until_modifier;',
    False: 'const %s *policy; const char *format; int16_t offset;'
           'uint8_t remainder; int8_t delta; int16_t until_year;'
           'uint8_t until_month, until_day; uint16_t until_code;'
           'uint8_t until_modifier;'}
NRULE = {True: ['from_year', 'to_year', 'in_month', 'on_dow', 'on_dom',
                'at_code', 'at_modifier', 'delta', 'letter'],
         False: ['from_year', 'to_year', 'in_month', 'on_dow', 'on_dom',
                 'at_modifier', 'at_code', 'delta', 'letter']}
NERA = {True: ['offset', 'delta', 'until_year', 'until_month', 'until_day',
               'until_code', 'until_modifier'],
        False: ['offset', 'remainder', 'delta', 'until_year', 'until_month',
                'until_day', 'until_code', 'until_modifier']}


def _types(low, p, base):
    return '''
typedef struct %(p)sZoneContext {%(ctx)s} %(p)sZoneContext;
typedef struct %(p)sZoneRule {%(rule)s} %(p)sZoneRule;
typedef struct %(p)sZonePolicy {
  const %(p)sZoneRule *rules; uint8_t num_rules;
} %(p)sZonePolicy;
typedef struct %(p)sZoneEra {%(era)s} %(p)sZoneEra;
typedef struct %(p)sZoneInfo {
  const char *name; uint32_t zone_id; const %(p)sZoneContext *context;
  uint8_t num_eras; const %(p)sZoneEra *eras;
  const struct %(p)sZoneInfo *target;
} %(p)sZoneInfo;
''' % {'p': p, 'ctx': CONTEXT % ('int16_t base_year;' if base else ''),
       'rule': RULE[low], 'era': ERA[low] % (p + 'ZonePolicy')}


def stub_c(low):
    return ('#ifndef ZONE_INFO_STUB_H\n#define ZONE_INFO_STUB_H\n'
            '#include <stdint.h>\n#include <stddef.h>\n'
            '#ifdef __cplusplus\nextern "C" {\n#endif\n' +
            _types(low, 'Atc', False) +
            '#ifdef __cplusplus\n}\n#endif\n#endif\n')


def stub_cpp():
    return ('#ifndef INFOS_STUB_H\n#define INFOS_STUB_H\n'
            '#include <stdint.h>\n#include <stddef.h>\nnamespace ace_time {\n' +
            ''.join('namespace %s {%s}\n' % (s, _types(s != 'complete', '',
                                                       True))
                    for s in ('basic', 'extended', 'complete')) +
            '}\n#endif\n')


COMPAT = ('#ifndef COMPAT_STUB_H\n#define COMPAT_STUB_H\n#include <stdint.h>\n'
          'class __FlashStringHelper;\n#define ACE_TIME_PROGMEM\n#endif\n')


class Refused(Exception):
    """A compiler, linker or interpreter does not accept the files."""


class One:
    """One database of a program."""

    def __init__(self, files, lang, scope, ns='zonedb'):
        self.files, self.lang, self.scope, self.ns = files, lang, scope, ns
        self.low = scope != 'complete'
        self.ext = 'cpp' if lang == 'arduino' else 'c'

    # --- what the text says -------------------------------------------

    def view(self):
        """The lines the walking program has to print."""
        syms = {}
        for f in ('zone_policies', 'zone_infos', 'zone_registry'):
            s, _ = decode_c.scan(self.files['%s.%s' % (f, self.ext)].decode())
            syms.update(s)      # the names are unique: decode_c.decode
        P = 'Atc' if self.lang == 'c' else ''
        out = []

        def val(v):
            while isinstance(v, decode_c.Ref):
                v = syms[v].init
            return v

        def string(v):
            v = val(v)
            return '~' if v is None else '"' + v.hex()

        def policy(v):
            if v is None:
                return 'none'
            rules, n = syms[v].init
            return '%d[%s]' % (n, ','.join(
                '(%s)' % ','.join(map(str, r)) for r in val(rules)))

        def info(v):
            name, zid, ctx, n, eras, target = syms[v].init
            o = '%s %d %s %d' % (string(name), zid, ctx == CTX, n)
            for e in val(eras):
                o += ' (%s|%s|%s)' % (policy(e[0]), string(e[1]), ','.join(
                    map(str, e[2:])))
            return o + ' -> ' + ('none' if target is None else
                                 string(syms[target].init[0]))

        CTX = next(s.name for s in syms.values() if s.type.split('::')[-1] ==
                   P + 'ZoneContext')
        c = list(syms[CTX].init)
        k = 6 if self.lang == 'arduino' else 5
        out.append('context %s %s %d %d' % (
            ','.join(map(str, c[:k])), string(c[k]), c[k + 1], c[k + 2]))
        for t, n in ((c[k + 3], c[k + 1]), (c[k + 4], c[k + 2])):
            v = val(t)
            out.append('strings ' + (
                'none' if v is None else ' '.join(map(string, v[:n]))))
        if self.lang == 'arduino':
            out.append('version ' + string(c[k]))
        for x in sorted(self.infos()):
            out.append('info %s %s' % (x, info(x)))
        for x in sorted(self.policies()):
            out.append('policy %s %s' % (x, policy(x)))
        for x, (a, b) in sorted(hdr.registry_sizes(
                self.files, self.lang, self.ns).items()):
            arr = syms[self.pre() + x].init
            out.append('registry %s %d %d' % (x, a, len(arr)))
            for r in arr:
                out.append('entry ' + info(r))
        for x, (v, _) in sorted(hdr.id_consts(
                self.files, self.lang, self.ns).items()):
            out.append('id %s %d' % (x, v))
        for x, (v, _) in sorted(hdr.buf_sizes(
                self.files, self.lang, self.ns).items()):
            out.append('buf %s %d' % (x, v))
        return out

    def pre(self):
        return 'k' if self.lang == 'arduino' else 'k' + self.ns

    def infos(self):
        return [self.pre() + 'Zone' + x for x in hdr.externs(
            self.files, self.lang, 'zone_infos.h', self.ns)
            if x != 'Context']

    def policies(self):
        return [self.pre() + 'ZonePolicy' + x for x in hdr.externs(
            self.files, self.lang, 'zone_policies.h', self.ns,
            kind='ZonePolicy')]

    # --- the walking program ------------------------------------------

    def walk(self, k):
        """A function walk<k>() that prints what the compiler made of it."""
        q = 'ace_time::%s::' % self.scope if self.lang == 'arduino' else 'Atc'
        s = 'ace_time::%s::' % self.ns if self.lang == 'arduino' else ''
        p = s + self.pre()
        d = {'k': k, 'q': q, 'p': p}
        fmt = lambda v, ns: (','.join('%d' for _ in ns), ', '.join(
            v + n for n in ns))
        d['rf'], d['ra'] = fmt('r->', NRULE[self.low])
        d['ef'], d['ea'] = fmt('e->', NERA[self.low])
        cn = ['start_year', 'until_year', 'start_year_accurate',
              'until_year_accurate'] + (['base_year'] if self.lang ==
                                        'arduino' else []) + ['max_transitions']
        d['cf'], d['ca'] = fmt('c->', cn)
        o = '''
static void policy%(k)d(const %(q)sZonePolicy *p) {
  int i;
  if (!p) { printf("none"); return; }
  printf("%%d[", p->num_rules);
  for (i = 0; i < p->num_rules; i++) {
    const %(q)sZoneRule *r = p->rules + i;
    printf("%%s(%(rf)s)", i ? "," : "", %(ra)s);
  }
  printf("]");
}
static void info%(k)d(const %(q)sZoneInfo *z) {
  int i;
  str(z->name);
  printf(" %%lu %%s %%d", (unsigned long) z->zone_id,
    z->context == &%(p)sZoneContext ? "True" : "False", z->num_eras);
  for (i = 0; i < z->num_eras; i++) {
    const %(q)sZoneEra *e = z->eras + i;
    printf(" (");
    policy%(k)d(e->policy);
    printf("|"); str(e->format);
    printf("|%(ef)s)", %(ea)s);
  }
  printf(" -> ");
  if (z->target) str(z->target->name); else printf("none");
  printf("\\n");
}
static void walk%(k)d(void) {
  const %(q)sZoneContext *c = &%(p)sZoneContext;
  unsigned i;
  printf("context %(cf)s ", %(ca)s);
  str(c->tz_version);
  printf(" %%d %%d\\nstrings", c->num_fragments, c->num_letters);
  if (!c->fragments) printf(" none");
  else for (i = 0; i < c->num_fragments; i++) {
    printf(" "); str(c->fragments[i]);
  }
  if (c->fragments && !c->num_fragments) printf(" ");
  printf("\\nstrings");
  for (i = 0; i < c->num_letters; i++) {
    printf(" "); str(c->letters[i]);
  }
  if (!c->num_letters) printf(" ");
  printf("\\n");
''' % d
        if self.lang == 'arduino':
            o += ('  printf("version "); str((const char*) '
                  '%skTzDatabaseVersion); printf("\\n");\n' % s)
        for x in sorted(self.infos()):
            o += '  printf("info %s "); info%d(&%s%s);\n' % (x, k, s, x)
        for x in sorted(self.policies()):
            o += ('  printf("policy %s "); policy%d(&%s%s); printf("\\n");\n' %
                  (x, k, s, x))
        for x in sorted(hdr.registry_sizes(self.files, self.lang, self.ns)):
            o += '''  printf("registry %(x)s %%d %%d\\n", (int) %(p)s%(x)sSize,
    (int) (sizeof(%(p)s%(x)s) / sizeof(%(p)s%(x)s[0])));
  for (i = 0; i < %(p)s%(x)sSize; i++) {
    printf("entry "); info%(k)d(%(p)s%(x)s[i]);
  }
''' % dict(d, x=x)
        for x in sorted(hdr.id_consts(self.files, self.lang, self.ns)):
            o += ('  printf("id %s %%lu\\n", (unsigned long) %sZoneId%s);\n' % (
                x, p, x))
        for x in sorted(hdr.buf_sizes(self.files, self.lang, self.ns)):
            o += '  printf("buf %s %%d\\n", (int) %sZoneBufSize%s);\n' % (
                x, p, x)
        return o + '  printf("end\\n");\n}\n'


STR = '''#include <stdio.h>
static void str(const char *s) {
  if (!s) { printf("~"); return; }
  printf("\\"");
  for (; *s; s++) printf("%02x", (unsigned char) *s);
}
'''
FLAGS = ['-O0', '-Wall', '-Wextra', '-Werror', '-Wno-unused-variable',
         '-Wno-unused-const-variable', '-Wno-unused-function',
         '-Wno-type-limits']
ORDERS = list(itertools.permutations(
    ('zone_policies.h', 'zone_infos.h', 'zone_registry.h')))


def program(dbs, order=0, cplusplus=False):
    """Build one program out of the databases (One); -> [lines of each].
    order: of the headers; cplusplus: use the C database from C++."""
    base = '/dev/shm' if os.path.isdir('/dev/shm') else None
    top = tempfile.mkdtemp(prefix='mcbind', dir=base)
    try:
        return _program(top, dbs, order, cplusplus)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, timeout=300,
                       env=dict(os.environ, LC_ALL='C', TMPDIR=cwd))
    if p.returncode:
        raise Refused('%s\n%s' % (' '.join(cmd[:2]), p.stderr.decode(
            errors='replace')[:1500]))
    return p.stdout


def _program(top, dbs, order, cplusplus):
    lang = dbs[0].lang
    if lang == 'arduino':
        cxx = True
        _put(top + '/zoneinfo/infos.h', stub_cpp())
        _put(top + '/zoneinfo/compat.h', COMPAT)
    else:
        cxx = cplusplus
        _put(top + '/zoneinfo/zone_info.h', stub_c(dbs[0].low))
    ext = dbs[0].ext
    src, heads = [], []
    for k, d in enumerate(dbs):
        for n, b in d.files.items():
            if n.endswith('.h') or n.endswith('.' + ext):
                _put('%s/d%d/%s' % (top, k, n), b)
        src += ['d%d/%s.%s' % (k, f, ext) for f in (
            'zone_policies', 'zone_infos', 'zone_registry')]
        heads.append(['d%d/%s' % (k, h) for h in ORDERS[order % 6]])
    inc = ''.join('#include "%s"\n' % h for hs in heads for h in hs)
    inc += ''.join('#include "%s"\n' % h for hs in heads for h in hs[::-1])
    main = inc + STR + ''.join(d.walk(k) for k, d in enumerate(dbs))
    main += 'int main(void) { %s return 0; }\n' % ' '.join(
        'walk%d();' % k for k in range(len(dbs)))
    mext = 'cpp' if cxx else 'c'
    _put('%s/main.%s' % (top, mext), main)
    # every header on its own
    for i, h in enumerate(h for hs in heads for h in hs
                          if order % 3 == 0):
        _put('%s/h%d.%s' % (top, i, mext), '#include "%s"\nint x%d;\n' % (h, i))
        src.append('h%d.%s' % (i, mext))
    gcc, gxx = (['gcc', '-std=c11', '-pedantic'] + FLAGS,
                ['g++', '-std=c++11'] + FLAGS)
    if lang == 'arduino':
        _run(gxx + ['-I.'] + src + ['main.cpp', '-o', 'main'], top)
    elif cxx:
        objs = []
        for s in src:
            if s.endswith('.c'):
                objs.append(s.replace('/', '_') + '.o')
                _run(gcc + ['-c', s, '-o', objs[-1]], top)
        _run(gxx + [s for s in src if s.endswith('.cpp')] + objs +
             ['main.cpp', '-o', 'main'], top)
    else:
        _run(gcc + src + ['main.c', '-o', 'main'], top)
    text = _run(['./main'], top).decode()
    parts = text.split('end\n')
    return [p.split('\n')[:-1] for p in parts[:-1]]


# --- Python ---------------------------------------------------------------

PYTYPES = '''from typing import Any, Dict
ZoneRule = ZonePolicy = ZoneEra = ZoneInfo = Dict[str, Any]
ZoneInfoMap = ZonePolicyMap = Dict[str, Any]
'''
PYMAIN = '''
import importlib, json, sys
out = []
for n in sys.argv[1:]:
    for m in ('zone_registry', 'zone_infos', 'zone_policies'):
        importlib.import_module('top.%s.%s' % (n, m))
    g = sys.modules['top.%s.zone_registry' % n]
    i = sys.modules['top.%s.zone_infos' % n]
    p = sys.modules['top.%s.zone_policies' % n]
    up = lambda m: {k: v for k, v in vars(m).items() if k.isupper() and
                    isinstance(v, (int, str))}
    out.append([g.ZONE_REGISTRY, g.ZONE_AND_LINK_REGISTRY, up(i)])
json.dump(out, sys.stdout)
'''


def packages(many):
    """Import [(files, ns)] as packages of one program in a fresh interpreter
    with warnings as errors -> [[zone registry, zone and link registry,
    constants of zone_infos]]"""
    import json
    base = '/dev/shm' if os.path.isdir('/dev/shm') else None
    top = tempfile.mkdtemp(prefix='mcbind', dir=base)
    try:
        _put(top + '/top/__init__.py', '')
        _put(top + '/top/typing.py', PYTYPES)
        _put(top + '/main.py', PYMAIN)
        for files, ns in many:
            _put('%s/top/%s/__init__.py' % (top, ns), '')
            for n, b in files.items():
                if n.endswith('.py'):
                    _put('%s/top/%s/%s' % (top, ns, n), b)
        return json.loads(_run([sys.executable, '-B', '-W', 'error',
                                'main.py'] + [ns for _, ns in many], top))
    finally:
        shutil.rmtree(top, ignore_errors=True)
