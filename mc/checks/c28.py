"""C28: a compile that meets a failing file operation fails; inputs are never
changed; what was in the output directory before does not matter."""
import itertools
import os
import resource
import shutil
import tempfile
from .. import explore, runner
from .. import universe as u
from ..mix import KINDS

ID = 'C28'
TECHNIQUE = ('fault-injecting exhaustive exploration of the real code: every '
             'file x kind of failure, every prefix of the written bytes, every '
             'state of the output directory')
BOUNDS = (
    'A: for each set of languages and actions, every output file and every '
    'pair of them x {is a directory, device full, parent missing, link loop}, '
    'output directory missing or a file; every region file and the include '
    'list x {missing, directory, unreadable, not UTF-8 in each line}; B: the '
    'number of bytes any file may hold, over every boundary of every file '
    '(every 128th, thorough: 8th, byte); C: every state {absent, empty, shorter, '
    'longer, other} of every output file before the run.  The run must fail in '
    'A and B and leave every file it does not own as it was; in C it must '
    'write what it writes into an empty directory')
ASSUMPTIONS = [
    'failures are those of a real file system: directories and symbolic links '
    'in place of files, /dev/full, /proc/self/mem, RLIMIT_FSIZE',
    'files of the run itself may be incomplete when the run fails',
]
SRC = {
    'africa': KINDS['policy'][0].format(z='Z/One', p='P', q='Q'),
    'europe': '# comment\n' + KINDS['fixed'][0].format(z='Z/Two'),
    'backward': 'Link\tZ/One\tL/One\n',
}
CONFIGS = [
    ('complete', 'python', 'zonedb'), ('complete', 'c', 'zonedb,json'),
    ('complete', 'go', 'zonedb,zonelist'),
    ('extended', 'arduino', 'zonedb,json,zonelist'),
    ('basic', 'arduino', 'zonedb'), ('basic', 'c', 'zonelist'),
    ('basic', 'python', 'json'), ('complete', 'python,go,c', 'zonedb,json'),
]
MORE = ('--ignore_buf_size_too_large',)


class World:
    """A scratch directory with input, output and things not to be touched."""
    def __init__(self, src=SRC, include='Z/One\nZ/Two\nL/One\n'):
        self.dir = tempfile.mkdtemp(prefix='acemc28.', dir=runner.tmp_base())
        self.inp = os.path.join(self.dir, 'in')
        self.out = os.path.join(self.dir, 'out')
        self.inc = os.path.join(self.dir, 'include.txt')
        os.mkdir(self.inp)
        os.mkdir(self.out)
        runner.write_source(self.inp, src)
        with open(self.inc, 'w') as f:
            f.write(include)
        with open(os.path.join(self.inp, 'zone_infos.py'), 'w') as f:
            f.write('not yours')
        with open(os.path.join(self.dir, 'zonedb.json'), 'w') as f:
            f.write('not yours')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def run(self, cfg, out=None, include=False, more=()):
        scope, langs, actions = cfg
        av = ['tzcompiler.py', '--input_dir', self.inp, '--output_dir',
              out or self.out] + u.argv_for(
            scope, 2000, 2004, langs, actions=actions, more=MORE) + list(more)
        if include:
            av += ['--include_list', self.inc]
        if '--json_file' not in more:
            av += ['--json_file', 'zonedb.json']
        runner.RUNS += 1
        return runner.call_main(runner.load(), av, 60, self.dir)[:2]

    def tree(self, top):
        got = {}
        for root, dirs, names in os.walk(top):
            for n in names + dirs:
                p = os.path.join(root, n)
                r = os.path.relpath(p, top)
                if os.path.islink(p):
                    got[r] = ('link', os.readlink(p))
                elif os.path.isdir(p):
                    got[r] = ('dir',)
                else:
                    with open(p, 'rb') as f:
                        got[r] = ('file', f.read())
        return got

    def outside(self):
        return {k: v for k, v in self.tree(self.dir).items()
                if k != 'out' and not k.startswith('out' + os.sep)}

    def files(self):
        """The output with the scratch path removed."""
        d = self.dir.encode()
        return {k: v[1].replace(d, b'@') for k, v in self.tree(
            self.out).items() if v[0] == 'file'}


def put(path, what):
    """Make creating or writing this path fail."""
    if what == 'directory':
        os.mkdir(path)
    elif what == 'full':
        os.symlink('/dev/full', path)
    elif what == 'dangling':
        os.symlink('/nonexistent/dir/file', path)
    else:
        os.symlink(os.path.basename(path), path)


def spoil(path, what, k=0):
    """Make reading this path fail."""
    with open(path, 'rb') as f:
        data = f.read()
    os.remove(path)
    if what == 'directory':
        os.mkdir(path)
    elif what == 'unreadable':
        os.symlink('/proc/self/mem', path)
    elif what == 'loop':
        os.symlink(os.path.basename(path), path)
    elif what == 'bytes':
        lines = data.split(b'\n')
        lines[k] = lines[k][:-1] + b'\xff' + lines[k][-1:]
        with open(path, 'wb') as f:
            f.write(b'\n'.join(lines))


OUT_FAULTS = ('directory', 'full', 'dangling', 'loop')


def intact(w, p):
    """The obstacles were overcome: all files are there as they should be."""
    with World() as w0:
        w0.run(tuple(p['fault'][1]))
        return w.files() == w0.files()


def expect_failure(w, got, before, own, out, what, p):
    kind, exc = got
    out.states += 1
    if kind == 'ok' and own and intact(w, p):
        out.outcome('succeeded, every file intact')
        own = {}
    elif kind == 'ok':
        out.bad('success', 'the compile reports success although %s' % what, p)
    elif kind == 'hang':
        out.bad('hang', 'no end although %s' % what, p)
    else:
        out.outcome('failed (%s)' % str(exc).split(':')[0])
    after = w.outside()
    if after != before:
        out.bad('outside', 'files changed outside the output directory: %s '
                '(%s)' % (sorted(k for k in set(after) | set(before)
                                 if after.get(k) != before.get(k)), what), p)
    for k, v in own.items():
        if w.tree(w.out).get(k) != v:
            out.bad('obstacle', '%s was replaced (%s)' % (k, what), p)


def faults(items):
    from ..harness import Out
    out = Out()
    for it in items:
        kind, cfg = it[0], it[1]
        p = {'fault': [list(x) if isinstance(x, tuple) else x for x in it]}
        with World() as w:
            if kind == 'out':
                fs = it[2]
                for name, what in fs:
                    put(os.path.join(w.out, name), what)
                own = w.tree(w.out)
                before = w.outside()
                expect_failure(w, w.run(cfg), before, own, out,
                               'writing fails: %s %s' % (cfg, fs), p)
            elif kind == 'dir':
                what = it[2]
                d = os.path.join(w.dir, 'nodir')
                more = ()
                if what == 'file':
                    with open(d, 'w') as f:
                        f.write('x')
                elif what == 'sub':
                    d = os.path.join(w.out, 'a', 'b')
                elif what == 'json':
                    d, more = w.out, ('--json_file', 'sub/dir/z.json')
                before = w.outside()
                expect_failure(w, w.run(cfg, out=d, more=more), before, {},
                               out, 'output directory: %s' % what, p)
            elif kind == 'in':
                name, what, k = it[2:5]
                spoil(w.inc if name == 'include' else os.path.join(
                    w.inp, name), what, k)
                before = w.outside()
                expect_failure(w, w.run(cfg, include=True), before, {}, out,
                               'input %s %s %s' % (name, what, k), p)
                left = w.files()
                if left:
                    out.bad('partial', 'files %s are written although %s '
                            'cannot be read (%s)' % (sorted(left), name, what),
                            p)
            else:
                n = it[2]
                before = w.outside()
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                try:
                    got = w.run(cfg)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                expect_failure(w, got, before, {}, out, 'no file may exceed '
                               '%d bytes (%s)' % (n, cfg), p)
    return out


STATES = ('absent', 'empty', 'shorter', 'longer', 'other')


def existing(items):
    """The output does not depend on what is in the directory."""
    from ..harness import Out
    out = Out()
    fresh = {}
    for cfg, states in items:
        p = {'existing': [list(cfg), [list(x) for x in states]]}
        with World() as w:
            if cfg not in fresh:
                with World() as w0:
                    k = w0.run(cfg)
                    fresh[cfg] = w0.files() if k[0] == 'ok' else None
                    out.traces += 1
            want = fresh[cfg]
            if want is None:
                out.bad('fresh', 'compile into an empty directory fails: %s' %
                        (k[1],), p)
                continue
            for name, st in states:
                v = want[name]
                data = {'empty': b'', 'shorter': v[:len(v) // 2],
                        'longer': v + b'\ntrailing junk\n' * 50,
                        'other': b'\xff\x00 other'}.get(st)
                if data is not None:
                    with open(os.path.join(w.out, name), 'wb') as f:
                        f.write(data)
            with open(os.path.join(w.out, 'keep.h'), 'wb') as f:
                f.write(b'keep')
            os.mkdir(os.path.join(w.out, 'sub'))
            before = w.outside()
            kind, exc = w.run(cfg)
            out.states += 1
            if kind != 'ok':
                out.bad('refused', 'compile over existing files fails: %s %s' %
                        (exc, states), p)
                continue
            got = w.files()
            if got.pop('keep.h', None) != b'keep' or not os.path.isdir(
                    os.path.join(w.out, 'sub')):
                out.bad('alien', 'a file the run does not own is changed', p)
            if got != want:
                out.bad('content', 'files %s differ from those written into an '
                        'empty directory (%s)' % (sorted(
                            k for k in set(got) | set(want)
                            if got.get(k) != want.get(k)), states), p)
            elif w.outside() != before:
                out.bad('outside', 'files changed outside the output '
                        'directory', p)
            else:
                out.outcome('same as in an empty directory')
    return out


def sizes(cfg):
    with World() as w:
        kind, exc = w.run(cfg)
        if kind != 'ok':
            raise Exception('fault-free run fails: %s %s' % (cfg, exc))
        return {k: len(v[1]) for k, v in w.tree(w.out).items()}


def check(ctx):
    t = ctx.thorough
    items, old = [], []
    for cfg in CONFIGS:
        sz = sizes(cfg)
        ctx.traces += 1
        names = sorted(sz)
        for r in (1, 2):
            for fs in itertools.combinations(names, r):
                for ws in itertools.product(OUT_FAULTS, repeat=r):
                    items.append(('out', cfg, tuple(zip(fs, ws))))
        for what in ('missing', 'file', 'sub') + (
                ('json',) if 'json' in cfg[2] else ()):
            items.append(('dir', cfg, what))
        src = dict(SRC)
        for f in runner.REGION_FILES + ['include']:
            for what in ('missing', 'directory', 'unreadable', 'loop'):
                items.append(('in', cfg, f, what, 0))
            text = src.get(f, 'Z/One\nZ/Two\nL/One\n' if f == 'include' else '')
            for k, line in enumerate(text.split('\n')):
                if line and not line.startswith('#'):
                    items.append(('in', cfg, f, 'bytes', k))
        top = max(sz.values())
        # (the scratch path in the command line has a fixed length)
        cuts = {0, 1, top - 1} | set(range(0, top, 8 if t else 128))
        for s in sz.values():
            cuts |= {x for x in (s - 1, s, s + 1) if x < top}
        for c in range(4096, top, 4096):
            cuts |= {x for x in (c - 1, c, c + 1) if x < top}
        items += [('size', cfg, n) for n in sorted(cuts)]
        if len(names) <= (5 if t else 3):
            combos = itertools.product(STATES, repeat=len(names))
        else:
            combos = [c for c in itertools.product(STATES, repeat=len(names))
                      if sum(x != 'absent' for x in c) <= 2] if len(
                names) < 9 or t else one_each(len(names), True)
        for c in combos:
            old.append((cfg, tuple(zip(names, c))))
    ctx.notes['faults'] = len(items)
    ctx.notes['states of the output directory'] = len(old)
    ctx.transitions += len(items) + len(old)
    ctx.pmap(faults, list(explore.batches(items, 40)), 'A, B')
    ctx.pmap(existing, list(explore.batches(old, 40)), 'C')


def one_each(n, pairs):
    for i in range(n):
        for s in STATES[1:]:
            yield tuple(s if k == i else 'absent' for k in range(n))
            yield tuple('absent' if k == i else s for k in range(n))
    for i, j in itertools.combinations(range(n), 2) if pairs else ():
        for a, b in itertools.product(STATES[1:], repeat=2):
            yield tuple(a if k == i else b if k == j else 'absent'
                        for k in range(n))
    yield ('absent',) * n


def replay(p):
    if 'existing' in p:
        cfg, st = p['existing']
        o = existing([(tuple(cfg), tuple(tuple(x) for x in st))])
    else:
        kind, cfg, *r = p['fault']
        if kind == 'out':
            r = [tuple(tuple(x) for x in r[0])]
        o = faults([(kind, tuple(cfg), *r)])
    return [m for _, m, _ in o.viol]
