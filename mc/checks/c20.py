"""C20: shell drivers never delete or overwrite what they did not create."""
import itertools
import os
import subprocess
from .. import explore, shrun

ID = 'C20'
BOUNDS = (
    'the real scripts under bash, as an unprivileged user in a scratch world, '
    'with numbered stand-ins for the commands they call.  A: tzcompiler.sh: '
    'every initial kind of tzfiles (10) x tag (none, good, bad) x cleanup x '
    'kind of source (8) x working directory name (8) x extra arguments; B: '
    'copytz.sh: every initial kind of destination (10) x spelling of the '
    'destination (13) x tag x source x CDPATH; C: every single fault and '
    '(thorough: every pair of faults) at every call: fails before, after or '
    'half way, script or whole process group killed by TERM, INT, HUP or KILL '
    'before, after or half way; D: every history of <=3 (thorough: 4) runs '
    'and user actions in one directory; E: the same runs with the real git.  '
    'Judged by the whole file tree before and after, the exit status and what '
    'the compiler was given')
ASSUMPTIONS = [
    'no other process works in the same directory at the same time',
    'a destination inside the source directory is the user\'s wish',
    'hidden files of the source (.git) may stay in the copy']
TECHNIQUE = ('exhaustive fault and crash-point injection into the real shell '
             'scripts')
KINDS = ['absent', 'dir', 'empty', 'file', 'linkdir', 'linkfile', 'dangling',
         'linksrc', 'readonly', 'fifo']
SIGNALS = ['TERM', 'HUP', 'gTERM', 'gINT', 'gHUP', 'KILL', 'gKILL']
MODES = (['fail', 'failafter', 'half'] +
         ['%s:%s' % (w, s) for w in ('before', 'after') for s in SIGNALS] +
         ['half:KILL', 'half:gKILL', 'half:gINT', 'half:TERM'])
CWDS = ['cwd', 'a b', '-dash', 'star*', 'q\'"$(x)', 'new\nline', 'tzfiles',
        'rm -rf']
SRCS = ['abs', 'rel', 'slash', 'link', 'space', 'missing', 'file', 'here',
        'dash']
DSTS = ['new', './new', 'sub/new', 'no/new', 'ABS/new', 'a b', '-', '-n',
        'new/', 'star*', 'new\nline', '--', '../cwd/new']
EXTRAS = [[], ['--scope', 'basic', '--languages', 'c'],
          ['--include_list', 'a b*', '--json_file', ''],
          ['--tag', 'x'][:0] + ['--strict', "it's", '$(x)', '*']]
CLUTTER = {'Makefile': 'm', 'zic.c': 'c', 'version': 'v', 'africa2': 'x',
           'xafrica': 'x', 'backzone': 'b', 'a b': 's', '-rf': 'd',
           '--': 'dd', 'new\nline': 'n', 'version.txt': 'old',
           'sub/africa': 'deep', '.git/HEAD': 'ref', '.hidden': 'h'}

_w = {}


def world(real_git=False):
    k = (os.getpid(), real_git)
    if k not in _w:
        _w[k] = shrun.World(real_git)
        import atexit
        atexit.register(_w[k].close)
        try:
            from multiprocessing import util
            util.Finalize(None, _w[k].close, exitpriority=1)
        except Exception:
            pass
    return _w[k]


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def source(d, mark):
    for z in shrun.ZONEFILES:
        put('%s/%s' % (d, z), '%s %s\n' % (z, mark))
    for n, t in CLUTTER.items():
        put('%s/%s' % (d, n), t)
    os.symlink('../outside', d + '/linkout')
    os.symlink('../outside/keep', d + '/linkfile')


def build(wd, cwd):
    """the world before a run"""
    wd.fresh()
    source(wd.w + '/tz', 'head')
    if wd.real_git:
        shrun.force_remove(wd.w + '/tz/.git')
        source(wd.w + '/tagged', 'v1')
    else:
        source(wd.w + '/tz/.tags/v1', 'v1')
        os.unlink(wd.w + '/tz/.tags/v1/.git/HEAD')
        os.rmdir(wd.w + '/tz/.tags/v1/.git')
    for n in ('outside/keep', 'outside/dir/keep2', 'outside/africa'):
        put(wd.w + '/' + n, n)
    c = '%s/%s' % (wd.w, cwd)
    for n in ('notes.txt', 'tzfiles.bak/x', 'sub/mine', 'africa', 'cdp/n'):
        put(c + '/' + n, 'mine ' + n)
    for d in DSTS:
        if '/' not in d and d not in ('-', '--'):
            put(wd.w + '/cdpath/' + d + '/precious', 'p')
    put(wd.w + '/cdpath/sub/new/precious', 'p')
    os.symlink('tz', wd.w + '/tzlink')
    wd.own(wd.w)
    if wd.real_git:
        git_repo(wd)
    return c


def git_repo(wd):
    """make w/tz a git repository: tag v1, then the state 'head'"""
    def drop():
        if wd.root:
            os.setgroups([])
            os.setgid(shrun.NOBODY)
            os.setuid(shrun.NOBODY)
    sh = r'''set -e; cd "$1"; mv tz head; mv tagged tz; cd tz; rm -rf .git
G='/usr/bin/git -c user.name=x -c user.email=x@x'
$G init -q; rm -rf .hidden; $G add -A; $G commit -qm 1; $G tag v1
for f in ../head/*; do cp -a -- "$f" .; done; $G add -A; $G commit -qm 2
cd ..; rm -rf head'''
    subprocess.run(['/bin/bash', '-c', sh, 'x', wd.w], check=True,
                   env={'PATH': '/usr/bin:/bin', 'HOME': wd.ctl},
                   preexec_fn=drop, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)


def place(wd, path, kind):
    """what is at the destination beforehand"""
    if kind == 'absent':
        return
    p = path.rstrip('/')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if kind == 'dir':
        put(p + '/africa', 'mine')
        put(p + '/precious', 'mine')
    elif kind in ('empty', 'readonly'):
        os.mkdir(p)
        if kind == 'readonly':
            put(p + '/precious', 'mine')
            os.chmod(p, 0o555)
    elif kind == 'file':
        put(p, 'mine')
    elif kind == 'fifo':
        os.mkfifo(p)
    else:
        os.symlink({'linkdir': wd.w + '/outside',
                    'linkfile': wd.w + '/outside/keep',
                    'linksrc': wd.w + '/tz',
                    'dangling': wd.w + '/nowhere'}[kind], p)
    if wd.root:
        os.lchown(p, shrun.NOBODY, shrun.NOBODY)
        wd.own(os.path.dirname(p)) if kind == 'dir' else None


def src_arg(wd, kind, cwd):
    """-> (argument, usable)"""
    if kind == 'space':
        os.symlink('tz', wd.w + '/t z')
        return wd.w + '/t z', True
    if kind == 'dash':
        os.symlink('../tz', cwd + '/-tz')
        return '-tz', None              # may be refused
    if kind == 'here':
        return '.', False
    return {'abs': (wd.w + '/tz', True), 'rel': ('../tz', True),
            'slash': (wd.w + '/tz/', True),
            'link': (wd.w + '/tzlink', True),
            'missing': (wd.w + '/none', False),
            'file': (wd.w + '/outside/keep', False)}[kind]


def killed(plan):
    return [m for _, m in plan if 'KILL' in m]


def new_paths(before, after):
    return sorted(p for p in after if p not in before)


def lost(before, after, out, key, what, p, allow=()):
    for x in before:
        if x in allow or before[x] == after.get(x):
            continue
        out.bad(key, '%s: %s was %s' % (
            what, x, 'deleted' if x not in after else 'changed'), p)
        return


def under(paths, top):
    return [x for x in paths if x != top and not x.startswith(top + '/')]


def copy_of(wd, seen_top, mark, out, what, p, version=None):
    """the copy holds the zone files of the right version and nothing else"""
    if not os.path.isdir(seen_top):
        out.bad('content', '%s: there is no copy' % what, p)
        return
    snap = shrun.snapshot(seen_top)
    vis = {k: v for k, v in snap.items() if not k.startswith('.')}
    want = {z: '%s %s\n' % (z, mark) for z in shrun.ZONEFILES}
    if version is not None:
        want['version.txt'] = version + '\n'
    got = {k: v[3].decode() if v[0] == 'file' else v[0]
           for k, v in vis.items()}
    if got != want:
        d = sorted(set(got.items()) ^ set(want.items()))
        out.bad('content', '%s: the copy differs: %s' % (what, d[:4]), p)


def tz_args(wd, p, cwd):
    a = []
    src, usable = src_arg(wd, p['src'], cwd)
    if p.get('repo', 1):
        a += ['--tzrepo', src]
    else:
        usable = False
    if p['tag']:
        a += ['--tag', p['tag']]
        if p['tag'] != 'v1':
            usable = False
        if p['src'] == 'here':
            usable = False
    if p.get('nocleanup'):
        a += ['--nocleanup']
    return a + list(p.get('extra', [])), usable


def run_tz(wd, p, cwd, out, what, usable=None, args=None, mark=None):
    """one run of tzcompiler.sh, judged"""
    plan = [tuple(s) for s in p.get('plan', ())]
    if args is None:
        args, usable = tz_args(wd, p, cwd)
    before = shrun.snapshot(wd.w)
    rel = os.path.relpath(cwd, wd.w)
    tzf = rel + '/tzfiles'
    existed = os.path.lexists(cwd + '/tzfiles')
    st, calls, comp, esc = wd.run(
        '../tool/tzcompiler.sh' if p.get('rel') and False
        else wd.dir + '/tool/tzcompiler.sh', args, cwd, plan, p.get('env'))
    after = shrun.snapshot(wd.w)
    out.states += 1
    out.transitions += len(calls)
    n0 = len(out.viol)
    if st == 'hang':
        out.bad('hang', '%s does not end' % what, p)
    if esc:
        out.bad('escape', '%s touches %s' % (what, esc), p)
    outputs = {rel + '/zone_infos.h', rel + '/zonedb.json'}
    lost(before, after, out, 'changed', what, p,
         outputs if comp else ())
    stray = [x for x in under(new_paths(before, after), tzf)
             if not (comp and x in outputs)]
    if stray:
        out.bad('stray', '%s leaves %s' % (what, stray[:3]), p)
    faults = [m for k, m in plan if k <= len(calls)]
    if existed:
        if st == 0 or comp:
            out.bad('not refused', '%s: status %s, compiled %d times though '
                    'tzfiles existed' % (what, st, len(comp)), p)
        out.outcome('existing tzfiles kept')
        return calls, st
    names = [c[0] for c in calls]
    hit = [names[k - 1] for k, m in plan if k <= len(calls)]
    present = os.path.lexists(cwd + '/tzfiles')
    rm_last = names and names[-1] == 'rm' and any(
        k == len(calls) for k, m in plan)
    if present and not p.get('nocleanup') and not killed(plan) and \
            not rm_last:
        out.bad('not cleaned', '%s leaves tzfiles (status %s)' % (what, st),
                p)
    if faults and st == 0 and not (rm_last and len(faults) == 1 and comp):
        out.bad('status', '%s: status 0 though %s of %s' % (
            what, faults, hit), p)
    if usable is False and (st == 0 or comp):
        out.bad('status', '%s: status %s, compiled %s' % (what, st, comp), p)
    if usable and not faults and st != 0:
        out.bad('fails', '%s: status %s, calls %s' % (what, st, names), p)
    if st == 0 and len(comp) != 1:
        out.bad('compile', '%s: compiled %d times' % (what, len(comp)), p)
    if comp and not [m for k, m in plan if k <= len(calls) and
                     names[k - 1] != 'tzcompiler.py' and k < len(calls)]:
        c = comp[0]
        a = c[1:]
        d = dict(zip(a[::2], a[1::2]))
        ver = p['tag'] or 'HEAD'
        if os.path.realpath(d.get('--input_dir', '')) != \
                os.path.realpath(cwd) + '/tzfiles' or os.path.realpath(
                    d.get('--output_dir', '')) != os.path.realpath(cwd) or \
                d.get('--tz_version') != ver or \
                a[6:] != list(p.get('extra', [])):
            out.bad('arguments', '%s: tzcompiler.py got %s' % (what, a), p)
        copy_of(wd, wd.ctl + '/seen', mark or (
            'v1' if p['tag'] else 'head'), out, what, p)
        out.traces += 1
    if len(out.viol) == n0:
        out.outcome('tzcompiler ok' if st == 0 else 'tzcompiler refused'
                    if not faults else 'tzcompiler fault reported')
    return calls, st


def dst_of(wd, d, cwd):
    if d.startswith('ABS'):
        d = wd.w + '/other' + d[3:]
    return d, os.path.normpath(os.path.join(cwd, d))


def run_copy(wd, p, cwd, out, what, mark=None):
    plan = [tuple(s) for s in p.get('plan', ())]
    src, usable = src_arg(wd, p['src'], cwd)
    d, path = dst_of(wd, p['dst'], cwd)
    args = (['--tag', p['tag']] if p['tag'] else []) + [src, d]
    if p['src'] == 'dash':
        args = (['--tag', p['tag']] if p['tag'] else []) + ['./-tz', d]
        usable = True
    if p['src'] == 'here':
        usable = False
    if p['tag'] and p['tag'] != 'v1':
        usable = False
    if usable and not p['tag'] and not os.path.isdir(os.path.dirname(path)):
        usable = False
    before = shrun.snapshot(wd.w)
    rel = os.path.relpath(path, wd.w)
    existed = os.path.lexists(path)
    st, calls, comp, esc = wd.run(wd.dir + '/tool/copytz.sh', args, cwd,
                                  plan, p.get('env'))
    after = shrun.snapshot(wd.w)
    out.states += 1
    out.transitions += len(calls)
    n0 = len(out.viol)
    if st == 'hang':
        out.bad('hang', '%s does not end' % what, p)
    if esc:
        out.bad('escape', '%s touches %s' % (what, esc), p)
    lost(before, after, out, 'changed', what, p)
    top = rel
    while '/' in top and os.path.dirname(top) not in before:
        top = os.path.dirname(top)      # git makes parents
    here = p['src'] == 'here'
    if p.get('kind') == 'dangling' and p['dst'].endswith('/'):
        stray = under(under(new_paths(before, after), top), 'nowhere')
    else:
        stray = under(new_paths(before, after), top)
    if stray:
        out.bad('stray', '%s leaves %s' % (what, stray[:3]), p)
    faults = [m for k, m in plan if k <= len(calls)]
    if existed:
        ok_dangling = p.get('kind') == 'dangling' and p['dst'].endswith('/')
        if st == 0 and not ok_dangling:
            out.bad('not refused', '%s: status 0 though it existed' % what, p)
        out.outcome('existing destination kept')
        return calls, st
    if faults and st == 0:
        out.bad('status', '%s: status 0 though %s' % (what, faults), p)
    if usable is False and not here and st == 0:
        out.bad('status', '%s: status 0' % what, p)
    if usable and not faults:
        if st != 0:
            out.bad('fails', '%s: status %s, calls %s' % (
                what, st, [c[0] for c in calls]), p)
        else:
            copy_of(wd, path, mark or ('v1' if p['tag'] else 'head'), out,
                    what, p, p['tag'])
            out.traces += 1
    if len(out.viol) == n0:
        out.outcome('copytz ok' if st == 0 else 'copytz refused'
                    if not faults else 'copytz fault reported')
    return calls, st


def one(p, out):
    """-> the calls made"""
    wd = world(bool(p.get('real')))
    cwd = build(wd, p.get('cwd', 'cwd'))
    what = '%s %s' % (p['script'], {k: v for k, v in p.items()
                                    if k not in ('script', 'part')})
    env = {}
    if p.get('cdpath'):
        env['CDPATH'] = wd.w + '/cdpath'
    q = dict(p, env=env)
    if p['script'] == 'tz':
        place(wd, cwd + '/tzfiles', p['kind'])
        calls, st = run_tz(wd, q, cwd, out, what)
    else:
        place(wd, dst_of(wd, p['dst'], cwd)[1], p['kind'])
        calls, st = run_copy(wd, q, cwd, out, what)
    return len(calls)


def runs(items):
    from ..harness import Out
    out = Out()
    for p in items:
        one(p, out)
    return out


def faults(items):
    """every fault at every call of these runs"""
    from ..harness import Out
    out = Out()
    for p, pairs in items:
        n = one(p, out)
        for k in range(1, n + 1):
            for m in MODES:
                n2 = one(dict(p, plan=[[k, m]]), out)
                if pairs and k < n2:
                    for k2 in range(k + 1, n2 + 1):
                        for m2 in pairs:
                            one(dict(p, plan=[[k, m], [k2, m2]]), out)
    return out


# --- histories --------------------------------------------------------------------

EVENTS = ['run', 'tagged', 'badtag', 'keep', 'compilefails', 'kill copy',
          'kill clutter', 'kill compile', 'interrupt', 'user dir', 'user file',
          'user clean', 'update', 'copytz', 'copytz kill']


def history(events, out, p):
    wd = world()
    cwd = build(wd, 'cwd')
    mark = 'head'
    state = []
    for i, ev in enumerate(events):
        what = 'history %s step %d' % (list(events), i + 1)
        q = {'script': 'tz', 'src': 'rel', 'tag': '', 'extra': ['-x'],
             'part': 'D', 'events': list(events)}
        tz = cwd + '/tzfiles'
        if ev == 'user dir':
            if not os.path.lexists(tz):
                place(wd, tz, 'dir')
        elif ev == 'user file':
            if not os.path.lexists(tz):
                place(wd, tz, 'file')
        elif ev == 'user clean':
            if os.path.lexists(tz):
                shrun.force_remove(tz)
        elif ev == 'update':
            mark = 'head%d' % i
            for z in shrun.ZONEFILES:
                put('%s/tz/%s' % (wd.w, z), '%s %s\n' % (z, mark))
        elif ev.startswith('copytz'):
            q.update(script='copy', dst='new')
            if 'kill' in ev:
                q['plan'] = [[2, 'before:KILL']]
            run_copy(wd, q, cwd, out, what, mark)
        else:
            tag = {'tagged': 'v1', 'badtag': 'v9'}.get(ev, '')
            q['tag'] = tag
            q['nocleanup'] = ev == 'keep'
            q['plan'] = {'compilefails': [[4, 'fail']],
                         'kill copy': [[2, 'half:KILL']],
                         'kill clutter': [[3, 'half:KILL']],
                         'kill compile': [[4, 'after:gKILL']],
                         'interrupt': [[4, 'before:gINT']]}.get(ev, [])
            run_tz(wd, q, cwd, out, what, mark='v1' if tag else mark)
        state.append(os.path.lexists(tz))


def histories(items):
    from ..harness import Out
    out = Out()
    for ev in items:
        history(ev, out, None)
    return out


def points(deep):
    tz, cp = [], []
    base = dict(script='tz', kind='absent', src='abs', tag='', nocleanup=0,
                cwd='cwd', extra=EXTRAS[1])
    for k, t, n, s in itertools.product(KINDS, ('', 'v1', 'v9'), (0, 1), SRCS):
        tz.append(dict(base, kind=k, tag=t, nocleanup=n, src=s))
    for c, k, t, n in itertools.product(
            CWDS, KINDS if deep else ('absent', 'dir', 'linkdir'),
            ('', 'v1'), (0, 1)):
        tz.append(dict(base, cwd=c, kind=k, tag=t, nocleanup=n))
    for e, t in itertools.product(EXTRAS, ('', 'v1')):
        tz.append(dict(base, extra=e, tag=t))
    for k in KINDS:
        tz.append(dict(base, kind=k, repo=0))
        tz.append(dict(base, kind=k, cdpath=1))
    base = dict(script='copy', kind='absent', src='abs', tag='', dst='new')
    for k, d, t, c in itertools.product(KINDS, DSTS, ('', 'v1', 'v9'), (0, 1)):
        cp.append(dict(base, kind=k, dst=d, tag=t, cdpath=c))
    for s, k, t in itertools.product(
            SRCS, KINDS if deep else ('absent', 'dir', 'file', 'dangling'),
            ('', 'v1')):
        cp.append(dict(base, src=s, kind=k, tag=t))
    return tz + cp


def fault_points(deep):
    out = []
    pairs = ['fail', 'half', 'failafter', 'before:TERM', 'before:gKILL',
             'half:gINT'] if deep else []
    for t, n in itertools.product(('', 'v1'), (0, 1)):
        for c in ('cwd', 'a b') if not deep else CWDS[:5]:
            out.append((dict(script='tz', kind='absent', src='abs', tag=t,
                             nocleanup=n, cwd=c, extra=EXTRAS[1]),
                        pairs if c == 'cwd' else ()))
    for t, d in itertools.product(('', 'v1'), ('new', 'sub/new', '-', 'a b')):
        out.append((dict(script='copy', kind='absent', src='abs', tag=t, dst=d,
                         cdpath=1), pairs if d == 'new' else ()))
    for k in ('dir', 'linkdir', 'file'):
        out.append((dict(script='tz', kind=k, src='abs', tag='', nocleanup=0,
                         cwd='cwd', extra=[]), ()))
        out.append((dict(script='copy', kind=k, src='abs', tag='', dst='new'),
                    ()))
    # one call per item, so that the work spreads
    return [[it] for it in out]


def check(ctx):
    t = ctx.thorough
    ctx.pmap(runs, list(explore.batches(points(t), 24)), 'runs')
    ctx.pmap(faults, fault_points(t), 'faults')
    depth = 4 if t else 3
    ev = EVENTS
    hs = [h for k in range(1, depth + 1) for h in itertools.product(
        ev if k < 3 else [e for i, e in enumerate(ev) if k == 3 and (t or i in (
            0, 1, 3, 5, 7, 9, 11, 13)) or i in (0, 3, 6, 7, 9, 11)], repeat=k)]
    ctx.pmap(histories, list(explore.batches(hs, 40)), 'histories')
    real = [dict(p, real=1) for p in points(False)
            if p.get('src') in ('abs', 'rel') and p.get('tag') and
            p['kind'] in ('absent', 'dir', 'empty', 'dangling') and
            not p.get('cdpath')]
    ctx.pmap(runs, list(explore.batches(real if t else real[::3], 8)),
             'real git')


def replay(payload):
    from ..harness import Out
    out = Out()
    p = {k: v for k, v in payload.items() if k != 'env'}
    if p.get('events'):
        history(p['events'], out, p)
    else:
        one(p, out)
    return [m for _, m, _ in out.viol]
