"""Drive the real compiler (/repo/src/acetimetools/tzcompiler.py main()) in
process.  The only thing replaced is the third-party package `acetime`, which
does not exist in this sandbox; its three modules are stubbed and its answers
(buffer sizes) are a choice of the harness, i.e. part of the environment that a
check may enumerate."""
import io
import logging
import os
import shutil
import signal
import sys
import tempfile
import types
from contextlib import redirect_stdout, redirect_stderr

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

REGION_FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
                'etcetera', 'europe', 'northamerica', 'southamerica']


class Hang(BaseException):
    """The code under test did not come back within the time limit."""


# --- environment model: acetime.ZoneProcessor ------------------------------

class Env:
    """Answers of the environment.  sizes(zone_name, year)->(active, buffer),
    terminal(zone_name, year)->bool"""
    sizes = staticmethod(lambda info, year: (4, 4))
    terminal = staticmethod(lambda info, year: False)
    calls = None
    last_info = None
    infos = None        # {zone name: zone info} when a check wants them


class _BufSizeInfo:
    def __init__(self, a, b):
        self.active_size, self.buffer_size = a, b

    def __iter__(self):
        return iter((self.active_size, self.buffer_size))

    def __getitem__(self, i):
        return (self.active_size, self.buffer_size)[i]


class _ZoneProcessor:
    def __init__(self, zone_info, *a, **k):
        self.zone_info = zone_info
        Env.last_info = zone_info
        if Env.infos is not None:
            Env.infos[zone_info['name']] = zone_info
        self.year = None

    def init_for_year(self, year):
        self.year = year
        if Env.calls is not None:
            Env.calls.append((self.zone_info['name'], year))

    def get_buffer_sizes(self):
        a, b = Env.sizes(self.zone_info, self.year)
        return _BufSizeInfo(a, b)

    def is_terminal_year(self, year):
        return Env.terminal(self.zone_info, year)


def _install_stubs():
    if 'acetime' in sys.modules:
        return
    m = types.ModuleType('acetime')
    m.__path__ = []
    zp = types.ModuleType('acetime.zone_processor')
    zp.ZoneProcessor = _ZoneProcessor
    ty = types.ModuleType('acetime.typing')
    from typing import Any, Dict
    for n in ('ZoneRule', 'ZonePolicy', 'ZoneEra', 'ZoneInfo'):
        setattr(ty, n, Dict[str, Any])
    ty.ZonePolicyMap = Dict[str, Any]
    ty.ZoneInfoMap = Dict[str, Any]
    m.zone_processor, m.typing = zp, ty
    sys.modules['acetime'] = m
    sys.modules['acetime.zone_processor'] = zp
    sys.modules['acetime.typing'] = ty


def load():
    """Import the code under test from the working tree."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/pycache'
    _install_stubs()
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import acetimetools.tzcompiler as t
    logging.disable(logging.CRITICAL)
    assert os.path.realpath(t.__file__).startswith(os.path.realpath(SRC)), \
        t.__file__
    return t


# --- running ---------------------------------------------------------------

class Result:
    __slots__ = ('files', 'exc', 'kind', 'stdout', 'argv')

    def __init__(self, files, exc, kind, stdout, argv):
        self.files, self.exc, self.kind = files, exc, kind
        self.stdout, self.argv = stdout, argv

    @property
    def ok(self):
        return self.kind == 'ok'

    def text(self, name):
        return self.files[name].decode('utf-8')


def tmp_base():
    return '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


class Workspace:
    """One scratch dir reused for many compiles by one process."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='acemc.', dir=tmp_base())
        self.inp = os.path.join(self.dir, 'in')
        self.out = os.path.join(self.dir, 'out')
        os.mkdir(self.inp)
        os.mkdir(self.out)
        self.pid = os.getpid()

    def close(self):
        if self.pid == os.getpid():
            shutil.rmtree(self.dir, ignore_errors=True)


_ws = None
RUNS = 0        # compiles done by this process


def workspace():
    global _ws
    if _ws is None or _ws.pid != os.getpid():
        _ws = Workspace()
        import atexit
        atexit.register(_ws.close)
        try:
            from multiprocessing import util
            util.Finalize(None, _ws.close, exitpriority=1)
        except Exception:
            pass
    return _ws


def _alarm(signum, frame):
    raise Hang()


def write_source(inp, files):
    """files: {region file name: text}.  Missing ones are written empty."""
    for f in REGION_FILES:
        p = os.path.join(inp, f)
        with open(p, 'w', encoding='utf-8') as o:
            o.write(files.get(f, ''))


def call_main(t, av, timeout, cwd):
    """main() with this command line: (kind, exc, what it printed)."""
    saved_argv, saved_cwd = sys.argv, os.getcwd()
    so, se = io.StringIO(), io.StringIO()
    sys.argv = av
    kind, exc = 'ok', None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        os.chdir(cwd)
        with redirect_stdout(so), redirect_stderr(se):
            t.main()
    except Hang:
        kind = 'hang'
    except SystemExit as e:
        if e.code not in (None, 0):
            kind, exc = 'exit', 'SystemExit(%r)' % (e.code,)
    except Exception as e:
        kind, exc = 'exc', '%s: %s' % (type(e).__name__, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.argv = saved_argv
        os.chdir(saved_cwd)
    return kind, exc, so.getvalue() + se.getvalue()


def run_main(files, argv, timeout=60, keep_input=False, include=None,
             keep_output=False):
    """Run tzcompiler.main() on the given source files.
    argv: list of options without --input_dir/--output_dir.
    include: None or text of the include list file.
    Returns Result; kind is 'ok', 'exc' (refused with an exception), 'exit'
    (SystemExit with non-zero status) or 'hang'."""
    global RUNS
    RUNS += 1
    t = load()
    ws = workspace()
    if not keep_input:
        write_source(ws.inp, files)
    if not keep_output:
        shutil.rmtree(ws.out)
        os.mkdir(ws.out)
    av = ['tzcompiler.py', '--input_dir', ws.inp, '--output_dir', ws.out]
    av += list(argv)
    if include is not None:
        p = os.path.join(ws.dir, 'include.txt')
        with open(p, 'w', encoding='utf-8') as o:
            o.write(include)
        av += ['--include_list', p]
    if '--json_file' not in av:
        av += ['--json_file', 'zonedb.json']
    kind, exc, text = call_main(t, av, timeout, ws.out)
    out = {}
    for root, _, names in os.walk(ws.out):
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, ws.out)] = f.read()
    return Result(out, exc, kind, text, av)
