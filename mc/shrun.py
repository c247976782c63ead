"""Run the shell drivers in a scratch world, as an unprivileged user, with
stand-ins for the commands they call: every call is numbered and can be made
to fail or to kill the script, before or after its effect."""
import ctypes
import os
import re
import shutil
import signal
import stat
import subprocess
import tempfile

REPO = os.environ.get('ACEMC_REPO', '/repo')
ZONEFILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward',
             'etcetera', 'europe', 'northamerica', 'southamerica']
NOBODY = 65534
COMMANDS = ['cp', 'git', 'rm', 'mv', 'mkdir', 'rmdir', 'find', 'rsync', 'ln',
            'tar', 'unlink', 'touch', 'mktemp', 'install', 'dirname', 'chmod',
            'realpath', 'basename', 'cat', 'ls', 'xargs', 'tee', 'readlink']

# The stand-in.  $CTL holds: n (calls so far), plan ("number mode" lines), log,
# pid (of the script).  Arguments outside the scratch world are refused.
STUB = r'''#!/bin/bash
ctl='@CTL@'; world='@SCRATCH@/w'; name=@NAME@
n=$(( $(<"$ctl/n") + 1 )); echo $n > "$ctl/n"
{ printf '%s' "$name"; printf '\x1f%s' "$@"; printf '\x1e'; } >> "$ctl/log"
mode=$(while read -r k m; do [[ $k == $n ]] && echo "$m"; done < "$ctl/plan")
outside() {
    local a p
    case $name in dirname|basename|realpath|readlink) return 1 ;; esac
    for a in "$@"; do
        [[ $a == -* && $a != */* ]] && continue
        [[ $a == */* || -e $a || -L $a ]] || continue
        p=$(/usr/bin/realpath -m -s -- "$a")
        [[ $p == "$world" || $p == "$world"/* ]] || { echo "$name $a" >> \
            "$ctl/escape"; return 0; }
    done
    return 1
}
effect() {
    case $name in
    @SPECIAL@
    esac
    local x
    for x in /usr/bin/$name /bin/$name; do
        [[ -x $x ]] && { "$x" "$@"; return; }
    done
    echo "$name: not available" >&2; return 127
}
half() {    # a part of the effect
    case $name in
    cp|git) local d="${@: -1}"; /usr/bin/mkdir "$d" && \
        echo half > "$d/africa"; echo half > "$d/Makefile" ;;
    rm) local a; for a in "$@"; do [[ $a == -* ]] && continue
        if [[ -d $a && ! -L $a ]]; then
            (cd -- "$a" 2>/dev/null && for f in *; do
                /usr/bin/rm -rf -- "./$f"; break; done)
        else /usr/bin/rm -f -- "$a"; fi; break; done ;;
    esac
    return 0
}
hit() {     # end the script
    case $1 in
    g*) kill -${1#g} 0; sleep 5 ;;
    *) kill -$1 $(<"$ctl/pid"); ;;
    esac
}
if outside "$@"; then exit 97; fi
case $mode in
'') effect "$@"; exit ;;
fail) exit 1 ;;
failafter) effect "$@"; exit 1 ;;
half) half "$@"; exit 1 ;;
half:*) half "$@"; hit ${mode#half:}; exit 0 ;;
before:*) hit ${mode#before:}; exit 0 ;;
after:*) effect "$@"; r=$?; hit ${mode#after:}; exit $r ;;
esac
exit 96
'''
# git clone --branch TAG SRC DST, from SRC/.tags/TAG
FAKE_GIT = r'''git) local t='' i; for ((i=1; i<=$#; i++)); do
        [[ ${!i} == --branch || ${!i} == -b ]] && { local k=$((i+1))
            t=${!k}; }; done
        local d="${@: -1}" s="${@: -2:1}"
        [[ -e $d && -n $(/bin/ls -A "$d") ]] && return 128
        [[ -n $t && $t != */* && -d $s/.tags/$t ]] || return 128
        /usr/bin/mkdir -p "$d" && /usr/bin/cp -a "$s/.tags/$t/." "$d/" && \
            /usr/bin/mkdir "$d/.git" && echo x > "$d/.git/HEAD"; return ;;'''
# tzcompiler.py: remember the arguments and what the input directory looked like
COMPILE = r'''tzcompiler.py) local i in='' o=''
        for ((i=1; i<=$#; i++)); do local k=$((i+1))
            [[ ${!i} == --input_dir && -z $in ]] && in=${!k}
            [[ ${!i} == --output_dir && -z $o ]] && o=${!k}; done
        { printf '%s' "$PWD"; printf '\x1f%s' "$@"; printf '\x1e'; } \
            >> "$ctl/compile"
        /usr/bin/cp -a "$in" "$ctl/seen" || return 3
        echo out > "$o/zone_infos.h"; echo '{}' > "$o/zonedb.json"
        return 0 ;;'''


class World:
    def __init__(self, real_git=False):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='acesh.',
                                                     dir='/tmp'))
        self.real_git = real_git
        os.chmod(self.dir, 0o755)
        self.root = os.geteuid() == 0
        self.ctl, self.w = self.dir + '/ctl', self.dir + '/w'
        os.mkdir(self.dir + '/bin')
        os.makedirs(self.dir + '/tool/src/acetimetools')
        for s in ('tzcompiler.sh', 'copytz.sh'):
            shutil.copy(os.path.join(REPO, s), self.dir + '/tool/' + s)
            os.chmod(self.dir + '/tool/' + s, 0o755)
        for c in COMMANDS:
            self.stub(self.dir + '/bin/' + c, c)
        self.stub(self.dir + '/tool/src/acetimetools/tzcompiler.py',
                  'tzcompiler.py')
        libc = ctypes.CDLL(None, use_errno=True)
        libc.prctl(36, 1, 0, 0, 0)      # adopt orphans, to wait for them

    def stub(self, path, name):
        sp = {'git': '' if self.real_git else FAKE_GIT,
              'tzcompiler.py': COMPILE}.get(name, '')
        t = STUB.replace('@SPECIAL@', sp).replace(
            '@CTL@', self.ctl).replace('@SCRATCH@', self.dir).replace(
                '@NAME@', name)
        with open(path, 'w') as f:
            f.write(t)
        os.chmod(path, 0o755)

    def own(self, path):
        if not self.root:
            return
        for d, ds, fs in os.walk(path):
            os.lchown(d, NOBODY, NOBODY)
            for x in ds + fs:
                os.lchown(os.path.join(d, x), NOBODY, NOBODY)

    def fresh(self):
        """a new empty world"""
        for d in (self.ctl, self.w):
            force_remove(d)
            os.mkdir(d)
        self.own(self.ctl)

    def reset_ctl(self, plan=()):
        for f in ('n', 'plan', 'log', 'pid', 'escape', 'compile'):
            try:
                os.unlink(self.ctl + '/' + f)
            except FileNotFoundError:
                pass
        force_remove(self.ctl + '/seen')
        with open(self.ctl + '/n', 'w') as f:
            f.write('0\n')
        with open(self.ctl + '/plan', 'w') as f:
            f.write(''.join('%d %s\n' % s for s in plan))
        for f in ('n', 'plan'):
            os.chmod(self.ctl + '/' + f, 0o666)

    def run(self, script, args, cwd, plan=(), env=None):
        """-> (status, calls, compile calls, escapes)"""
        self.reset_ctl(plan)
        e = {'PATH': self.dir + '/bin' + (':/usr/bin:/bin' if self.root
                                          else ''),
             'HOME': self.ctl, 'LC_ALL': 'C', 'PWD': cwd,
             'GIT_CONFIG_NOSYSTEM': '1'}
        e.update(env or {})

        def drop():
            # a signal ignored here (nohup) would be ignored by the script
            for n in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT,
                      signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD):
                signal.signal(n, signal.SIG_DFL)
            signal.pthread_sigmask(signal.SIG_SETMASK, ())
            if self.root:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        p = subprocess.Popen(
            ['/bin/bash', '-c', 'echo $$ > "$0/pid"; exec /bin/bash "$@"',
             self.ctl, script] + list(args), cwd=cwd, env=e,
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, start_new_session=True,
            preexec_fn=drop)
        try:
            st = p.wait(60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            st = p.wait()
            st = 'hang'
        while True:                     # whoever is left
            try:
                os.waitpid(-1, 0)
            except ChildProcessError:
                break
        return (st, self.records('log'), self.records('compile'),
                read(self.ctl + '/escape').split('\n')[:-1])

    def records(self, name):
        t = read(self.ctl + '/' + name)
        return [r.split('\x1f') for r in t.split('\x1e')[:-1]]

    def close(self):
        force_remove(self.dir)


def read(path):
    try:
        with open(path, errors='surrogateescape', newline='') as f:
            return f.read()
    except FileNotFoundError:
        return ''


def force_remove(path):
    """remove a scratch tree, read-only directories included"""
    assert re.match(r'/tmp/acesh\.\w+(/|$)', path), path
    if os.path.islink(path) or not os.path.isdir(path):
        if os.path.lexists(path):
            os.unlink(path)
        return
    for d, ds, fs in os.walk(path):
        os.chmod(d, 0o755)
    shutil.rmtree(path)


def snapshot(top):
    """{relative path: what it is}"""
    out = {}

    def walk(d, rel):
        for x in sorted(os.listdir(d)):
            p, r = d + '/' + x, rel + x
            s = os.lstat(p)
            k = stat.S_IFMT(s.st_mode)
            if k == stat.S_IFDIR:
                out[r] = ('dir', s.st_mode)
                walk(p, r + '/')
            elif k == stat.S_IFLNK:
                out[r] = ('link', os.readlink(p))
            elif k == stat.S_IFREG:
                with open(p, 'rb') as f:
                    out[r] = ('file', s.st_mode, int(s.st_mtime), f.read())
            else:
                out[r] = ('other', s.st_mode)
    walk(top, '')
    return out
