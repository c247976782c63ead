#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]   decide one property.
Exit 0 = held on everything explored, 1 = VIOLATION printed."""
import os
import sys

os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def steady():
    """The same process environment wherever the check is started from."""
    for fd in (0, 1, 2):
        try:
            os.fstat(fd)
        except OSError:
            os.open(os.devnull, os.O_RDWR)      # the lowest free one
    os.umask(0o022)
    dirs = [d for d in os.environ.get('PATH', '').split(':') if d]
    for d in ('/usr/local/bin', '/usr/bin', '/bin', '/usr/local/go/bin'):
        if d not in dirs:
            dirs.append(d)
    os.environ['PATH'] = ':'.join(dirs)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    from mc import harness
    return harness.run(prop, tier, seed)


if __name__ == '__main__':
    steady()
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
