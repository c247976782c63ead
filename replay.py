#!/usr/bin/env python3
"""replay.py <replay file>   re-run one stored counterexample, without the
explorer, against /repo.  Exit 1 if it still fails, 0 if it holds."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    d = json.load(open(sys.argv[1], encoding='utf-8'))
    from mc import harness
    mod = harness.load_module(d['property'])
    print('stored: %s' % d['message'])
    msgs = mod.replay(d['payload'])
    for m in msgs:
        print('REPRODUCED: %s' % m)
    if not msgs:
        print('holds now')
    return 1 if msgs else 0


if __name__ == '__main__':
    sys.exit(main())
