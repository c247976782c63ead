"""Child process of C12: compile the jobs given on stdin under this process'
PYTHONHASHSEED; print the digests and the iteration orders of probe sets."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from mc import canon, runner
    job = json.load(sys.stdin)
    runner.load()
    out = {'orders': [list(set(p)) for p in job['probes']], 'digests': []}
    for files, argv, inc in job['jobs']:
        r = runner.run_main(files, argv, include=inc)
        c = canon.canon(r)
        out['digests'].append({n: canon.digest(t) for n, t in c.items()})
    json.dump(out, sys.stdout)


main()
