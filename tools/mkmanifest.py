#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python -B run.py'

TECH = {
    'default': 'bounded exhaustive enumeration of compiler inputs on the real '
               'code, compared state by state with an executable reference '
               'model',
}


def main():
    checks, missing = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)['id']
        if not os.path.exists(os.path.join(HERE, 'mc', 'checks',
                                           p.lower() + '.py')):
            missing.append(p)
            continue
        m = importlib.import_module('mc.checks.' + p.lower())
        checks.append({
            'property': p,
            'quick_cmd': '%s %s quick' % (PY, p),
            'thorough_cmd': '%s %s thorough' % (PY, p),
            'technique': getattr(m, 'TECHNIQUE', TECH['default']),
            'level': 'model_checking',
            'level_note': m.BOUNDS,
        })
    doc = {
        'version': 1,
        'setup_cmd': "/opt/venv/bin/python -B -c \"import sys; "
                     "sys.path.insert(0, '.'); from mc import runner; "
                     "runner.load()\"",
        'checks': checks,
        'not_applicable': [
            {'property': p, 'reason': 'check not built yet'}
            for p in missing],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    print('%d checks, missing %s' % (len(checks), missing))


main()
