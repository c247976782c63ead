"""The committed copy of the real TZDB region files."""
import functools
import os

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'tzdata')


@functools.lru_cache(None)
def real_tzdb():
    out = {}
    for n in sorted(os.listdir(DIR)):
        with open(os.path.join(DIR, n), encoding='utf-8') as f:
            out[n] = f.read()
    return out
