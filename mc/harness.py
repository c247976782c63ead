"""Shared machinery of all checks: workers, counters, violations with replay
files, known findings, evidence.

A check module defines
    ID, BOUNDS (text), ASSUMPTIONS (list)
    def check(ctx): ...           explores, calls ctx.pmap / ctx.merge
    def replay(payload): ...      re-runs one stored counterexample, returns
                                  a list of messages (empty = holds)
Workers return Out objects.
"""
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
MAX_REPORTED = 5
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Out:
    """What a worker found."""
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.viol = []       # (key, message, payload)
        self.samples = []
        self.outcomes = {}   # outcome label -> count
        self.extra = {}      # summed counters

    def bad(self, key, msg, payload):
        if len(self.viol) < 50:
            self.viol.append((key, msg, payload))

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.viol += o.viol
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


def _call(args):
    f, item = args
    try:
        from . import runner
        n = runner.RUNS
        o = f(item)
        o.transitions += runner.RUNS - n
        o.add('compiles', runner.RUNS - n)
        return o
    except KeyboardInterrupt:
        raise
    except BaseException:       # includes Hang escaping a harness
        o = Out()
        tb = traceback.format_exc()
        o.bad('harness:' + tb.strip().split('\n')[-1][:80],
              'output of the code under test could not be processed:\n' + tb,
              {'trace': tb})
        return o


class Ctx(Out):
    def __init__(self, prop, tier, seed):
        super().__init__()
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = 780 if tier == 'thorough' else 240
        self.complete = True
        self.caps = []
        self.notes = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        return self.budget - (time.time() - self.t0)

    def cap(self, text):
        """Record that a bound was cut short."""
        self.complete = False
        self.caps.append(text)

    def pmap(self, func, items, label=''):
        """Run func over items in worker processes and merge the Outs, in
        order.  Stops early (recorded as a cap) when the time budget ends."""
        items = list(items)
        if not items:
            return
        n = min(NPROC, len(items))
        if n == 1 or os.environ.get('VERIF_SERIAL'):
            for i, it in enumerate(items):
                self.merge(_call((func, it)))
                if self.left() < 0:
                    self.cap('%s: time budget after %d of %d parts' %
                             (label, i + 1, len(items)))
                    break
            return
        mp = multiprocessing.get_context('fork')
        with mp.Pool(n) as pool:
            it = pool.imap(_call, [(func, x) for x in items], 1)
            for i in range(len(items)):
                try:
                    o = it.next(max(5.0, self.left() + 30))
                except multiprocessing.TimeoutError:
                    self.cap('%s: time budget after %d of %d parts' %
                             (label, i, len(items)))
                    pool.terminate()
                    break
                self.merge(o)
                if self.left() < 0 and i + 1 < len(items):
                    self.cap('%s: time budget after %d of %d parts' %
                             (label, i + 1, len(items)))
                    pool.terminate()
                    break
            else:
                pool.close()
                pool.join()


# --- known findings --------------------------------------------------------

def known_findings(prop):
    """Lines 'known: property=C07 key=<key> :: text' -> [(key, text)]"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$',
                         line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# --- running a check -------------------------------------------------------

def load_module(prop):
    import importlib
    return importlib.import_module('mc.checks.' + prop.lower())


def write_replay(prop, i, key, msg, payload):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (prop, i))
    with open(path, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'key': key, 'message': msg,
                   'payload': payload}, f, indent=1, default=str)
    return path


def run(prop, tier, seed):
    os.makedirs(EVID, exist_ok=True)
    d = os.path.join(EVID, 'replays')
    if os.path.isdir(d):
        for n in os.listdir(d):
            if n.startswith(prop + '-'):
                os.remove(os.path.join(d, n))
    ctx = Ctx(prop, tier, seed)
    mod = load_module(prop)
    try:
        from . import runner
        runner.load()
    except BaseException:
        tb = traceback.format_exc()
        ctx.bad('import', 'the compiler cannot be imported:\n' + tb,
                {'trace': tb})
    else:
        try:
            mod.check(ctx)
        except KeyboardInterrupt:
            raise
        except BaseException:
            tb = traceback.format_exc()
            ctx.bad('harness:' + tb.strip().split('\n')[-1][:80],
                    'output of the code under test could not be processed:\n'
                    + tb, {'trace': tb})
    known = known_findings(prop)
    hit = {}
    fresh = []
    for key, msg, payload in ctx.viol:
        for k, text in known:
            if k == key:
                hit[k] = text
                break
        else:
            fresh.append((key, msg, payload))
    for k, text in known:
        print('KNOWN-FINDING: property=%s %s [%s]%s' % (
            prop, text, k, '' if k in hit else ' (not reached in this tier)'))
    seen = set()
    shown = 0
    for key, msg, payload in fresh:
        if key in seen:
            continue
        seen.add(key)
        path = write_replay(prop, shown, key, msg, payload)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  key: %s' % key)
        for line in msg.split('\n')[:25]:
            print('  ' + line)
        shown += 1
        if shown >= MAX_REPORTED:
            break
    wall = time.time() - ctx.t0
    cov = {
        'states': ctx.states,
        'transitions': ctx.transitions,
        'traces_validated_against_impl': ctx.traces,
        'samples': ctx.samples[:6],
        'outcomes': ctx.outcomes,
        'exhaustive': ctx.complete,
        'bounds': getattr(mod, 'BOUNDS', ''),
    }
    if ctx.caps:
        cov['caps_hit'] = ctx.caps
    cov.update(ctx.extra)
    cov.update(ctx.notes)
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': len(fresh)}
    tmp = os.path.join(EVID, prop + '.json.tmp')
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, os.path.join(EVID, prop + '.json'))
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d %s '
          'violations=%d known=%d wall=%.1fs' % (
              prop, tier, ctx.states, ctx.transitions, ctx.traces,
              len(ctx.outcomes), 'exhaustive' if ctx.complete else 'CAPPED',
              len(fresh), len(hit), wall))
    sys.stdout.flush()
    return 1 if fresh else 0
