"""Explicit-state exploration.

A state is reached by a history of operations.  `reach` enumerates breadth
first every state reachable within a depth, deduplicated by a canonical form,
and counts states and transitions.  Nothing is sampled: either every state
within the bound is returned, or the caller's cap was hit, in which case
`complete` is False and `depth_done` says up to which depth it is complete.
"""
import collections

Reach = collections.namedtuple(
    'Reach', 'states transitions complete depth_done')


def reach(init, successors, depth, canon=None, cap=None):
    """successors(state) -> iterable of states.  Returns Reach with `states` a
    list in breadth-first order (simplest first)."""
    canon = canon or (lambda s: s)
    seen = set()
    out = []
    frontier = []
    for s in init:
        k = canon(s)
        if k not in seen:
            seen.add(k)
            out.append(s)
            frontier.append(s)
    trans = 0
    for d in range(depth):
        nxt = []
        for s in frontier:
            for n in successors(s):
                trans += 1
                k = canon(n)
                if k not in seen:
                    if cap is not None and len(seen) >= cap:
                        return Reach(out, trans, False, d)
                    seen.add(k)
                    out.append(n)
                    nxt.append(n)
        frontier = nxt
        if not frontier:
            break
    return Reach(out, trans, True, depth)


def subsets(items, lo, hi):
    """All subsets of size lo..hi as sorted tuples, by breadth-first growth."""
    n = len(items)

    def succ(s):
        start = s[-1] + 1 if s else 0
        for i in range(start, n):
            yield s + (i,)
    r = reach([()], succ, hi)
    states = [tuple(items[i] for i in s) for s in r.states if len(s) >= lo]
    return Reach(states, r.transitions, r.complete, r.depth_done)


def batches(items, n):
    for i in range(0, len(items), n):
        yield items[i:i + n]
