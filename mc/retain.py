"""Which eras and rules of a source belong to the years [start, until): the
documented retention rule."""
from . import cal


def kept_eras(eras, start, until):
    """-> (indices kept, cut below, cut above).  eras: tzmodel.Era list.  An
    era is kept when it overlaps [start - 1, until + 1]."""
    out = []
    low = high = False
    for i, e in enumerate(eras):
        begin = eras[i - 1].until[0] if i else None
        if e.until is not None and e.until[0] < start - 1:
            low = True
        elif begin is not None and begin > until + 1:
            high = True
        else:
            out.append(i)
    return out, low, high


def last_date(r):
    """(month number since year 0, day) of a rule in its last year."""
    y, m, d = cal.civil(cal.resolve(r.to, r.month, r.on))
    return y * 12 + m, d


def kept_rules(rules, start, until):
    """-> (indices kept, cut below, cut above).  A rule is kept when it
    overlaps [start - 1, until + 1), and so are the latest earlier ones: the
    last month with any, and the end of the month before it if the latest is
    on the first two days of its month (AT can move it by that much)."""
    lo, hi = start - 1, until + 1
    prior = [last_date(r) for r in rules if r.to < lo]
    last = max(prior) if prior else None
    out = []
    low = high = False
    for i, r in enumerate(rules):
        if r.to < lo:
            m, d = last_date(r)
            if m == last[0] or m == last[0] - 1 and last[1] <= 2 and d >= 27:
                out.append(i)
            else:
                low = True
        elif r.frm >= hi:
            high = True
        else:
            out.append(i)
    return out, low, high
