"""Reference calendar arithmetic (independent of the code under test and of the
datetime module).  Proleptic Gregorian, any integer year."""

MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
          'Nov', 'Dec']
DOWS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']  # 1..7


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_days(y, m):
    if m == 2:
        return 29 if is_leap(y) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def days(y, m, d):
    """Days since 1970-01-01.  d may be outside the month."""
    yy = y - 1 if m <= 2 else y
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468 + d - 1


def civil(n):
    """(y, m, d) of day number n."""
    n += 719468
    era = n // 146097
    doe = n - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return (y + (m <= 2), m, d)


def dow(n):
    """ISO day of week (Mon=1..Sun=7) of day number n (1970-01-01 = Thu)."""
    return (n + 3) % 7 + 1


def resolve(y, m, on):
    """Day number selected by an ON/UNTIL day spec in (year, month).
    on: ('d', day) | ('last', dow) | ('ge', dow, day) | ('le', dow, day)"""
    k = on[0]
    if k == 'd':
        return days(y, m, on[1])
    if k == 'last':
        n = days(y, m, month_days(y, m))
        return n - (dow(n) - on[1]) % 7
    n = days(y, m, on[2])
    if k == 'ge':
        return n + (on[1] - dow(n)) % 7
    return n - (dow(n) - on[1]) % 7


def parse_on(s):
    """TZDB ON text -> spec, or None if it is not a day spec."""
    if s.isdigit():
        return ('d', int(s))
    if s.startswith('last') and s[4:] in DOWS:
        return ('last', DOWS.index(s[4:]) + 1)
    for op, k in (('>=', 'ge'), ('<=', 'le')):
        if op in s:
            a, b = s.split(op, 1)
            if a in DOWS and b.isdigit():
                return (k, DOWS.index(a) + 1, int(b))
    return None


def on_from_codes(d_o_w, d_o_m):
    """Decode the (onDayOfWeek, onDayOfMonth) pair of the emitted databases."""
    if d_o_w == 0:
        return ('d', d_o_m)
    if d_o_m == 0:
        return ('last', d_o_w)
    if d_o_m > 0:
        return ('ge', d_o_w, d_o_m)
    return ('le', d_o_w, -d_o_m)


def hms(s):
    """TZDB time text [-]h[:mm[:ss]] -> seconds."""
    sign = 1
    if s.startswith('-'):
        sign, s = -1, s[1:]
    p = [int(x) for x in s.split(':')]
    while len(p) < 3:
        p.append(0)
    return sign * (p[0] * 3600 + p[1] * 60 + p[2])


def trunc0(a, g):
    """Truncate a toward zero to a multiple of g."""
    return (abs(a) // g) * g * (1 if a >= 0 else -1)
