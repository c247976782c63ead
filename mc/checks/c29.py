"""C29: every field of the JSON database is its documented function of the
source."""
import itertools
import json
from .. import cal, explore, mix, runner, sweep, tzmodel
from .. import universe as u
from ..zonesrc import real_tzdb
from .c06 import MORE as BIG, grans, make

ID = 'C29'
BOUNDS = (
    'A: the sweeps of every field of eras and rules of C07 (STDOFF, UNTIL, '
    'AT by the minute, high format also by the second; every SAVE with every '
    'remainder and suffix; every day; years; letters; formats), in basic, '
    'extended and complete scope, for the Arduino, C, Python and Go '
    'databases; B: every combination of the 5 time fields over values on and '
    'off the granularities, not strict, under 8 granularity options; C: the '
    'era histories and rule sets of C01 (eras and rules cut by the window), '
    'and a last era cut by the window with its UNTIL in 14 spellings; '
    'D: every set of 1-2 zone kinds with links; E: the real TZDB. Every field '
    'of every record of zonedb.json is compared with its value computed from '
    'the source text, and every index map with the strings used')
ASSUMPTIONS = [
    'the field meanings are those of the data dictionary in '
    'datatypes/attyping.py',
    'ON and raw_line of the synthetic anchor rule are not judged, nor is the '
    'per-rule "truncated" mark (C02 judges the policy and zone marks)',
]
TECHNIQUE = ('explicit enumeration of source databases; each is compiled by '
             'the real compiler and every JSON field compared with the '
             'reference reading of the source')
MIN, MAX_TO, MAX_UNTIL = -32767, 32766, 32767
SUFCODE = {'w': 0, 's': 16, 'u': 32}
BASE = 2100


def suffix(s):
    return {'': 'w', 'g': 'u', 'z': 'u'}.get(s, s)


def tiny(kind, year, base=BASE):
    hi, inf = (126, MAX_TO) if kind == 'rule' else (127, MAX_UNTIL)
    if year == MIN:
        return -127
    if year == inf:
        return hi
    return max(-127, min(hi, year - base))


def dow_pair(on):
    if on[0] == 'd':
        return 0, on[1]
    if on[0] == 'last':
        return on[1], 0
    return on[1], on[2] if on[0] == 'ge' else -on[2]


def want_era(tok, last, g):
    """Fields of an emitted era with source fields tok."""
    off = cal.hms(tok[0])
    e = tzmodel.parse_era(tok)
    w = {'offset_string': tok[0], 'rules': tok[1], 'format': tok[2],
         'policy_name': e.policy, 'format_short': sweep.short(tok[2]),
         'offset_seconds': off, 'offset_seconds_truncated':
         cal.trunc0(off, g[1]), 'era_delta_seconds': e.save,
         'era_delta_seconds_truncated': cal.trunc0(e.save, g[2])}
    if last:
        w.update(until_year=MAX_UNTIL, until_year_only=True, until_month=1,
                 until_day_string='1', until_day=1, until_time_suffix='w',
                 until_seconds=0, until_seconds_truncated=0)
    else:
        y, day, secs, suf = e.until
        cy, cm, cd = cal.civil(day)
        w.update(until_year=cy, until_year_only=len(tok) == 4,
                 until_month=cm, until_day=cd,
                 until_day_string=tok[5] if len(tok) > 5 else '1',
                 until_time_suffix=suffix(suf), until_seconds=secs,
                 until_seconds_truncated=cal.trunc0(secs, g[0]))
        if len(tok) > 6:
            w['until_time'] = tzmodel.split_suffix(tok[6])[0]
    w['until_year_tiny'] = tiny('until', w['until_year'])
    codes(w, 'offset_seconds', w['offset_seconds_truncated'])
    codes(w, 'until_time', w['until_seconds_truncated'],
          SUFCODE[w['until_time_suffix']])
    o, d = w['offset_seconds_truncated'], w['era_delta_seconds_truncated']
    w['offset_code'], w['offset_minute'] = o // 900, o % 900 // 60
    w['delta_code'] = d // 900
    w['delta_code_encoded'] = (w['offset_minute'] << 4) + d // 900 + 4
    w['delta_minutes'] = w['go_era_delta_minutes'] = d // 60
    go(w, 'go_offset_seconds', o)
    go(w, 'go_until_seconds', w['until_seconds_truncated'],
       SUFCODE[w['until_time_suffix']])
    return w


def codes(w, name, v, suf=0):
    if name == 'offset_seconds':
        w[name + '_code'], w[name + '_remainder'] = v // 15, v % 15
        return
    w[name + '_code'], w[name + '_minute'] = v // 900, v % 900 // 60
    w[name + '_modifier'] = v % 900 // 60 + suf
    w[name + '_seconds_code'], w[name + '_seconds_remainder'] = v // 15, v % 15
    w[name + '_seconds_modifier'] = v % 15 + suf


def go(w, name, v, suf=None):
    w[name + '_code'], w[name + '_remainder'] = v // 15, v % 15
    if suf is not None:
        w[name + '_suffix_value'] = suf
        w[name + '_modifier'] = v % 15 + suf


def want_rule(tok, g):
    r = tzmodel.parse_rule(tok)
    dw, dm = dow_pair(r.on)
    w = {'from_year': r.frm, 'to_year': r.to, 'in_month': r.month,
         'on_day': tok[6], 'at_time': tzmodel.split_suffix(tok[7])[0],
         'at_time_suffix': suffix(r.suf), 'delta_offset': tok[8],
         'letter': r.letter, 'on_day_of_week': dw, 'on_day_of_month': dm,
         'at_seconds': r.at, 'at_seconds_truncated': cal.trunc0(r.at, g[0]),
         'delta_seconds': r.save,
         'delta_seconds_truncated': cal.trunc0(r.save, g[2])}
    return more_rule(w)


def want_anchor(letter):
    return more_rule({
        'from_year': MIN, 'to_year': MIN, 'in_month': 1, 'at_time_suffix': 'w',
        'letter': letter, 'on_day_of_week': 0, 'on_day_of_month': 1,
        'at_seconds': 0, 'at_seconds_truncated': 0, 'delta_seconds': 0,
        'delta_seconds_truncated': 0, 'anchor': True})


def more_rule(w):
    suf = SUFCODE[w['at_time_suffix']]
    at, d = w['at_seconds_truncated'], w['delta_seconds_truncated']
    w['from_year_tiny'] = tiny('rule', w['from_year'])
    w['to_year_tiny'] = tiny('rule', w['to_year'])
    codes(w, 'at_time', at, suf)
    w['delta_code'], w['delta_code_encoded'] = d // 900, d // 900 + 4
    w['delta_minutes'] = w['go_delta_minutes'] = d // 60
    go(w, 'go_at_seconds', at, suf)
    return w


RAW_E = ('offset_string rules format until_year until_year_only until_month '
         'until_day_string until_time until_time_suffix raw_line format_short '
         'offset_seconds offset_seconds_truncated policy_name '
         'era_delta_seconds era_delta_seconds_truncated until_day '
         'until_seconds until_seconds_truncated').split()
RAW_R = ('from_year to_year in_month on_day at_time at_time_suffix '
         'delta_offset letter raw_line on_day_of_week on_day_of_month '
         'at_seconds at_seconds_truncated delta_seconds '
         'delta_seconds_truncated truncated').split()
LOW_E = ('offset_code offset_minute delta_code delta_code_encoded '
         'until_year_tiny until_time_code until_time_minute '
         'until_time_modifier').split()
HIGH_E = ('offset_seconds_code offset_seconds_remainder '
          'until_time_seconds_code until_time_seconds_remainder '
          'until_time_seconds_modifier delta_minutes').split()
LOW_R = ('from_year_tiny to_year_tiny at_time_code at_time_minute '
         'at_time_modifier delta_code delta_code_encoded '
         'letter_index').split()
HIGH_R = ('at_time_seconds_code at_time_seconds_remainder '
          'at_time_seconds_modifier delta_minutes letter_index').split()
GO_E = ('go_offset_seconds_code go_offset_seconds_remainder '
        'go_era_delta_minutes go_until_seconds_code '
        'go_until_seconds_remainder go_until_seconds_suffix_value '
        'go_until_seconds_modifier').split()
GO_R = ('go_at_seconds_code go_at_seconds_remainder '
        'go_at_seconds_suffix_value go_at_seconds_modifier '
        'go_delta_minutes').split()
FREE = {'truncated', 'letter_index', 'raw_line', 'anchor'}


def required(lang, scope):
    e, r = list(RAW_E), list(RAW_R)
    if lang in ('arduino', 'c'):
        e += HIGH_E if scope == 'complete' else LOW_E
        r += HIGH_R if scope == 'complete' else LOW_R
    if lang == 'go':
        e += GO_E
        r += GO_R
    return e, r


def differs(got, want, need):
    """'' or how the record got differs from the fields wanted."""
    for k in need:
        if k not in got:
            return 'no field %s' % k
    for k, v in got.items():
        if k in want:
            if v != want[k] or type(v) is not type(want[k]):
                return '%s is %r, the source gives %r' % (k, v, want[k])
        elif k not in FREE and k != 'until_time' and k not in (
                'on_day', 'at_time', 'delta_offset'):
            return 'unknown field %s = %r' % (k, v)
    return ''


def lines(text):
    """({zone: [tokens]}, {policy: [tokens]}) of a source text."""
    zones, pols, cur = {}, {}, None
    for line in tzmodel.logical_lines(text):
        t = line.split()
        if t[0] == 'Rule':
            pols.setdefault(t[1], []).append(t)
        elif t[0] == 'Zone':
            cur = zones.setdefault(t[1], [])
            cur.append(t[2:])
        elif t[0] == 'Link':
            pass
        elif line[0].isspace():
            cur.append(t)
    return zones, pols


def run_of(toks, recs, same):
    """Start of the run of source records recs come from, or None."""
    for k in range(len(toks) - len(recs) + 1):
        if all(same(a, b) for a, b in zip(toks[k:], recs)):
            return k


def era_line(tok, rec):
    r = rec.get('raw_line', '').split()
    if r[:1] == ['Extended:']:      # UNTIL moved to infinity by the window
        r = r[1:]
    return r == tok or (r[:1] == ['Zone'] and r[2:] == tok)


def zone(toks, info, g, need):
    """'' or what is wrong with an emitted zone."""
    eras = info['eras']
    k = run_of(toks, eras, era_line)
    if k is None:
        return 'raw lines %s are not a run of %s' % (
            [e.get('raw_line') for e in eras], toks)
    for n, e in enumerate(eras):
        last = n == len(eras) - 1
        d = differs(e, want_era(toks[k + n], last, g), need)
        if d:
            return 'era %d %r: %s' % (n, e['raw_line'], d)
    return ''


def policy(toks, pol, g, need):
    rules = pol['rules']
    by = {}
    for t in toks:
        by.setdefault(tuple(t), 0)
        by[tuple(t)] += 1
    for n, r in enumerate(rules):
        raw = tuple(r.get('raw_line', '').split())
        if r.get('from_year') == MIN:
            # the anchor: standard time before the first rule
            w = want_anchor(r.get('letter'))
            d = differs(r, w, need + ['anchor'])
        elif by.get(raw, 0) < 1:
            d = 'not a rule of the source (or twice)'
        else:
            by[raw] -= 1
            d = differs(r, want_rule(list(raw), g), need)
            if not d and r.get('anchor'):
                d = 'marked as anchor'
        if d:
            return 'rule %d %r: %s' % (n, r.get('raw_line'), d)
    return ''


def maps(j, lang):
    """[what is wrong with the database-wide maps]"""
    bad = []
    zones, pols = j['zones_map'], j['policies_map']
    letters = {r['letter'] for p in pols.values() for r in p['rules']}
    short = {e['format_short'] for z in zones.values() for e in z['eras']}
    gofmt = {e['format'].replace('%s', '%') for z in zones.values()
             for e in z['eras']}
    names = sorted(list(zones) + list(j['links_map']))
    ids = dict(j['zone_ids'])
    ids.update(j['link_ids'])

    def index(name, used, extra=('',)):
        m = j[name]
        if not used <= set(m) or set(m) - used - set(extra):
            bad.append('%s holds %s, used are %s' % (
                name, sorted(m)[:9], sorted(used)[:9]))
        elif [m[k] for k in sorted(m)] != list(range(len(m))):
            bad.append('%s is not the sorted order: %s' % (name, m))

    def offsets(name, used, extra=('',)):
        m = dict(j[name])
        end = m.pop('~', None)
        if not used <= set(m) or set(m) - used - set(extra):
            bad.append('%s holds %s, used are %s' % (
                name, sorted(m)[:9], sorted(used)[:9]))
            return
        o = 0
        for i, k in enumerate(sorted(m)):
            if list(m[k]) != [i, o]:
                bad.append('%s[%r] is %s, expected %s' % (name, k, m[k],
                                                          [i, o]))
                return
            o += len(k)
        if list(end or ()) != [len(m), o]:
            bad.append('%s ends at %s, expected %s' % (name, end,
                                                       [len(m), o]))

    def sizes(name, items, first, second):
        m = dict(j[name])
        n = o = 0
        want = {}
        if first:
            want[''] = [0, 0, 0]
            n = 1
        for k in sorted(items):
            c = len(items[k][second])
            want[k] = [n, o, c]
            n += 1
            o += c
        if {k: list(v) for k, v in m.items()} != want:
            bad.append('%s is %s, expected %s' % (name, m, want))
    if lang in ('arduino', 'c'):
        index('letters_map', letters)
        index('formats_map', short)
        for p in pols.values():
            for r in p['rules']:
                if j['letters_map'].get(r['letter']) != r['letter_index']:
                    bad.append('letter_index of %r is %s' % (
                        r['letter'], r['letter_index']))
        frag = j['fragments_map']
        if sorted(frag.values()) != list(range(1, len(frag) + 1)):
            bad.append('fragments_map is %s' % frag)
        if sorted(j['compressed_names']) != (
                names if j['compress'] else []):
            bad.append('compressed_names has %s' % sorted(
                j['compressed_names'])[:9])
        for n, c in j['compressed_names'].items():
            back = c
            for f, i in frag.items():
                back = back.replace(chr(i), f.rstrip('/') + '/')
            if back != n:
                bad.append('compressed name of %s is %r' % (n, c))
    if lang == 'go':
        offsets('go_letters_map', letters)
        offsets('go_formats_map', gofmt)
        offsets('go_names_map', set(names), ())
        sizes('go_policy_index_size_map', pols, True, 'rules')
        sizes('go_info_index_size_map', zones, False, 'eras')
        want = {n: i for i, n in enumerate(sorted(names, key=ids.get))}
        if j['go_zone_and_link_index_map'] != want:
            bad.append('go_zone_and_link_index_map')
    z2p = {}
    for z, info in zones.items():
        ps = {e['policy_name'] for e in info['eras']} - {None}
        if ps:
            z2p[z] = sorted(ps)
    got = {z: sorted(p) for z, p in j['zones_to_policies'].items()
           if z in zones and p}
    if got != z2p:
        bad.append('zones_to_policies is %s, expected %s' % (got, z2p))
    for k, m in (('num_zones', zones), ('num_policies', pols),
                 ('num_links', j['links_map'])):
        if j[k] != len(m):
            bad.append('%s is %s' % (k, j[k]))
    return bad


def judge(text, j, lang, scope, g, out, pay, where, only=None):
    zones, pols = lines(text)
    ne, nr = required(lang, scope)
    for z, info in j['zones_map'].items():
        if only is not None and z not in only:
            continue
        out.states += 1
        d = zone(zones.get(z, []), info, g, ne)
        if d:
            out.bad('era', '%s zone %s: %s' % (where, z, d), pay(z, None))
    for p, pol in j['policies_map'].items():
        d = policy(pols.get(p, []), pol, g, nr)
        out.states += 1
        if d:
            out.bad('rule', '%s policy %s: %s' % (where, p, d), pay(None, p))
    for d in maps(j, lang):
        out.bad('map', '%s: %s' % (where, d[:600]), pay(None, None))


def batch_argv(item):
    _, lang, scope, win, opts = item
    more = BIG + ('--nostrict', '--tiny_base_year', str(BASE))
    for k, v in opts:
        more += ('--' + k, str(v))
    return u.argv_for(scope, win[0], win[1], lang, 'zonedb,json', more)


def batch(item):
    """Compile cases together and judge every record."""
    from ..harness import Out
    out = Out()
    cs, lang, scope, win, opts = item
    g = grans(scope, opts)
    argv = batch_argv(item)
    for res, part in u.compile_batch(cs, argv,
                                     prefix='Zone\tA/Good\t1:00\t-\tG\n'):
        if not res.ok:
            out.outcome('refused')      # C01, C03, C07 judge refusals
            continue
        out.traces += len(part)
        out.outcome('compiled', len(part))
        text = 'Zone\tA/Good\t1:00\t-\tG\n' + ''.join(
            u.render(c, i) for i, c in part)
        j = json.loads(res.files['zonedb.json'])

        def pay(z, p):
            for i, c in part:
                if z == u.zname(i) or p in [u.pname(q, i) for q in c.rules]:
                    return {'case': [c.rules, c.eras], 'lang': lang,
                            'scope': scope, 'win': win, 'opts': opts}
            return {'cases': [[i, c.rules, c.eras] for i, c in part],
                    'lang': lang, 'scope': scope, 'win': win, 'opts': opts}
        judge(text, j, lang, scope, g, out, pay, '%s %s' % (lang, scope))
    return out


def whole(item):
    """Compile a whole source and judge it."""
    from ..harness import Out
    out = Out()
    src, lang, scope, win, more = item
    files = real_tzdb() if src is None else {'africa': src}
    argv = u.argv_for(scope, win[0], win[1], lang, 'zonedb,json', BIG + (
        '--tiny_base_year', str(BASE)) + more)
    res = runner.run_main(files, argv)
    if not res.ok:
        out.outcome('refused')
        if src is None:
            out.bad('refused', 'real TZDB %s: %s' % (item, res.exc),
                    {'whole': list(item)})
        return out
    out.traces += 1
    out.outcome('whole databases')
    judge('\n'.join(files.values()), json.loads(res.files['zonedb.json']),
          lang, scope, grans(scope, ()), out,
          lambda z, p: {'whole': list(item)}, '%s %s\n%s' % (
              lang, scope, src or 'real TZDB'))
    return out


def plan(ctx):
    """(items of batch, items of whole): the explored space."""
    t = ctx.thorough
    langs = ('arduino', 'c', 'go', 'python')
    items = []
    for scope in ('basic', 'extended', 'complete'):
        low = scope != 'complete'
        win = (0, 9998) if not low else (1980, 2224)
        level = 0
        rules = [c for _, c in sweep.rule_cases(low, level)]
        eras = [c for _, c in sweep.era_cases(low, level)]
        for n, cs in enumerate((rules, eras)):
            for k, b in enumerate(explore.batches(list(enumerate(cs)), 250)):
                for m, lang in enumerate(langs):
                    if not t and m != (k + n) % 4:
                        continue    # every case in one of the languages
                    items.append((b, lang, scope, win, ()))
    ctx.notes['field sweep batches'] = len(items)
    opts = [(), (('granularity', 900),), (('granularity', 60),),
            (('offset_granularity', 900), ('delta_granularity', 3600)),
            (('until_at_granularity', 1800),),
            (('until_at_granularity', 60), ('offset_granularity', 120)),
            (('delta_granularity', 1800),), (('granularity', 3600),)]
    small = {'off': (3600, 3630, -3630, -2700, 1, 59),
             'rules': (None, 1800, 1199, -660),
             'until': (None, 0, 7200, 7201, 7259, 5430),
             'at': (None, 7200, 7229, 899),
             'save': (None, 1800, 1201, -61)}
    combos = list(dict.fromkeys(
        (tuple(sorted(c.rules.items())), c.eras) for c in (
            make(*v) for v in itertools.product(*small.values()))))
    combos = [u.Case(dict(r), e) for r, e in combos]
    ctx.notes['field combinations'] = len(combos)
    for n, op in enumerate(opts):
        for m, lang in enumerate(langs):
            for scope in ('basic', 'extended', 'complete'):
                if not t and (n + m) % 4 and n:
                    continue
                for b in explore.batches(list(enumerate(combos)), 300):
                    items.append((b, lang, scope, (2000, 2004), op))
    hist, tr = u.era_universe(3, u.BODIES[:4] if t else u.BODIES[:3],
                              u.UNTILS if t else u.UNTILS[::2])
    pols, tr2 = u.policy_universe(0)
    if not t:
        pols = [p for p in pols if len(p) < 3]
    ctx.transitions += tr + tr2
    cut = [u.wrap_eras(h) for h in hist] + [
        u.wrap_policy(p, k % 4) for k, p in enumerate(pols)]
    ctx.notes['histories and rule sets'] = len(cut)
    for k, b in enumerate(explore.batches(list(enumerate(cut)), 250)):
        for m, lang in enumerate(langs):
            if not t and m != k % 4:
                continue
            for scope in ('extended', 'complete'):
                items.append((b, lang, scope, (u.S, u.U), ()))
    # the last era of the window, its UNTIL (in every spelling) moved
    ends = ('', ' Mar', ' Mar 5', ' Mar 31', ' Mar lastSun', ' Mar Sun>=29',
            ' Apr Sun<=3', ' Mar 5 0:00', ' Mar 5 2:30', ' Mar 5 2:30u',
            ' Dec 31 24:00', ' Jan 1 0:00s', ' Mar 5 2:30:30', ' Feb 29 2:00s')
    last = [u.Case({}, ('1:00 - A%d %d%s' % (k, y, e), '2:00 - B 2012 Jun 2',
                        '3:00 - C'))
            for k, e in enumerate(ends) for y in (2000, 2004, 2008)]
    ctx.notes['last eras'] = len(last)
    for m, lang in enumerate(langs):
        for scope in ('basic', 'extended', 'complete'):
            for w in ((1998, 1999), (1999, 2002), (2001, 2006), (2005, 2009)):
                items.append((list(enumerate(last)), lang, scope, w, ()))
    ctx.transitions += sum(len(i[0]) for i in items)
    batches = items
    ks = sorted(mix.KINDS)
    items = []
    sets = [(k,) for k in ks] + list(itertools.combinations(ks, 2))
    for n, s in enumerate(sets):
        src = ''.join(mix.render(k, i) for i, k in enumerate(s))
        src += 'Zone\tAmerica/Good\t1:00\t-\tG\nLink\tAmerica/Good\tAmerica/L'
        src += '\nLink\tAmerica/Good\tEurope/L\n'
        for m, lang in enumerate(langs):
            if not t and m != n % 4:
                continue
            for scope in ('basic', 'complete') if not t else (
                    'basic', 'extended', 'complete'):
                items.append((src, lang, scope, (2000, 2004), (
                    '--nocompress',) if n % 8 == 3 else ()))
    items += [(None, lang, scope, w, ()) for lang in langs
              for scope, w in (('basic', (1980, 2050)),
                               ('extended', (1980, 2200)),
                               ('complete', (1800, 2200)))]
    return batches, items


def check(ctx):
    batches, items = plan(ctx)
    ctx.pmap(batch, batches, 'A-C')
    ctx.pmap(whole, items, 'D, E')


def replay(p):
    if 'whole' in p:
        s, lang, scope, win, more = p['whole']
        o = whole((s, lang, scope, tuple(win), tuple(more)))
    else:
        cs = [(0, u.Case(p['case'][0], tuple(p['case'][1])))] \
            if 'case' in p else [(i, u.Case(r, tuple(e)))
                                 for i, r, e in p['cases']]
        o = batch((cs, p['lang'], p['scope'], tuple(p['win']),
                   tuple(map(tuple, p['opts']))))
    return [m for _, m, _ in o.viol]
