"""C30: the comments that explain emitted values are true."""
import json
from .. import remarks, runner
from .. import universe as u
from ..zonesrc import real_tzdb
from . import c29
from .c06 import MORE as BIG

ID = 'C30'
BOUNDS = (
    'the space of C29: the sweeps of every field of eras and rules in every '
    'scope for each language; combinations of 5 fields on and off the '
    'granularities under 8 granularity options; era histories and rule sets '
    'cut by the window; sets of 1-2 zone kinds with links, compressed or not; '
    'the real TZDB. In every generated file every comment that labels, '
    'decodes, names or quotes the source of a value is evaluated and compared '
    'with that value (and with zonedb.json, which C29 judges)')
ASSUMPTIONS = [
    'comments of a form the evaluator does not know are reported when they '
    'stand in the place of a note, and ignored elsewhere; headers and counts '
    'are C23, notable and removed lists C22 and C27',
]
TECHNIQUE = ('explicit enumeration of source databases; each is compiled by '
             'the real compiler and every explanatory comment evaluated '
             'against the value it explains')


def look(res, lang, scope, out, pay, where):
    j = json.loads(res.files['zonedb.json'])
    out.states += sum(len(z['eras']) for z in j['zones_map'].values()) + sum(
        len(p['rules']) for p in j['policies_map'].values())
    bad = remarks.judge(res.files, lang, scope, j, c29.BASE)
    for d in bad[:10]:
        out.bad('comment', '%s: %s' % (where, d[:600]), pay)
    return bool(bad)


def batch(item):
    from ..harness import Out
    out = Out()
    cs, lang, scope, win, opts = item
    argv = c29.batch_argv(item)
    for res, part in u.compile_batch(cs, argv,
                                     prefix='Zone\tA/Good\t1:00\t-\tG\n'):
        if not res.ok:
            out.outcome('refused')      # C01, C03, C07 judge refusals
            continue
        out.traces += len(part)
        out.outcome('compiled', len(part))
        look(res, lang, scope, out, {
            'cases': [[i, c.rules, c.eras] for i, c in part], 'lang': lang,
            'scope': scope, 'win': win, 'opts': opts},
            '%s %s' % (lang, scope))
    return out


def whole(item):
    from ..harness import Out
    out = Out()
    src, lang, scope, win, more = item
    files = real_tzdb() if src is None else {'africa': src}
    argv = u.argv_for(scope, win[0], win[1], lang, 'zonedb,json', BIG + (
        '--tiny_base_year', str(c29.BASE)) + more)
    res = runner.run_main(files, argv)
    if not res.ok:
        out.outcome('refused')
        if src is None:
            out.bad('refused', 'real TZDB %s: %s' % (item, res.exc),
                    {'whole': list(item)})
        return out
    out.traces += 1
    out.outcome('whole databases')
    look(res, lang, scope, out, {'whole': list(item)}, '%s %s\n%s' % (
        lang, scope, src or 'real TZDB'))
    return out


def check(ctx):
    batches, items = c29.plan(ctx)
    ctx.pmap(batch, batches, 'A-C')
    ctx.pmap(whole, items, 'D, E')


def replay(p):
    if 'whole' in p:
        s, lang, scope, win, more = p['whole']
        o = whole((s, lang, scope, tuple(win), tuple(more)))
    else:
        o = batch(([(i, u.Case(r, tuple(e))) for i, r, e in p['cases']],
                   p['lang'], p['scope'], tuple(p['win']),
                   tuple(map(tuple, p['opts']))))
    return [m for _, m, _ in o.viol]
