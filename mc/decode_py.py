"""Decode the generated Python zonedb (zone_policies/infos/registry.py)."""
import re
from . import cal
from .tzmodel import Db, Rule, Era, MAX_UNTIL


class Artifact(Exception):
    """An emitted artifact cannot be read by its consumer."""


def _strip_imports(text):
    text = re.sub(r'^from\s+\S+\s+import\s*\([^)]*\)', '', text, flags=re.M)
    text = re.sub(r'^(from|import)\s.*$', '', text, flags=re.M)
    return text


def load_modules(files):
    """Execute the three modules with the imports a package would give them.
    Returns the namespaces (policies, infos, registry)."""
    from typing import Any, Dict, List
    base = {'List': List, 'Any': Any, 'Dict': Dict}
    for n in ('ZoneRule', 'ZonePolicy', 'ZoneEra', 'ZoneInfo'):
        base[n] = Dict[str, Any]
    base['ZoneInfoMap'] = base['ZonePolicyMap'] = Dict[str, Any]
    out = []
    ns = dict(base)
    for f in ('zone_policies.py', 'zone_infos.py', 'zone_registry.py'):
        if f not in files:
            raise Artifact('missing artifact %s' % f)
        try:
            code = compile(_strip_imports(files[f].decode('utf-8')), f, 'exec')
            exec(code, ns)
        except Exception as e:
            raise Artifact('%s does not load: %s: %s' % (
                f, type(e).__name__, e))
        out.append(ns)
        ns = dict(ns)
    return out


def rule_of(r):
    return Rule(r['from_year'], r['to_year'], r['in_month'],
                cal.on_from_codes(r['on_day_of_week'], r['on_day_of_month']),
                r['at_seconds'], r['at_time_suffix'], r['delta_seconds'],
                r['letter'])


def until_of(y, m, d, secs, suf):
    if y == MAX_UNTIL:
        return None
    return (y, cal.days(y, m, d), secs, suf)


def decode(files):
    """-> (Db, zone registry, zone and link registry)"""
    pol, infos, reg = load_modules(files)
    registry = reg.get('ZONE_AND_LINK_REGISTRY')
    zregistry = reg.get('ZONE_REGISTRY')
    if not isinstance(registry, dict) or not isinstance(zregistry, dict):
        raise Artifact('no ZONE_REGISTRY')
    zones, links, policies = {}, {}, {}
    pname = {}
    for k, v in pol.items():
        if k.startswith('ZONE_POLICY_') and isinstance(v, dict):
            pname[id(v)] = v['name']
            policies[v['name']] = [rule_of(r) for r in v['rules']]
    for key, info in registry.items():
        if 'link_to' in info:
            target = info['link_to']
            links[key] = target['name']
            if info['eras'] is not target['eras']:
                raise Artifact('link %s does not share the eras of %s' % (
                    key, target['name']))
            continue
        eras = []
        for e in info['eras']:
            p = e['zone_policy']
            if p is None:
                pn = None
            elif id(p) in pname:
                pn = pname[id(p)]
            else:
                raise Artifact('era of %s refers to unknown policy' % key)
            eras.append(Era(e['offset_seconds'], pn, e['era_delta_seconds'],
                            e['format'],
                            until_of(e['until_year'], e['until_month'],
                                     e['until_day'], e['until_seconds'],
                                     e['until_time_suffix'])))
        zones[key] = eras
    return Db(zones, policies, links), zregistry, registry
