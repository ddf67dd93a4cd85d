"""C05: merging rules preserves priority and the meaning of every lookup."""

import json

from mc.engine import Harness
from mc.rulesref import ref_lookup, NoDefault, clone, share
from mc.sizes import sizes, names

PROPERTY = 'C05'
ASSUMPTIONS = [
    'inputs are expanded, verified rules dicts; no installer dict names both '
    'the placeholder and the default installer itself',
]

D = 'default_installer'
DEFAULTS = [{'ubuntu': 'apt', 'debian': 'apt'}, {'ubuntu': 'apt'},
            {'ubuntu': 'pip', 'debian': 'apt'}]
VERSIONS = ('14', '14.04', '14.04.1')


def place(c, tag, where, sets):
    """None: the place is absent."""
    k = c.choose(len(sets) + 1, '%s %s' % (tag, where))
    if k == 0:
        return None
    return {i: {'packages': ['%s/%s/%s' % (tag, where, i)]}
            for i in sets[k - 1]}


FULL = {
    'any_os': [(), ('apt',), ('pip',), ('apt', 'pip')],
    'any': [(), (D,), ('apt',), ('pip',), (D, 'gem'), ('pip', 'apt')],
    '14': [(), (D,), ('apt',), ('pip',), (D, 'gem'), ('pip', 'apt')],
}
SMALL = {
    'any_os': [('apt',), ('pip', 'apt')],
    'any': [(D,), ('pip',)],
    '14': [(D,), ('pip',)],
}


def os_dict(c, tag, sets, reverse=False):
    osd = {}
    a = place(c, tag, 'any_os', sets['any_os'])
    vd = {}
    for v, s in (('any_version', 'any'), ('14', '14')):
        i = place(c, tag, v, sets[s])
        if i is not None:
            vd[v] = i
    if vd:
        osd['ubuntu'] = vd
    if a is not None:
        osd['any_os'] = {'any_version': a}
    return osd


def reverse_all(d):
    return {k: reverse_all(v) if isinstance(v, dict) else v
            for k, v in reversed(list(d.items()))}


def ambiguous(rules, defaults):
    return any(D in ins and defaults.get(osn) in ins
               for osd in rules.values() for osn, vs in osd.items()
               if osn != 'any_os' for ins in vs.values())


def judge(c, dicts, defaults, shared=None):
    from xylem.sources.rules_dict import merge_rules, lookup_rules
    if any(ambiguous(r, defaults) for r in dicts):
        c.prune()
    what = 'merge of %r for %r' % (dicts, defaults)
    inputs = [clone(r) for r in dicts]
    if shared == 'each':
        inputs = [share(r) for r in dicts]
    elif shared == 'all':
        inputs = share(dicts)
    unreplaceable = any(
        D in ins for r in dicts for osd in r.values()
        for osn, vs in osd.items() if osn in defaults and not defaults[osn]
        for ins in vs.values())
    got = c.call(merge_rules, inputs, dict(defaults))
    c.eq(inputs, dicts, what + ': inputs modified')
    if unreplaceable:
        c.check(got[0] == 'exc' and isinstance(got[1], ValueError),
                lambda: '%s: %r' % (what, got))
        c.observe('no default')
        return
    c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
    merged = got[1]
    for key, osd in merged.items():
        for osn, vs in osd.items():
            c.check(osn == 'any_os' or osn in defaults,
                    lambda: '%s: unexpected OS in %r' % (what, merged))
            c.check(all(D not in ins for ins in vs.values()),
                    lambda: '%s: placeholder left in %r' % (what, merged))
    for key in ('k', 'z'):
        for osn in sorted(defaults):
            for ver in VERSIONS:
                want = {}
                for r in dicts:
                    for i, rule in ref_lookup(r, key, osn, ver,
                                              defaults[osn]).items():
                        want.setdefault(i, rule)
                m = 'gave %r; lookup of %s on %s:%s' % (merged, key, osn, ver)
                c.eq(ref_lookup(merged, key, osn, ver, defaults[osn]), want,
                     what + ' ' + m)
                c.eq(lookup_rules(merged, key, osn, ver, defaults[osn]), want,
                     what + ' ' + m)
    c.observe(json.dumps(merged))


def h_pairs(c):
    defaults = c.pick(DEFAULTS[::2], 'defaults')
    rules = []
    for tag in 'AB':
        rules.append({'k': os_dict(c, tag, FULL)})
    judge(c, rules, defaults)


def h_order(c):
    """Entry order inside the dicts never matters."""
    defaults = DEFAULTS[0]
    rules = [{'k': os_dict(c, tag, SMALL)} for tag in 'AB']
    rules = [reverse_all(r) if c.flag('reverse') else r for r in rules]
    judge(c, rules, defaults)


def h_triples(c):
    rules = [{'k': os_dict(c, tag, SMALL)} for tag in 'ABC']
    judge(c, rules, DEFAULTS[0])


def h_four(c):
    rules = [{'k': os_dict(c, tag, {
        'any_os': [('apt',)], 'any': [(D,)], '14': [(D,)]})} for tag in 'ABCD']
    judge(c, rules, DEFAULTS[0])


OSD = [None, {}, {'any_version': {D: 1}}, {'14': {D: 1, 'gem': 1}},
       {'14.04': {'gem': 1}, 'any_version': {}}]


def h_oses(c):
    """Several OSs and keys; OSs that are not asked for."""
    defaults = c.pick(DEFAULTS + [{'ubuntu': None, 'debian': 'apt'}, {},
                                  {'debian': None}], 'defaults')
    rules = []
    for tag in 'AB':
        r = {}
        for key in ('k', 'z'):
            osd = {}
            for osn in ('ubuntu', 'debian') if key == 'k' else ('debian',):
                vs = c.pick(OSD, '%s %s %s' % (tag, key, osn))
                if vs is not None:
                    osd[osn] = {v: {i: {'packages': [
                        '/'.join((tag, key, osn, v, i))]} for i in ins}
                        for v, ins in vs.items()}
            if key == 'k' and c.flag(tag + ' any_os'):
                osd['any_os'] = {'any_version': {'gem': {
                    'packages': [tag + '/any_os']}}}
            if osd or key == 'k':
                r[key] = osd
        rules.append(r)
    judge(c, rules, defaults)


def h_lengths(c):
    """No dict, one dict, equal dicts."""
    defaults = c.pick(DEFAULTS, 'defaults')
    n = c.choose(4, 'number')
    one = {'k': os_dict(c, 'A', FULL)} if n else {}
    judge(c, [clone(one) for _ in range(n)], defaults)


def h_empty(c):
    """Empty installer rules override others like any other rule."""
    rules = []
    for tag in 'AB':
        osd = os_dict(c, tag, {
            'any_os': [('pip',)], 'any': [('pip',), (D,)],
            '14': [('pip', 'apt')]})
        for osn, vs in osd.items():
            for v, ins in vs.items():
                for i in ins:
                    if c.flag('%s %s %s %s empty' % (tag, osn, v, i)):
                        ins[i] = {}
        rules.append({'k': osd})
    judge(c, rules, DEFAULTS[0])


SHARED = [
    None, {}, {'any_version': (D,)}, {'14': (D, 'gem')},
    {'14': ('gem',), 'any_version': ('gem',)},
    {'14': ('apt',), '14.04': ('apt',)}]


def h_aliases(c):
    """Parts of the dicts are the same object, as with YAML aliases."""
    how = c.pick(['each', 'all'], 'same object within')
    defaults = c.pick([DEFAULTS[0], DEFAULTS[2]], 'defaults')
    rules = []
    for tag in 'AB':
        r = {}
        for key in 'kz' if tag == 'A' else 'k':
            osd = {}
            for osn in ('ubuntu', 'debian') if key == 'k' else ('ubuntu',):
                vs = c.pick(SHARED if key == 'k' else SHARED[2:5],
                            '%s %s %s' % (tag, key, osn))
                if vs is not None:
                    osd[osn] = {v: {i: {'packages': [
                        tag if how == 'each' else 'p']} for i in ins}
                        for v, ins in vs.items()}
            if key == 'k' and tag == 'A' and c.flag('any_os'):
                osd['any_os'] = {'any_version': {'gem': {'packages': [tag]}}}
            r[key] = osd
        rules.append(r)
    judge(c, rules, defaults, how)


def h_sizes(tier):
    """Many dicts with rules for the same key, and many keys."""
    def fn(c):
        from xylem.sources.rules_dict import merge_rules, lookup_rules
        n = c.pick(sizes(tier), 'number')
        what = c.pick(['dicts', 'keys', 'versions', 'installers'], 'of')
        defaults = DEFAULTS[0]

        def rule(x):
            return {'packages': [str(x)]}
        tags = names(n, 't')
        if what == 'dicts':
            # each has a rule of its own and one that others have also
            dicts = [{'k': {'ubuntu': {'14': {
                t: rule(t), 'gem': rule(t)}}}} for t in tags]
        elif what == 'keys':
            dicts = [{t: {'ubuntu': {'14': {D: rule(t)}}} for t in tags},
                     {t: {'ubuntu': {'14': {'gem': rule(t)}}}
                      for t in tags[::2]},
                     {t: {'ubuntu': {'14': {'apt': rule('no')}}}
                      for t in tags[::-1]}]
        elif what == 'versions':
            dicts = [{'k': {'ubuntu': {t: {D: rule(t)} for t in tags}}},
                     {'k': {'ubuntu': {t: {'gem': rule(t)}
                                       for t in reversed(tags)}}}]
        else:
            dicts = [{'k': {'ubuntu': {'14': {t: rule(t) for t in tags}}}},
                     {'k': {'ubuntu': {'14': {t: rule('no') for t in tags},
                                       'any_version': {'gem': rule(1)}}}}]
        inputs = clone(dicts)
        got = c.call(merge_rules, inputs, dict(defaults))
        c.check(got[0] == 'ok', lambda: '%d %s: %r' % (n, what, got))
        c.eq(inputs, dicts, '%d %s: inputs modified' % (n, what))
        keys = sorted({k for r in dicts for k in r})
        for key in keys:
            for ver in (tags if what == 'versions' else ['14']):
                want = {}
                for r in dicts:
                    for i, x in ref_lookup(r, key, 'ubuntu', ver,
                                           'apt').items():
                        want.setdefault(i, x)
                c.eq(lookup_rules(got[1], key, 'ubuntu', ver, 'apt'), want,
                     '%d %s: lookup of %s on %s' % (n, what, key, ver))
        c.eq(sorted(got[1]), keys, '%d %s: keys' % (n, what))
        c.observe((n, what, len(keys)))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    hs = [Harness('pairs', h_pairs, split=4),
          Harness('order', h_order, split=3),
          Harness('triples', h_triples, split=3),
          Harness('oses', h_oses, split=3),
          Harness('lengths', h_lengths, split=2),
          Harness('aliases', h_aliases, split=4),
          Harness('empty rules', h_empty, split=4),
          h_sizes(tier)]
    if tier == 'thorough':
        hs.append(Harness('four', h_four, split=4))
        hs.append(Harness('triples_full', h_triples_full, split=5, cap_s=3000))
    return hs


MID = {
    'any_os': [(), ('apt',), ('pip', 'apt')],
    'any': [(), (D,), ('pip',), (D, 'pip')],
    '14': [(), (D,), ('apt', 'pip')],
}


def h_triples_full(c):
    rules = [{'k': os_dict(c, tag, MID)} for tag in 'ABC']
    judge(c, rules, DEFAULTS[0])
