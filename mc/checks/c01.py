"""C01: lookup picks the most specific rule per installer."""

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import Site
from mc.rulesref import ref_lookup, NoDefault, clone, expand_installers
from mc.sizes import sizes, names

PROPERTY = 'C01'
ASSUMPTIONS = [
    'rules naming both the placeholder and the default installer itself in one'
    ' place are ambiguous and excluded',
    'one key with competing rules plus one bystander key; two OSs plus any_os,'
    ' two named versions plus any_version, three installers',
]

D = 'default_installer'
SETS = [(), (D,), ('apt',), ('pip',), (D, 'pip'), ('pip', 'apt')]
ANY = [(), ('apt',), ('pip',), ('pip', 'apt')]
FEW = [(), (D, 'pip')]
PLATFORMS = [('ubuntu', '14'), ('ubuntu', '14.04'), ('ubuntu', '14.04.1'),
             ('debian', '14'), ('debian', '14.04.1'), ('osx', '14'),
             ('ubuntu', '1'), ('ubuntu', ''), ('Ubuntu', '14'),
             ('xubuntu', '14')]

# (key, os, version) in order; the first three compete on ubuntu:14
PLACES = [('k', 'any_os', 'any_version', ANY),
          ('k', 'ubuntu', 'any_version', SETS),
          ('k', 'ubuntu', '14', SETS + [None]),
          ('k', 'ubuntu', '14.04', FEW),
          ('k', 'debian', '14', FEW),
          ('k', 'debian', 'any_version', FEW),
          ('z', 'ubuntu', '14', FEW)]


def build(c, places, shapes):
    entries = []
    for key, osn, ver, sets in places:
        s = c.pick(sets, '%s/%s/%s' % (key, osn, ver))
        if s is None:
            entries.append((key, osn, ver, {}))   # present but empty
        elif s:
            tag = '%s.%s.%s' % (key, osn, ver)
            entries.append((key, osn, ver, {
                i: {'packages': [tag + '.' + i]} for i in s}))
    if shapes and entries:
        # rules without packages are rules as well ("nothing to do")
        shape = c.choose(3, 'shape of last rule')
        if shape:
            d = entries[-1][3]
            for i in d:
                d[i] = {'packages': []} if shape == 1 else {}
    if c.flag('reverse file order'):
        entries.reverse()
    rules = {}
    for key, osn, ver, d in entries:
        rules.setdefault(key, {}).setdefault(osn, {})[ver] = d
    return rules


def compact_again(x, default):
    """Expand a compact installer dict and name the default installer."""
    d = expand_installers(clone(x))
    if D in d and default:
        d[default] = d.pop(D)
    return d


_ctx = {}


def context(platform, default):
    k = (platform, default)
    if k not in _ctx:
        _ctx[k] = stubs.context(platform[0], platform[1], default)
    return _ctx[k]


def h_spec(places, platforms, shapes):
    from xylem.specs.plugins.rules import RulesSpec
    from xylem.specs.plugins.rules import compact_installer_dict

    def fn(c):
        rules = build(c, places, shapes)
        orig = clone(rules)
        seen = []
        for platform in platforms:
            for default in ('apt', 'pip', None):
                ic = context(platform, default)
                for key in ('k', 'z', 'other'):
                    # two names for one rule in one place are ambiguous
                    place = [d for o, vs in rules.get(key, {}).items()
                             for d in vs.values() if D in d and default in d]
                    if place:
                        continue
                    what = 'lookup of %r on %s:%s (default %s) in %r' % (
                        (key,) + platform + (default, rules))
                    try:
                        want = ref_lookup(rules, key, platform[0],
                                          platform[1], default)
                    except NoDefault:
                        want = None
                    got = c.call(RulesSpec().lookup, rules, key, ic)
                    if want is None:
                        c.check(got[0] == 'exc' and isinstance(
                            got[1], (ValueError, LookupError)),
                            lambda: '%s: expected an error, got %r' %
                            (what, got))
                        seen.append('error')
                        continue
                    c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
                    c.eq(got[1], want, what)
                    seen.append(sorted(
                        (i, str(r.get('packages'))) for i, r in want.items()))
                    comp = c.call(compact_installer_dict, got[1], default)
                    c.check(comp[0] == 'ok', lambda: what + ': compact form: '
                            '%r' % (comp,))
                    c.eq(compact_again(comp[1], default),
                         expand_installers(clone(want)),
                         what + ' in compact form')
                    c.eq(rules, orig, 'rules after ' + what)
        c.event('looked up %d triples' % len(seen))
        c.observe(seen)
    return fn


def h_full(places):
    """The same through update(), the cache and the lookup() API."""
    from xylem.update import update
    from xylem.lookup import lookup
    from xylem.sources import SourcesContext

    def fn(c):
        rules = build(c, places, True)
        site = Site(c)
        site.write_rules('a', rules)
        site.write_sources('10.yaml', ['a'])
        cfg = site.config()
        with env.capture():
            update(config=cfg)
        seen = []
        for platform in PLATFORMS[:4]:
            for default in ('apt', None):
                ic = context(platform, default)
                if any(D in d and default in d for vs in
                       rules.get('k', {}).values() for d in vs.values()):
                    continue
                try:
                    want = ref_lookup(rules, 'k', platform[0], platform[1],
                                      default)
                except NoDefault:
                    want = None
                what = 'lookup API on %s:%s default %s in %r' % (
                    platform + (default, rules))
                for compact in (False, True):
                    with env.capture():
                        got = c.call(lookup, 'k', compact=compact, config=cfg,
                                     sources_context=SourcesContext(cfg),
                                     installer_context=ic)
                    if want is None:
                        c.check(got[0] == 'exc' and isinstance(
                            got[1], (ValueError, LookupError)),
                            lambda: '%s: expected an error, got %r' %
                            (what, got))
                        continue
                    c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
                    if compact:
                        c.eq(compact_again(got[1], default),
                             expand_installers(clone(want)), what + ' compact')
                    else:
                        c.eq(got[1], want, what)
                seen.append(None if want is None else sorted(want))
        c.observe(seen)
    return fn


def h_sizes(tier):
    """Many keys, operating systems, versions or installers."""
    from xylem.specs.plugins.rules import RulesSpec

    def fn(c):
        n = c.pick(sizes(tier), 'number')
        what = c.pick(['keys', 'oses', 'versions', 'installers'], 'of')
        tags = names(n, 't')

        def rule(x):
            return {'packages': [x]}
        if what == 'keys':
            rules = {t: {'ubuntu': {'14': {D: rule(t)}},
                         'any_os': {'any_version': {'pip': rule('p')}}}
                     for t in tags}
        elif what == 'oses':
            rules = {'k': {t: {'14': {t: rule(t)}} for t in tags}}
            rules['k']['ubuntu'] = {'14': {D: rule('u')}}
        elif what == 'versions':
            rules = {'k': {'ubuntu': {t: {t: rule(t)} for t in tags}}}
            rules['k']['ubuntu']['14'] = {D: rule('v')}
        else:
            rules = {'k': {'ubuntu': {'14': {t: rule(t) for t in tags},
                                      'any_version': {'pip': rule('p')}}}}
        orig = clone(rules)
        for key in (tags + ['none'] if what == 'keys' else ['k']):
            ic = context(('ubuntu', '14'), 'apt')
            got = c.call(RulesSpec().lookup, rules, key, ic)
            c.eq(got, ('ok', ref_lookup(orig, key, 'ubuntu', '14', 'apt')),
                 'lookup of %s in %d %s' % (key, n, what))
        c.eq(rules, orig, 'rules after lookups in %d %s' % (n, what))
        c.observe((n, what))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    few_places = [PLACES[0][:3] + ([(), ('pip', 'apt')],),
                  PLACES[1][:3] + ([(), (D,), ('pip', 'apt')],),
                  PLACES[2][:3] + ([(), (D, 'pip'), ('apt',)],),
                  PLACES[6]]
    places = PLACES
    if tier == 'thorough':
        places = [p[:3] + ((SETS if p[1] != 'any_os' else ANY) + [None],)
                  for p in PLACES[:5]] + PLACES[5:]
    return [
        Harness('spec_lookup', h_spec(places, PLATFORMS, True), split=3,
                note='rule sets per place x rule shape x file order; all '
                'platforms and defaults looked up in every execution'),
        Harness('update_cache_lookup', h_full(few_places), split=3,
                note='through update, cache and the lookup API, full and '
                'compact'),
        h_sizes(tier),
    ]
