"""C07: listed keys are exactly the keys with a rule for the platform."""

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import Site, mem_database
from mc.rulesref import ref_lookup, ref_has_rule, NoDefault, clone
from mc.sizes import sizes, names

PROPERTY = 'C07'
LOUD = True
ASSUMPTIONS = ['rules are expanded and verified']

D = 'default_installer'
PLATFORMS = [('ubuntu', '14'), ('ubuntu', '14.04'), ('debian', '14'),
             ('osx', '14.04.1')]
P = {'packages': ['p']}
# per key: presence of a rule at each place
ANY = [None, {'pip': P}, {}]
AT = [None, {D: P}, {'apt': P, 'pip': P}, {}]


_ctx = {}


def context(platform, default):
    k = (platform, default)
    if k not in _ctx:
        _ctx[k] = stubs.context(platform[0], platform[1], default)
    return _ctx[k]


def key_rules(c, at=AT, any_=ANY, debian=True):
    osd = {}
    vs = {}
    for ver in ('any_version', '14', '14.04'):
        x = c.pick(at if ver != '14.04' else at[:2], 'ubuntu ' + ver)
        if x is not None:
            vs[ver] = clone(x)
    if vs or c.flag('empty ubuntu'):
        osd['ubuntu'] = vs
    if debian:
        x = c.pick([None, {'any_version': {D: P}}, {'14': {'apt': P}}],
                   'debian')
        if x is not None:
            osd['debian'] = clone(x)
    x = c.pick(any_, 'any_os')
    if x is not None:
        osd['any_os'] = {'any_version': clone(x)}
    return osd


def judge(c, dicts, db):
    seen = []
    keys = ('k', 'z', 'nokey')
    for platform in PLATFORMS:
        for default in ('apt', None):
            ic = context(platform, default)
            want = sorted(key for key in keys if any(
                key in r and ref_has_rule(r, key, *platform) for r in dicts))
            what = 'keys of %r on %s:%s' % ((dicts,) + platform)
            got = c.call(db.keys, ic)
            c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
            got = list(got[1])
            c.eq(sorted(got), want, what)
            for key in keys:
                nodef = False
                for r in dicts:
                    try:
                        ref_lookup(r, key, platform[0], platform[1], default)
                    except NoDefault:
                        nodef = True
                if nodef:
                    continue
                res = c.call(db.lookup, key, ic)
                c.check(res[0] == 'ok', lambda: '%s: lookup of %s: %r' %
                        (what, key, res))
                if key not in got:
                    c.eq(res[1], {}, '%s: lookup of unlisted %s' % (what, key))
            seen.append(want)
    c.observe(seen)


def h_one(c):
    rules = {'k': key_rules(c)}
    if c.flag('second key'):
        rules['z'] = {'ubuntu': {'14': {D: clone(P)}}}
    judge(c, [rules], mem_database([clone(rules)]))


SMALL = [None, {}, {'ubuntu': {'14': {'apt': P}}},
         {'ubuntu': {'any_version': {'apt': P}}},
         {'any_os': {'any_version': {'pip': P}}},
         {'debian': {'14': {D: P}}, 'ubuntu': {'14.04': {'apt': P}}}]


def h_sources(c):
    """Two or three sources, two keys each."""
    dicts = []
    for s in range(c.pick([2, 0, 3], 'number of sources')):
        r = {}
        for key in ('k', 'z')[:2 if s < 2 else 1]:
            x = c.pick(SMALL, '%d %s' % (s, key))
            if x is not None:
                r[key] = clone(x)
        dicts.append(r)
    judge(c, dicts, mem_database(clone(dicts)))


def h_cache(c):
    """Through update and the cache, and `resolve --all` of the API."""
    from xylem.update import update
    from xylem.sources import RulesDatabase, SourcesContext
    site = Site(c)
    dicts = []
    for s in range(2):
        r = {}
        for key in ('k', 'z')[:2 - s]:
            x = c.pick(SMALL, '%d %s' % (s, key))
            if x is not None:
                r[key] = clone(x)
        dicts.append(r)
        site.write_rules('s%d' % s, r)
    site.write_sources('10.yaml', ['s0', 's1'])
    cfg = site.config()
    with env.capture():
        update(config=cfg)
        db = RulesDatabase(SourcesContext(cfg))
        db.load_from_cache()
    judge(c, dicts, db)


def h_sizes(tier):
    """Many keys, in one source or spread over some."""
    def fn(c):
        n = c.pick(sizes(tier), 'number of keys')
        nsources = c.pick([1, 2, 3], 'number of sources')
        shape = c.pick(['all', 'every second', 'last', 'none'], 'with a rule')
        keys = names(n, 'key')
        if c.flag('backwards'):
            keys.reverse()
        has = {'all': keys, 'every second': keys[::2], 'last': keys[-1:],
               'none': []}[shape]
        here = [{'ubuntu': {'any_version': {'apt': P}}},
                {'ubuntu': {'14': {D: P}}, 'debian': {}},
                {'any_os': {'any_version': {'pip': P}}}]
        away = [{'debian': {'14': {'apt': P}}}, {'ubuntu': {'14.04': {D: P}}}]
        dicts = [{} for _ in range(nsources)]
        for i, key in enumerate(keys):
            dicts[i % nsources][key] = clone(
                here[i % len(here)] if key in has else away[i % len(away)])
        db = mem_database(clone(dicts))
        got = c.call(db.keys, context(('ubuntu', '14'), 'apt'))
        c.check(got[0] == 'ok', lambda: '%d keys: %r' % (n, got))
        c.eq(sorted(got[1]), sorted(has), 'keys of %r' % dicts)
        for key in (keys[:1] + keys[-1:]):
            r = db.lookup(key, context(('ubuntu', '14'), 'apt'))
            c.eq(bool(r), key in has, 'lookup of %s' % key)
        c.observe((n, len(has), nsources))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    return [Harness('levels', h_one, split=4),
            Harness('sources', h_sources, split=3),
            Harness('cached', h_cache, split=2),
            h_sizes(tier)]
