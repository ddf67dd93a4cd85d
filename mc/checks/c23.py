"""C23: Resolving accounts for every requested key."""

from mc.engine import Harness
from mc import env, stubs
from mc.checks.c22 import context
from mc.fullstack import Site, mem_database
from mc.sizes import sizes

PROPERTY = 'C23'
LOUD = True
ASSUMPTIONS = []


def entry(inst, packages, **kw):
    return {'ubuntu': {'any_version': {inst: dict(kw, packages=packages)}}}


#  key: (rules, outcome with a default installer, without)
#  outcome: (installer, packages) | 'error' ; listed on this platform or not
KEYS = {
    'one': (entry('a', ['p1']), ('a', ['p1']), True),
    'two': (entry('b', ['p2', 'p1', 'p2']), ('b', ['p2', 'p1', 'p2']), True),
    'zero': (entry('a', []), ('a', []), True),
    'extra': (entry('c', ['p3']), ('c', ['p3']), True),
    'default': (entry('default_installer', ['p4']), 'default', True),
    'foreign': ({'osx': {'any_version': {'a': {'packages': ['p']}}}},
                'error', False),
    'noinst': (entry('e', ['p']), 'error', True),
    'badrule': (entry('a', [{'p': 1}]), 'error', True),
    'badopt': (entry('a', ['p', ['q']]), 'error', True),
    'wanted': (entry('b', ['p5']), 'error', True),   # requested from x
    'pref': (dict(entry('a', ['p6']), any_os={
        'e': {'packages': ['p7']}}), ('e', ['p7']), True),
}
ABSENT = ['missing', '']
INSTALL_FROM = {'x': ['wanted'], 'e': ['pref']}


def outcome(key, default):
    if key in ABSENT:
        return 'error'
    o = KEYS[key][1]
    if o == 'default':
        return (default, ['p4']) if default in ('a', 'b') else 'error'
    return o


def outcomes(c, v, what):
    """-> [(key, outcome)] of results, [key] of errors"""
    from xylem.resolve import ResolutionError
    results, errors = v
    good = [(k, (inst, [r.package for r in rs])) for k, (inst, rs) in results]
    for k, e in errors:
        c.check(isinstance(e, ResolutionError), '%s: error of %r is %r',
                what, k, e)
    return good, [k for k, _ in errors]


def dedup(seq):
    return list(dict.fromkeys(seq))


def compare(c, v, keys, default, what):
    good, bad = outcomes(c, v, what)
    want = [(k, outcome(k, default)) for k in keys]
    c.eq(good, [(k, o) for k, o in want if o != 'error'],
         what + ': resolutions')
    c.eq(bad, [k for k, o in want if o == 'error'], what + ': failed keys')


def listed(present):
    return sorted(k for k in present if KEYS[k][2])


def h_requests(n, keys):
    def fn(c):
        from xylem.resolve import resolve
        k = c.choose(n + 1, 'number')
        req = [keys[c.choose(len(keys), 'key')] for _ in range(k)]
        default = c.pick(['a', None], 'default')
        ic = context(['a', 'b'], ['c'], default)
        db = mem_database([{k: r for k, (r, _o, _l) in KEYS.items()}])
        cfg = stubs.config()
        cfg.install_from = dict(INSTALL_FROM)
        before = list(req)
        what = 'resolve(%r) with default %r' % (req, default)
        with env.capture():
            st, v = c.call(resolve, req, config=cfg, database=db,
                           installer_context=ic)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        c.eq(req, before, what + ': request list was changed')
        compare(c, v, dedup(req), default, what)
        c.observe(repr([(k, outcome(k, default)) for k in dedup(req)]))
    return Harness('requests', fn, split=3,
                   note='all request lists of up to %d out of %d keys with '
                   'every kind of outcome, with and without default '
                   'installer' % (n, len(keys)))


def h_all(present_choices):
    names = sorted(KEYS)

    def fn(c):
        from xylem.resolve import resolve
        default = 'a'
        if present_choices:
            present = [k for k in names if c.flag(k)]
        else:
            present = c.pick([names, [], ['two', 'one'], ['badrule', 'zero'],
                              ['foreign']], 'rules')
        req = c.pick([[], ['two'], ['pref', 'one', 'pref'], ['missing'],
                      ['zero', 'missing', 'badrule']], 'request')
        dflt = c.pick([True, False], 'with default installer')
        if not dflt:
            if 'default' in present:
                c.prune()
            default = None
        ic = context(['a', 'b'], ['c'], default)
        db = mem_database([{k: KEYS[k][0] for k in present}])
        cfg = stubs.config()
        cfg.install_from = dict(INSTALL_FROM)
        what = 'resolve(%r, all_keys) of rules for %r' % (req, present)
        before = list(req)
        with env.capture():
            st, v = c.call(resolve, req, all_keys=True, config=cfg,
                           database=db, installer_context=ic)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        c.eq(req, before, what + ': request list was changed')
        want = []
        keys = dedup(req + listed(present))
        good, bad = outcomes(c, v, what)
        for k in keys:
            want.append((k, outcome(k, default) if k in present else 'error'))
        c.eq(good, [(k, o) for k, o in want if o != 'error'],
             what + ': resolutions')
        c.eq(bad, [k for k, o in want if o == 'error'], what + ': failed keys')
        c.observe('%d %d' % (len(good), len(bad)))
    return Harness('all keys', fn, note='all keys, for %s sets of keys in the '
                   'database' % ('all' if present_choices else 'some'))


def h_independent():
    """The outcome of a key is the same alone and together with others."""
    names = sorted(KEYS)

    def fn(c):
        from xylem.resolve import resolve
        key = c.pick(names + ABSENT, 'key')
        others = c.pick([[], ['badrule'], ['wanted', 'two'],
                         ['one', 'noinst', 'missing']], 'others')
        first = c.flag('first')
        default = c.pick(['a', 'b', None], 'default')
        ic = context(['a', 'b'], ['c'], default)
        db = mem_database([{k: r for k, (r, _o, _l) in KEYS.items()}])
        cfg = stubs.config()
        cfg.install_from = dict(INSTALL_FROM)
        req = [key] + others if first else others + [key]

        def one(req):
            with env.capture():
                good, errors = resolve(req, config=cfg, database=db,
                                       installer_context=ic)
            r = [x for k, x in good if k == key]
            e = [str(x) for k, x in errors if k == key]
            c.check(len(r) + len(e) == 1, 'resolve(%r): %r and %r for %r',
                    req, r, e, key)
            return r, e
        c.eq(one(req), one([key]), 'outcome of %r in %r' % (key, req))
        c.eq(one(req), one([key]), 'outcome of %r in %r, again' % (key, req))
        c.observe(repr((key, one([key])))[:150])
    return Harness('independent', fn, note='every key alone and together with '
                   'others, repeatedly')


def h_cache():
    """From the sources on disk through the cache, with implicit contexts."""
    def fn(c):
        from xylem.config import set_config, get_default_config
        from xylem.resolve import resolve
        from xylem.update import update
        site = Site(c)
        split = c.pick([1, 2], 'source files')
        names = [k for k in sorted(KEYS) if k not in ('pref',)]
        for i in range(split):
            site.write_rules('r%d' % i, {k: KEYS[k][0] for k in
                                         names[i::split]})
            site.write_sources('%d0.yaml' % i, ['r%d' % i])
        core = c.pick(['os', 'config'], 'core installers')
        stubs.platform([stubs.make_os(
            'ubuntu', versions=['v1'], detected='v1', default='a',
            core=['a', 'b'] if core == 'os' else ['e'])],
            [stubs.make_installer(n, additional=n == 'c') for n in 'abcde'])
        cfg = site.config(install_from=dict(INSTALL_FROM))
        if core == 'config':
            cfg.core_installers = ['a', 'b']
        how = c.pick(['object', 'dict', 'global'], 'config given as')
        all_keys = c.flag('all keys')
        req = c.pick([[], ['two', 'missing', 'one'], ['badrule', 'default']],
                     'request')
        kw = {}
        with env.capture():
            update(config=cfg)
            if how == 'object':
                kw = {'config': cfg}
            elif how == 'dict':
                kw = {'config': dict(
                    sources_dir=site.sources_dir, cache_dir=site.cache_dir,
                    install_from=dict(INSTALL_FROM),
                    core_installers=cfg.core_installers)}
            else:
                set_config(cfg)
            try:
                st, v = c.call(resolve, list(req), all_keys=all_keys, **kw)
            finally:
                set_config(get_default_config())
        what = 'resolve(%r, all_keys=%r), config given as %s' % (
            req, all_keys, how)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        keys = dedup(req + (listed(names) if all_keys else []))
        compare(c, v, keys, 'a', what)
        c.observe('%s %r' % (how, keys))
    return Harness('cache', fn, note='sources on disk, update, then resolving '
                   'with config given as object, dict or global')


def h_sizes(tier):
    """Many keys, some of which cannot be resolved."""
    def fn(c):
        from xylem.resolve import resolve
        n = c.pick(sizes(tier), 'keys')
        bad = {'none': [], 'last': [n - 1], 'first': [0],
               'even': list(range(0, n, 2)), 'all': list(range(n))}[c.pick(
                   ['none', 'last', 'first', 'even', 'all'], 'failing')]
        how = c.pick(['listed', 'repeated', 'all', 'all and some'], 'request')
        keys = ['k%04d' % i for i in range(n)]
        order = keys[::-1] if c.flag('reversed') else keys
        db = mem_database([{k: entry('e' if i in bad else 'ab'[i % 2],
                                     ['p%d' % i, 'q'])
                            for i, k in enumerate(keys)}])
        req = {'listed': order, 'repeated': order + order[::-1] + order,
               'all': [], 'all and some': order[n // 2:]}[how]
        want = dedup(req + keys) if how.startswith('all') else order
        ic = context(['a', 'b'], ['c'], 'a')
        with env.capture():
            st, v = c.call(resolve, list(req), config=stubs.config(),
                           all_keys=how.startswith('all'), database=db,
                           installer_context=ic)
        what = 'resolving %d keys (%s), %d of them fail' % (n, how, len(bad))
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        good, failed = outcomes(c, v, what)
        num = {k: i for i, k in enumerate(keys)}
        c.eq(good, [(k, ('ab'[num[k] % 2], ['p%d' % num[k], 'q']))
                    for k in want if num[k] not in bad],
             what + ': resolutions')
        c.eq(failed, [k for k in want if num[k] in bad],
             what + ': failed keys')
        c.observe('%d %d' % (len(good), len(failed)))
    return Harness('sizes', fn, split=1, note='every number of keys, with '
                   'none, one, half or all of them failing')


def harnesses(tier):
    names = sorted(KEYS) + ABSENT
    if tier == 'quick':
        return [h_requests(3, names), h_all(False), h_independent(),
                h_cache(), h_sizes(tier)]
    return [h_requests(4, names), h_all(True), h_independent(), h_cache(),
            h_sizes(tier)]
