"""C22: Resolution uses the preferred, default or available installer."""

import itertools

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import mem_database
from mc.sizes import sizes

PROPERTY = 'C22'
LOUD = True
ASSUMPTIONS = [
    'among several additional installers with a rule, any may be used',
]

LOADED = ['a', 'b', 'c', 'd', 'e']      # x is no known installer

_IC = {}


def context(core, extra, default, loaded=LOADED):
    from xylem.installers import InstallerContext
    key = (tuple(core), tuple(extra), default, tuple(loaded))
    if key not in _IC:
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=core,
                                      default=default)],
                       [stubs.make_installer(n, additional=n in extra)
                        for n in loaded])
        with env.capture():
            _IC[key] = InstallerContext(config=stubs.config())
    return _IC[key]


def rules(key, installers, where='ubuntu'):
    return {key: {where: {'any_version': {
        i: {'packages': ['%s-%s' % (i, key)]} for i in installers}}}}


def select(key, has_rule, requested, core, extra, loaded=LOADED):
    """-> set of acceptable installers, empty if resolving is an error"""
    if requested is not None:
        return {requested} if requested in loaded and requested in has_rule \
            else set()
    for i in core:
        if i in has_rule and i in loaded:
            return {i}
    return {i for i in extra if i in has_rule and i not in core and
            i in loaded}


def run(c, keys, want, what, **kw):
    """Resolve; ``want``: {key: acceptable installers}."""
    from xylem.resolve import resolve, ResolutionError
    with env.capture():
        st, v = c.call(resolve, list(keys), **kw)
    c.check(st == 'ok', '%s: %s %r', what, st, v)
    results, errors = v
    got = {}
    for k, (inst, resolutions) in results:
        c.check(k not in got, '%s: %r resolved twice', what, k)
        got[k] = inst
        c.check(k in want and inst in want[k], '%s: %r resolved with %r, '
                'expected one of %r', what, k, inst, want.get(k))
        c.eq([r.package for r in resolutions], ['%s-%s' % (inst, k)],
             '%s: packages of %r' % (what, k))
    bad = [k for k, _ in errors]
    c.eq(sorted(bad), sorted(k for k in want if not want[k]),
         what + ': keys with errors')
    for _k, e in errors:
        c.check(isinstance(e, ResolutionError), '%s: error %r', what, e)
    c.eq(sorted(got), sorted(k for k in want if want[k]),
         what + ': resolved keys')
    return got


def h_select(cores):
    names = LOADED + ['x']

    def fn(c):
        core = c.pick(cores, 'core')
        extra = c.pick([[], ['c'], ['c', 'd'], ['d', 'a']], 'additional')
        default = c.pick(['b', 'e', None], 'default')
        req = c.pick([None, 'a', 'b', 'c', 'e', 'x'], 'requested')
        has = c.subset(names, 'rules')
        rs = rules('k', has)
        if not has:
            rs = dict(rules('k', ['a'], 'other'), **rules('k2', ['a']))
        ic = context(core, extra, default)
        db = mem_database([rs])
        cfg = stubs.config()
        cfg.install_from = {} if req is None else {req: ['k']}
        what = ('core %r, additional %r, default %r, rules for %r, '
                'requested %r' % (core, extra, default, has, req))
        want = select('k', has, req, core, extra)
        got = run(c, ['k'], {'k': want}, what, config=cfg, database=db,
                  installer_context=ic)
        c.observe(repr(got))
    return Harness('select', fn, split=3,
                   note='all sets of rules over five loaded and one unknown '
                   'installer, core orders, additional sets, default and '
                   'requested installers')


def h_placeholder():
    """The default-installer placeholder is a rule of the default only."""
    def fn(c):
        core = c.pick([['a', 'b'], ['b', 'a'], ['c'], []], 'core')
        extra = c.pick([[], ['d'], ['a', 'b']], 'additional')
        default = c.pick(['a', 'b', 'e', 'x', None], 'default')
        has = c.subset(['a', 'b', 'd'], 'rules')
        req = c.pick([None, 'a', 'b', 'default_installer'], 'requested')
        rs = rules('k', has or ['z'])
        entry = {'default_installer': {'packages': ['%s-k' % default]}}
        if default in has:
            c.prune()
        rs['k']['ubuntu']['any_version'].update(entry)
        ic = context(core, extra, default)
        cfg = stubs.config()
        cfg.install_from = {} if req is None else {req: ['k']}
        rule = set(has) | ({default} if default else set())
        what = ('core %r, additional %r, default %r, rules for %r, '
                'requested %r' % (core, extra, default, has, req))
        want = select('k', rule, req, core, extra)
        if default is None:
            want = set()
        got = run(c, ['k'], {'k': want}, what, config=cfg,
                  database=mem_database([rs]), installer_context=ic)
        c.observe(repr(got))
    return Harness('placeholder', fn,
                   note='rules for the default installer placeholder, all '
                   'default, core and requested installers')


def h_install_from():
    """The mapping concerns exactly the keys it lists."""
    keys = ['k', 'kk', 'l']

    def fn(c):
        has = {}
        rs = {}
        for k in keys:
            has[k] = c.pick([['a', 'b'], ['b'], ['c', 'a']], 'rules of ' + k)
            rs.update(rules(k, has[k]))
        m = {}
        for inst in ('b', 'a', 'x'):
            v = c.pick(['absent', None, [], ['k'], ['k', 'l'], ['kk'],
                        ['K', 'nokey', 'kk']], inst)
            if v != 'absent':
                m[inst] = v
        first = {}
        for inst, ks in m.items():
            for k in ks or []:
                first.setdefault(k, inst)
        ic = context(['a', 'b'], ['c'], None)
        form = c.pick(['object', 'global'], 'config')
        cfg = stubs.config()
        cfg.install_from = m
        kw = {'config': cfg}
        if form == 'global':
            from xylem.config import get_config, set_config
            set_config(cfg)
            kw = {}
        what = 'rules for %r, install_from %r' % (has, m)
        want = {}
        for k in keys:
            req = first.get(k)
            want[k] = select(k, has[k], req, ['a', 'b'], ['c'])
            n = [i for i in m if k in (m[i] or [])]
            if len(n) > 1:
                # conflicting requests: one of them is followed
                opts = [select(k, has[k], i, ['a', 'b'], ['c']) for i in n]
                want[k] = opts
        from xylem.resolve import resolve
        with env.capture():
            st, v = c.call(resolve, list(keys),
                           database=mem_database([rs]),
                           installer_context=ic, **kw)
        if form == 'global':
            set_config(stubs.config())
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        results, errors = v
        got = {k: {inst} for k, (inst, _r) in results}
        for k, _e in errors:
            c.check(k not in got, '%s: %r resolved and failed', what, k)
            got[k] = set()
        for k, (inst, r) in results:
            c.eq([x.package for x in r], ['%s-%s' % (inst, k)],
                 '%s: packages of %r' % (what, k))
        for k in keys:
            w = want[k] if isinstance(want[k], list) else [want[k]]
            c.check(got.get(k) in w, '%s: %r resolved with %r, expected %r',
                    what, k, got.get(k), w)
        c.observe(repr(sorted((k, sorted(v)) for k, v in got.items())))
    return Harness('install from', fn, split=3,
                   note='all install_from mappings of three installers to '
                   'lists of keys incl. null, unknown and conflicting ones')


def h_sizes(tier):
    """Many installers, the rules of which name only some."""
    def fn(c):
        n = c.pick(sizes(tier, 130 if tier == 'quick' else None)[1:],
                   'installers')
        names = ['i%04d' % i for i in range(n)]
        has = {'all': names, 'last': names[-1:], 'first': names[:1],
               'second half': names[n // 2:], 'none': []}[c.pick(
                   ['all', 'last', 'first', 'second half', 'none'], 'rules')]
        core = {'all': names, 'reversed': names[::-1],
                'all but last': names[:-1], 'none': []}[c.pick(
                    ['all', 'reversed', 'all but last', 'none'], 'core')]
        extra = names if not has[1:] and c.flag('others additional') else []
        req = c.pick([None, names[-1], names[0], 'x'], 'requested')
        ic = context(core, extra, None, names)
        db = mem_database([rules('k', has or ['z'])])
        cfg = stubs.config()
        cfg.install_from = {} if req is None else {req: ['k']}
        what = ('%d installers, %d core, %d additional, %d rules, requested '
                '%r' % (n, len(core), len(extra), len(has), req))
        got = run(c, ['k'], {'k': select('k', has, req, core, extra, names)},
                  what, config=cfg, database=db, installer_context=ic)
        c.observe(repr(got))
    return Harness('sizes', fn, split=1, note='every number of installers '
                   'with rules for all, some or one of them')


def harnesses(tier):
    cores = [['a', 'b'], ['b', 'a'], ['b'], []]
    if tier != 'quick':
        cores = [list(p) for k in range(4)
                 for p in itertools.permutations('abe', k)] + [['x', 'a']]
    return [h_select(cores), h_placeholder(), h_install_from(), h_sizes(tier)]
