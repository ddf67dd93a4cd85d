"""C21: The set of installers for a platform is the configured one."""

import itertools

from mc.engine import Harness
from mc import env, stubs
from mc.checks import c13
from mc.sizes import sizes

PROPERTY = 'C21'
LOUD = True
ASSUMPTIONS = [
    'a list of core installers names every installer at most once',
]

OS = ('ubuntu', 'v1')


def os_class(core, name=OS[0], version=OS[1]):
    class Os(stubs.make_os(name, versions=['v1', 'v2'], detected=version,
                           default='b')):
        PLUGIN = name

        def get_core_installers(self, version, options):
            return list(core(version, options) if callable(core) else core)
    return Os


def sequences(names, n):
    return [list(p) for k in range(n + 1)
            for p in itertools.permutations(names, k)]


def contents(c, ic, core, extra, plugins, what):
    """All views of the installer set agree with the expected one."""
    c.eq(ic.core_installer_names, core, what + ': core installers')
    c.eq(ic.additional_installer_names, extra,
         what + ': additional installers')
    c.eq(ic.installer_names, core + extra, what + ': all installers')
    c.eq([i.name for i in ic.installers], core + extra,
         what + ': installer objects')
    c.eq(ic.installer_plugin_names, plugins, what + ': plugins')
    for i in ic.installers:
        c.check(ic.lookup_installer(i.name) is i, '%s: two objects for %s',
                what, i.name)
    c.check(ic.lookup_installer('x') is None, '%s: unknown installer found',
            what)


def h_sets(names, n):
    lists = sequences(names + ['x'], n)
    plugin_lists = sequences(names, len(names))

    def fn(c):
        from xylem.installers import InstallerContext
        plugins = c.pick(plugin_lists, 'plugins')
        extra = [p for p in plugins if c.flag(p + ' is additional')]
        core = c.pick(lists, 'core installers')
        where = c.pick(['os', 'config', 'config, os names all'], 'from')
        use = c.flag('use additional')
        seen = []

        def additional(name):
            def f(os_tuple):
                seen.append(os_tuple)
                return name in extra and os_tuple == OS
            return f
        stubs.platform(
            [os_class(core if where == 'os' else [] if where == 'config'
                      else list(names)), os_class(['y'], 'other', None)],
            [stubs.make_installer(p, additional=additional(p))
             for p in plugins])
        cfg = stubs.config(use_additional_installers=use,
                           core_installers=None if where == 'os' else core)
        with env.capture() as con:
            ic = InstallerContext(config=cfg)
        what = 'plugins %r, additional %r, core %r from %s, use %r' % (
            plugins, extra, core, where, use)
        want = [i for i in core if i in plugins]
        more = [p for p in plugins if p in extra and p not in want] \
            if use else []
        contents(c, ic, want, more, plugins, what)
        c.check(set(seen) <= {OS}, '%s: asked for %r', what, seen)
        text = env.strip_ansi(con.stdout + con.stderr)
        for i in core:
            if i not in plugins:
                c.check("'%s'" % i in text or i in text.split(),
                        '%s: unknown %s not reported', what, i)
        if want == core:
            c.check(c.loud() or not text.strip(), '%s: prints %r', what, text)
        c.check(ic.get_default_installer_name() == 'b', '%s: default', what)
        c.state((tuple(plugins), tuple(want), tuple(more)))
        c.observe((tuple(want), tuple(more)))
    return Harness('sets', fn, split=3,
                   note='all orders of all subsets of %d installer plugins, '
                   'all core installer lists up to length %d incl. an unknown '
                   'one from the OS plugin or the config, all sets of '
                   'additional installers' % (len(names), n))


def h_names():
    """Installers are found under exactly their names."""
    names = ['a-b', 'a', 'A', 'a_b', 'a b', 'ab', '', ' a', 'a-', 'b', 'a-b-c']

    def fn(c):
        from xylem.installers import InstallerContext
        plugins = c.pick([['a-b', 'a'], ['a', 'a-b', 'b'], ['a_b', 'A'],
                          ['a-b'], ['ab', 'a-b-c'], ['a', 'A', 'ab']],
                         'plugins')
        core = [c.pick(names, 'first'), c.pick(names, 'second')]
        if core[0] == core[1]:
            c.prune()
        where = c.pick(['os', 'config'], 'from')
        options = c.pick(names, 'options of')
        stubs.platform([os_class(core if where == 'os' else ['b'])],
                       [stubs.make_installer(p) for p in plugins])
        cfg = stubs.config(core_installers=None if where == 'os' else core,
                           installer_options={options: {'as_root': False}})
        with env.capture() as con:
            ic = InstallerContext(config=cfg)
        what = 'plugins %r, core %r from %s, options of %r' % (
            plugins, core, where, options)
        want = [i for i in core if i in plugins]
        contents(c, ic, want, [], plugins, what)
        for n in names:
            i = ic.lookup_installer(n)
            c.eq(getattr(i, 'name', None), n if n in plugins else None,
                 '%s: lookup of %r' % (what, n))
        for i in ic.installers:
            c.eq(i.options.as_root, i.name != options,
                 '%s: as_root of %s' % (what, i.name))
        text = env.strip_ansi(con.stdout + con.stderr)
        if want == core:
            c.check(c.loud() or not text.strip(), '%s: prints %r', what, text)
        else:
            c.check(text.strip(), '%s: reports nothing', what)
        c.observe(repr(want))
    return Harness('names', fn, split=2,
                   note='installers and core installers whose names differ '
                   'in case, separators or white space or contain each other')


def h_platform():
    """Core and additional installers depend on OS, version and options."""
    def fn(c):
        from xylem.installers import InstallerContext

        def core(version, options):
            return (['a', 'b'] if version == 'v1' else ['b']) + (
                ['f'] if 'f' in options.features else [])
        detected = c.pick(['v1', 'v2'], 'detected')
        plugins = [
            stubs.make_installer('a'),
            stubs.make_installer('b', additional=lambda t: t[0] == 'deb'),
            stubs.make_installer('f', additional=lambda t: t[1] == 'v2'),
            stubs.make_installer('g', additional=lambda t: t == (
                'ubuntu', 'v1')),
            stubs.make_installer('h', additional=True)]
        stubs.platform([os_class(core, 'ubuntu', detected),
                        os_class(['a'], 'deb', None)], plugins)
        override = c.pick([None, ('ubuntu', 'v1'), ('ubuntu', 'v2'),
                           ('ubuntu', None), ('deb', 'v1'), ('deb', 'v2')],
                          'override')
        feats = c.pick([None, [], ['f'], ['g', 'f']], 'features')
        cfg = stubs.config(os_override=override)
        if feats is not None:
            cfg.os_options = {'features': feats}
        with env.capture():
            ic = InstallerContext(config=cfg)
        name, version = override or ('ubuntu', detected)
        version = version or detected
        if name == 'ubuntu':
            want = (['a', 'b'] if version == 'v1' else ['b']) + (
                ['f'] if 'f' in (feats or []) else [])
        else:
            want = ['a']
        more = []
        for p in 'abfgh':
            if p not in want and (
                    (p == 'b' and name == 'deb') or
                    (p == 'f' and version == 'v2') or
                    (p == 'g' and (name, version) == ('ubuntu', 'v1')) or
                    p == 'h'):
                more.append(p)
        what = 'detected %r, override %r, features %r' % (
            detected, override, feats)
        contents(c, ic, want, more, list('abfgh'), what)
        c.observe((tuple(want), tuple(more)))
    return Harness('platform', fn, note='all OS overrides, versions and '
                   'features')


DESCRIBED = {'num': ('Integer', 1), 'txt': ('String', 'd'),
             'lst': ('List', None)}

#        given options -> effective options, unknown ones, or error
CASES = [
    (None, {}, []), ({}, {}, []),
    ({'as_root': False}, {'as_root': False}, []),
    ({'as_root': True}, {}, []),
    ({'txt': 'x'}, {'txt': 'x'}, []),
    ({'txt': ''}, {'txt': ''}, []),
    ({'txt': None}, {}, []),
    ({'lst': ['p', 'q'], 'as_root': False},
     {'lst': ['p', 'q'], 'as_root': False}, []),
    ({'lst': []}, {'lst': []}, []),
    ({'odd': 1}, {}, ['odd']),
    ({'odd': 1, 'peculiar': None, 'txt': 'y'}, {'txt': 'y'},
     ['odd', 'peculiar']),
    ({'as_root': 'maybe'}, 'error', []),
    ({'as_root': []}, 'error', []),
    ({'txt': ['a']}, 'error', []),
    ({'lst': {'a': 1}}, 'error', []),
    ({'lst': [['a']]}, 'error', []),
]


def h_options():
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.config_utils import Boolean, String, List, ConfigValueError
        described = {'txt': dict(type=String, default='d'),
                     'lst': dict(type=List(String), default=['l'])}
        names = ['a', 'b', 'c']
        opts = {}
        given = {}
        for n in names[:2]:
            i = c.choose(len(CASES) + 1, n)
            if i < len(CASES):
                opts[n] = CASES[i][0]
                given[n] = CASES[i]
        if c.flag('options for an installer that is not loaded'):
            opts['zzz'] = {'as_root': 'maybe'}
        core = c.pick([['a'], ['b', 'a'], []], 'core')
        stubs.platform([os_class(core)], [
            stubs.make_installer(n, options=described) for n in names])
        cfg = stubs.config(installer_options=opts)
        what = 'options %r' % opts
        with env.capture() as con:
            st, ic = c.call(InstallerContext, config=cfg)
        text = env.strip_ansi(con.stdout + con.stderr)
        bad = [n for n in given if given[n][1] == 'error']
        if bad:
            c.check(st == 'exc' and isinstance(ic, ConfigValueError),
                    '%s: %s %r', what, st, ic)
            c.check(any("'%s'" % n in str(ic) for n in bad),
                    '%s: error %s does not name the installer', what, ic)
            c.observe('error')
            return
        c.check(st == 'ok', '%s: %s %r', what, st, ic)
        for n in names:
            want = {'as_root': True, 'txt': 'd', 'lst': ['l']}
            if n in given:
                want.update(given[n][1])
            got = dict(ic.lookup_installer(n).options)
            c.eq(got, want, '%s: of installer %s' % (what, n))
        unknown = [u for n in given for u in given[n][2]]
        for u in unknown:
            c.check(u in text, '%s: unknown option %s not reported', what, u)
        if not unknown:
            c.check(c.loud() or not text.strip(), '%s: prints %r', what, text)
        c.observe(repr(sorted((n, given[n][1].items()) for n in given)))
    return Harness('options', fn, note='all pairs of valid, unset, unknown '
                   'and invalid options of two installers')


def h_config():
    """The settings reach the context from files and the command line."""
    def fn(c):
        from xylem.config import get_config_description
        from xylem.installers import InstallerContext
        values = {'core_installers': [None, ['b', 'a'], [], ['x', 'b']],
                  'use_additional_installers': [None, True, False]}
        docs = {'u': {}, 's': {}}
        argv = []
        eff = {}
        for name, vs in sorted(values.items()):
            for layer in ('s', 'u'):
                v = c.pick(vs, '%s %s' % (name, layer))
                if v is not None:
                    docs[layer][name] = v
                    eff[name] = v
            if name == 'core_installers':
                v = c.pick(['', 'a,b', 'b'], 'argument')
                if v:
                    argv += ['--core-installers', v]
                    eff[name] = v.split(',')
        d = c13.Dirs(c)
        c13.write(d.user('xylem'), docs['u'])
        c13.write(d.system('xylem'), docs['s'])
        cfg = c13.load(get_config_description(),
                       argv + ['--prefix', d.prefix], 'xylem')
        stubs.platform([os_class(['a', 'c'])], [
            stubs.make_installer(n, additional=n != 'c') for n in 'abcd'])
        with env.capture():
            ic = InstallerContext(config=cfg)
        core = [i for i in eff.get('core_installers', ['a', 'c']) if i != 'x']
        use = eff.get('use_additional_installers', True)
        contents(c, ic, core, [n for n in 'abd' if n not in core]
                 if use else [], list('abcd'), 'files %r, arguments %r' % (
                     docs, argv))
        c.observe(repr((core, use)))
    return Harness('config', fn, note='core_installers and '
                   'use_additional_installers in user file, system file and '
                   'command line')


def h_again(depth):
    """Setting up the same context repeatedly leaves nothing behind."""
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.config_utils import String
        stubs.platform([os_class(['a', 'c'])], [
            stubs.make_installer(n, additional=n != 'c', options={
                'txt': dict(type=String, default='d')}) for n in 'abc'])
        cfg = stubs.config()
        with env.capture():
            ic = InstallerContext(config=cfg, setup_installers=False)
        contents(c, ic, [], [], list('abc'), 'before setup')
        trace = []
        core, use, txt = ['a', 'c'], True, {}
        for _ in range(depth):
            op = c.pick(['setup', 'core b', 'core x,a', 'core', 'no add',
                         'add', 'opt a', 'opt b', 'no opt'], 'op')
            trace.append(op)
            if op.startswith('core'):
                core = op[5:].split(',') if op[5:] else None
                ic.config.core_installers = core
                core = [i for i in core if i != 'x'] if core else ['a', 'c']
            elif op in ('no add', 'add'):
                use = op == 'add'
                ic.config.use_additional_installers = use
            elif op == 'no opt':
                ic.config.installer_options = {}
                txt = {}
            elif op.startswith('opt'):
                ic.config.installer_options = {op[4:]: {'txt': 'set'}}
                txt = {op[4:]: 'set'}
            with env.capture():
                ic.setup_installers()
            contents(c, ic, core, [n for n in 'ab' if n not in core]
                     if use else [], list('abc'), repr(trace))
            for n in 'abc':
                c.eq(ic.lookup_installer(n).options.txt, txt.get(n, 'd'),
                     '%r: options of %s' % (trace, n))
            c.state((tuple(core), use, tuple(txt.items())))
        c.observe(repr((core, use, txt)))
    return Harness('again', fn, note='all sequences of %d config changes '
                   'followed by setup_installers' % depth)


def h_sizes(tier):
    """Many plugins, core installers and options."""
    def fn(c):
        from xylem.installers import InstallerContext
        n = c.pick(sizes(tier)[1:], 'plugins')
        names = ['i%04d' % i for i in range(n)]
        core = {'all': names, 'reversed': names[::-1], 'last': names[-1:],
                'every third': names[::3], 'and unknown': ['x'] + names,
                'none': []}[c.pick(['all', 'reversed', 'last', 'every third',
                                    'and unknown', 'none'], 'core')]
        extra = {'all': names, 'last': names[-1:], 'none': [],
                 'every second': names[1::2]}[c.pick(
                     ['all', 'last', 'none', 'every second'], 'additional')]
        where = c.pick(['os', 'config'], 'from')
        stubs.platform(
            [os_class(core if where == 'os' else [])],
            [stubs.make_installer(p, additional=p in extra) for p in names])
        cfg = stubs.config(
            core_installers=None if where == 'os' else core,
            installer_options={p: {'as_root': False} for p in extra})
        with env.capture() as con:
            ic = InstallerContext(config=cfg)
        what = '%d plugins, %d core from %s, %d additional' % (
            n, len(core), where, len(extra))
        want = [i for i in core if i != 'x']
        more = [i for i in extra if i not in want]
        contents(c, ic, want, more, names, what)
        for p in ic.installer_plugins:
            c.eq(p.options.as_root, p.name not in extra,
                 '%s: as_root of %s' % (what, p.name))
        text = env.strip_ansi(con.stdout + con.stderr)
        c.check(c.loud() or bool(text.strip()) == ('x' in core),
                '%s: prints %r', what, text)
        c.observe((len(want), len(more)))
    return Harness('sizes', fn, split=1,
                   note='every number of plugins with core and additional '
                   'installers among them')


def harnesses(tier):
    if tier == 'quick':
        return [h_sets(['a', 'b', 'c'], 2), h_platform(), h_options(),
                h_config(), h_names(), h_again(3), h_sizes(tier)]
    return [h_sets(['a', 'b', 'c'], 4), h_platform(), h_options(),
            h_config(), h_names(), h_again(4), h_sizes(tier)]
