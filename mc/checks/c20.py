"""C20: Plugins load uniquely and invalid or disabled ones stay out."""

from mc.engine import Harness
from mc import env, stubs
from mc.sizes import sizes

PROPERTY = 'C20'
LOUD = True
ASSUMPTIONS = [
    'entry points can be imported and plugin classes can be instantiated',
]

GROUPS = {'installer': 'xylem.installers', 'os': 'xylem.os',
          'spec': 'xylem.specs'}


def make(kind, name):
    if kind == 'installer':
        return stubs.make_installer(name)
    if kind == 'os':
        return stubs.make_os(name)
    from xylem.specs import Spec

    class StubSpec(Spec):
        name = None
        version = 1

        def unique_id(self, arguments):
            return 'id'

        def load_data(self, arguments):
            return {}

        def verify_arguments(self, arguments):
            pass

        def verify_data(self, data, arguments):
            pass

        def is_data_outdated(self, data, arguments, t):
            return False

        def lookup(self, data, key, ic):
            return {}

        def keys(self, data, ic):
            return []
    StubSpec.name = name
    return StubSpec


def load(kind, disabled=None):
    from xylem.installers.impl import load_installer_plugins
    from xylem.os_support.impl import load_os_plugins
    from xylem.specs import load_spec_plugins
    f = {'installer': load_installer_plugins, 'os': load_os_plugins,
         'spec': load_spec_plugins}[kind]
    return f(disabled) if disabled is not None else f()


def definition(kind, plugin, name, **kw):
    d = {'plugin_name': plugin, 'description': 'some plugin',
         kind: make(kind, name)}
    d.update(kw)
    for k in [k for k, v in d.items() if v is DROP]:
        del d[k]
    return d


DROP = object()


def menu(kind):
    """[(label, definition, plugin name, object name or None if invalid)]"""
    other = 'os' if kind != 'os' else 'installer'

    class Unrelated(object):
        name = 'u'
    good = make(kind, 'g')
    ok = [('pa:a', definition(kind, 'pa', 'a'), 'pa', 'a'),
          ('pb:b', definition(kind, 'pb', 'b'), 'pb', 'b'),
          ('pc:a', definition(kind, 'pc', 'a'), 'pc', 'a'),
          ('pa:c', definition(kind, 'pa', 'c'), 'pa', 'c'),
          ('b:pa', definition(kind, 'b', 'pa'), 'b', 'pa'),
          ('Pa:A', definition(kind, 'Pa', 'A'), 'Pa', 'A'),
          ('p:aa', definition(kind, 'p', 'aa'), 'p', 'aa'),
          ('pd:any_os', definition(kind, 'pd', 'any_os'), 'pd', None),
          ('bad definition', {'plugin_name': 'pb'}, 'pb', None)]
    more = [('extra key', definition(kind, 'pe', 'e', extra=1), 'pe', 'e'),
            ('dots', definition(kind, 'pf', 'a.b-c+1'), 'pf', 'a.b-c+1'),
            ('empty strings', definition(kind, '', 'x', description=''), '',
             'x')]
    for n in ['any_version', 'default_installer', 'unset_installers',
              'any_key', '', 'a b', 'a\n', ' a', 'a/b', None, 5, b'a', ['a'],
              True]:
        more.append(('name %r' % (n,), definition(kind, 'pn', n), 'pn', None))
    for label, d in [
            ('None', None), ('list', []), ('int', 5), ('text', 'pa'),
            ('empty', {}), ('class', good),
            ('no plugin name', definition(kind, 'p', 'a', plugin_name=DROP)),
            ('no description', definition(kind, 'p', 'a', description=DROP)),
            ('no class', definition(kind, 'p', 'a', **{kind: DROP})),
            ('bytes name', definition(kind, b'pa', 'a')),
            ('null name', definition(kind, None, 'a')),
            ('list name', definition(kind, ['pa'], 'a')),
            ('null description', definition(kind, 'p', 'a',
                                            description=None)),
            ('number description', definition(kind, 'p', 'a',
                                              description=3)),
            ('instance', definition(kind, 'p', 'a', **{kind: good()})),
            ('null class', definition(kind, 'p', 'a', **{kind: None})),
            ('text class', definition(kind, 'p', 'a', **{kind: 'Good'})),
            ('unrelated class', definition(kind, 'p', 'u',
                                           **{kind: Unrelated})),
            ('other kind', definition(kind, 'p', 'o',
                                      **{kind: make(other, 'o')})),
            ('under other kind', {'plugin_name': 'p', 'description': 'd',
                                  other: good})]:
        more.append((label, d, None, None))
    return ok, more


def expected(entries, disabled):
    names = []
    taken, dropped = set(), []
    for i, (label, d, plugin, name) in enumerate(entries):
        valid_definition = plugin is not None and label != 'bad definition'
        if valid_definition and plugin in disabled:
            continue
        if name is None:
            dropped.append(i)
        elif name in taken:
            dropped.append(i)
        else:
            taken.add(name)
            names.append((name, i))
    return names, dropped


def verify(c, kind, entries, disabled, form=True, names=None):
    from xylem.plugin_utils import PluginBase
    if names is None:
        names = ['ep%d' % i for i in range(len(entries))]
    env.plugins.script(GROUPS[kind], [
        (n, e[1]) for n, e in zip(names, entries)])
    what = '%s plugins %r with %r disabled' % (
        kind, [e[0] for e in entries], disabled)
    with env.capture() as con:
        st, v = c.call(load, kind, disabled if form else None)
    c.check(st == 'ok', '%s: %s %r', what, st, v)
    want, dropped = expected(entries, disabled)
    c.eq([p.name for p in v], [n for n, _ in want], what)
    for p, (n, i) in zip(v, want):
        c.check(isinstance(p, PluginBase), '%s: %r is no plugin', what, p)
        c.check(type(p) is entries[i][1][kind], '%s: %s is from another '
                'definition', what, n)
    text = env.strip_ansi(con.stdout + con.stderr)
    for i in dropped:
        e = entries[i]
        c.check(names[i] in text or (e[2] or '\0') in text,
                '%s: no message for %s', what, e[0])
    c.check(bool(dropped) or c.loud() or not text.strip(), '%s: prints %r', what, text)
    c.state((kind, tuple(n for n, _ in want), len(dropped)))
    c.observe((tuple(n for n, _ in want), len(dropped)))


def h_sequences(n):
    menus = {k: menu(k)[0] for k in GROUPS}

    def fn(c):
        kind = c.pick(sorted(GROUPS), 'kind')
        m = menus[kind]
        k = c.choose(n + 1, 'plugins')
        entries = [m[c.choose(len(m), 'plugin')] for _ in range(k)]
        disabled = [p for p in ('pa', 'pb', 'a')
                    if c.flag('disabled ' + p)]
        if disabled == ['a']:
            disabled = ['a', 'paa', 'PA']
        verify(c, kind, entries, disabled)
    return Harness('sequences', fn, split=3,
                   note='all sequences of up to %d plugin definitions over '
                   'valid, duplicate, badly named and malformed ones of every '
                   'kind, all subsets of disabled plugin names' % n)


def h_malformed():
    menus = {k: menu(k) for k in GROUPS}

    def fn(c):
        kind = c.pick(sorted(GROUPS), 'kind')
        ok, more = menus[kind]
        e = more[c.choose(len(more), 'definition')]
        before = c.pick([None, 0, 1], 'before')
        after = c.pick([None, 0, 1, 2, len(ok) - 1], 'after')
        entries = ([] if before is None else [ok[before]]) + [e] + (
            [] if after is None else [ok[after]])
        disabled = c.pick([[], ['pa'], ['pn'], ['p', 'pe', '']], 'disabled')
        verify(c, kind, entries, disabled, c.flag('argument given')
               if not disabled else True)
    return Harness('malformed', fn,
                   note='every kind of malformed definition and every invalid '
                   'plugin object name before and after other plugins')


def h_entry_points():
    """The names of the entry points themselves do not matter."""
    menus = {k: menu(k)[0] for k in GROUPS}

    def fn(c):
        kind = c.pick(sorted(GROUPS), 'kind')
        m = menus[kind]
        entries = [m[c.choose(len(m), 'plugin')] for _ in range(2)]
        names = [c.pick(['pa', 'pb', 'a', 'zz'], 'entry point name')
                 for _ in entries]
        disabled = c.pick([[], ['pa'], ['pb'], ['a']], 'disabled')
        verify(c, kind, entries, disabled, names=names)
    return Harness('entry-points', fn, split=2)


def h_disabled():
    """disabled_plugins of the config reaches the right loader."""
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.os_support import OSSupport, UnsupportedOSError
        from xylem.sources import SourcesContext
        for kind, names in (('installer', 'ab'), ('spec', 'ab')):
            env.plugins.script(GROUPS[kind], [
                (n, definition(kind, 'p-' + n, n)) for n in names])
        env.plugins.script(GROUPS['os'], [
            (n, {'plugin_name': 'p-' + n, 'description': 'd',
                 'os': stubs.make_os(n, versions=['v1'],
                                     detected='v1', core=['b', 'a'])})
            for n in 'ab'])
        dis = {}
        for kind in ('installer', 'os', 'spec'):
            dis[kind] = [p for p in ('p-a', 'p-b') if c.flag(
                'disable %s %s' % (kind, p))]
        cfg = stubs.config(disabled_plugins=dis)
        override = c.pick([None, ('a', 'v1'), ('b', 'v1')], 'override')
        cfg.os_override = override
        cfg.sources_dir = cfg.cache_dir = '/nonexistent'
        cfg.default_sources = None
        left = {k: [n for n in 'ab' if 'p-' + n not in dis[k]] for k in dis}
        what = '%r disabled, override %r' % (dis, override)
        with env.capture():
            s = OSSupport(dis['os'])
            c.eq(sorted(p.name for p in s.os_plugins), left['os'], what + ': OS names')
            st, ic = c.call(InstallerContext, config=cfg)
            want = override[0] if override else (left['os'] or [None])[0]
            if want not in left['os']:
                c.check(st == 'exc' and isinstance(ic, UnsupportedOSError),
                        '%s: %s %r', what, st, ic)
                c.observe('unsupported')
                return
            c.check(st == 'ok', '%s: %s %r', what, st, ic)
        c.eq(ic.get_os_tuple(), (want, 'v1'), what)
        c.eq(ic.installer_plugin_names, left['installer'],
             what + ': installer plugins')
        c.eq(ic.core_installer_names,
             [n for n in 'ba' if n in left['installer']],
             what + ': core installers')
        for n in 'ab':
            inst = ic.lookup_installer(n)
            c.eq(inst.name if inst else None,
                 n if n in left['installer'] else None, what + ': installer')
        if left['spec']:
            with env.capture():
                sc = SourcesContext(config=cfg)
            c.eq([p.name for p in sc.spec_plugins], left['spec'],
                 what + ': spec plugins')
        c.observe(repr((want, left)))
    return Harness('disabled', fn,
                   note='all sets of disabled plugins of each kind in the '
                   'config, all OS overrides')


def h_sizes(tier):
    """Many plugins, some with duplicate, disabled or invalid names."""
    cache = {}

    def plugin(kind, i, name):
        if (kind, i, name) not in cache:
            cache[kind, i, name] = definition(kind, 'p%04d' % i, name)
        return cache[kind, i, name]

    def fn(c):
        kind = c.pick(sorted(GROUPS), 'kind')
        n = c.pick(sizes(tier)[1:], 'plugins')
        odd = c.pick([None, 'duplicate', 'invalid', 'disabled'], 'odd ones')
        which = c.pick([[n - 1], [0], list(range(0, n, 2))], 'which')
        entries, disabled = [], []
        for i in range(n):
            name, label = 'n%04d' % i, 'plugin %d' % i
            if i in which and odd == 'disabled':
                disabled.append('p%04d' % i)
            if i in which and odd == 'duplicate':
                name = 'n0001'
            if i in which and odd == 'invalid':
                name = 'any_os'
            entries.append((label, plugin(kind, i, name), 'p%04d' % i,
                            None if name == 'any_os' else name))
        verify(c, kind, entries, disabled)
    return Harness('sizes', fn, split=2, note='every number of plugins, with '
                   'some of them disabled, invalid or duplicates')


def harnesses(tier):
    return [h_sequences(3 if tier == 'quick' else 5), h_malformed(),
            h_entry_points(), h_disabled(), h_sizes(tier)]
