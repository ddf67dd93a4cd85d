"""C19: OS facade reports the overridden OS consistently."""

from mc.engine import Harness
from mc import env, stubs

PROPERTY = 'C19'
LOUD = True
ASSUMPTIONS = []

VERSIONS = {'ubuntu': ['v1', 'v2'], 'deb': ['v1', 'w'], 'osx': ['x']}
DEFAULT = {'ubuntu': 'apt', 'deb': 'dpkg', 'osx': None}
PARENTS = {'ubuntu': ['deb'], 'deb': [], 'osx': []}


def make(name, detected):
    cls = stubs.make_os(name, versions=VERSIONS[name], detected=detected,
                        default=DEFAULT[name], parents=PARENTS[name])

    class Os(cls):
        def get_core_installers(self, version, options):
            return ['core-%s-%s' % (name, version)] + [
                'feat-' + f for f in options.features]
    Os.PLUGIN = name
    return Os


SEEN = []


def installers():
    out = []
    for n, vs in VERSIONS.items():
        for v in vs + ['v9']:
            out.append(stubs.make_installer('core-%s-%s' % (n, v)))

    def additional(os_tuple):
        SEEN.append(os_tuple)
        return os_tuple == ('ubuntu', 'v2')
    out.append(stubs.make_installer('feat-f'))
    out.append(stubs.make_installer('add', additional=additional))
    return out


OVERRIDES = [('ubuntu', 'v1'), ('ubuntu', 'v2'), ('ubuntu', None),
             ('ubuntu', 'bad'), ('deb', 'w'), ('deb', None), ('deb', 'v2'),
             ('osx', 'x'), ('osx', None), ('no', 'v1'), ('no', None),
             ('', None), ('ubuntu', ''), None]


def queries(c, s, ic, name, version, what):
    """Every query of the facade agrees."""
    os = s.current_os
    c.eq(os.name, name, what + ': name')
    c.eq(list(os.all_names), [name] + PARENTS[name], what + ': all names')
    c.eq(os.get_version(), version, what + ': version')
    c.eq(os.get_tuple(), (name, version), what + ': tuple')
    c.eq(os.get_all_tuples(version), [(name, version)] + [
        (p, None) for p in PARENTS[name]], what + ': all tuples')
    c.eq(os.default_installer, DEFAULT[name], what + ': default installer')
    c.eq(list(os.known_versions), VERSIONS[name], what + ': versions')
    c.check(os.is_os(), '%s: is_os', what)
    vs = VERSIONS[name]
    less = os.version_less_fn
    for a in vs:
        for b in vs:
            c.eq(less(a, b), vs.index(a) < vs.index(b), what + ': order')
    c.eq(ic.get_os_tuple(), (name, version), what + ': context tuple')
    c.eq(ic.get_os_string(), '%s:%s' % (name, version), what + ': string')
    c.eq(ic.get_default_installer_name(), DEFAULT[name], what + ': default')
    c.check(ic.get_os() is os, '%s: context OS', what)
    feats = [] if not os.options.features else list(os.options.features)
    c.eq(list(os.get_core_installers(version, os.options)),
         ['core-%s-%s' % (name, version)] + ['feat-' + f for f in feats],
         what + ': core installers')
    del SEEN[:]
    with env.capture():
        ic.setup_installers()
    c.eq(ic.core_installer_names, ['core-%s-%s' % (name, version)] + [
        'feat-' + f for f in feats], what + ': core installers of context')
    c.eq(ic.additional_installer_names,
         ['add'] if (name, version) == ('ubuntu', 'v2') else [],
         what + ': additional installers')
    c.check(set(SEEN) == {(name, version)}, '%s: additional installers asked for '
            '%r', what, SEEN)
    c.eq(s.get_default_installer_names(), DEFAULT,
         what + ': default installers of all OSs')


DETECT = [{'ubuntu': 'v1'}, {'deb': 'w'}, {'ubuntu': 'v9', 'deb': 'v1'},
          {'osx': 'x', 'deb': 'v1'}, {}]


def h_history(depth):
    def fn(c):
        from xylem.os_support import (OSSupport, UnsupportedOSError,
                                      UnsupportedOSVersionError)
        from xylem.installers import InstallerContext
        detected = c.pick(DETECT, 'running on')
        stubs.platform([make(n, detected.get(n)) for n in
                        ('deb', 'osx', 'ubuntu')], installers())
        s = OSSupport()
        ic = InstallerContext(config=stubs.config(), os_support=s,
                              setup_installers=False)
        current = None
        first = [n for n in ('deb', 'osx', 'ubuntu') if n in detected and
                 not any(n in PARENTS[m] for m in detected)][:1]
        trace = []
        for step in range(depth):
            ops = ['query', 'detect', 'options'] + OVERRIDES
            op = c.pick(ops, 'step %d' % step)
            trace.append(op)
            c.event(repr(op))
            what = 'on %r after %r' % (detected, trace)
            want = 'ok'
            with env.capture():
                if op == 'query':
                    st, v = c.call(lambda: s.current_os)
                    if current is None:
                        if first:
                            current = (first[0], detected[first[0]])
                        else:
                            want = UnsupportedOSError
                elif op == 'options':
                    if current is None:
                        c.prune()
                    s.current_os.options = {'features': ['f']}
                    st, v = 'ok', None
                elif op == 'detect':
                    st, v = c.call(s.detect_os)
                    if first:
                        current = (first[0], detected[first[0]])
                    else:
                        want = UnsupportedOSError
                else:
                    st, v = c.call(s.override_os, op)
                    if op is None:
                        pass
                    elif op[0] not in VERSIONS:
                        want = UnsupportedOSError
                    elif op[1] is None:
                        if detected.get(op[0]) is None:
                            want = UnsupportedOSVersionError
                        else:
                            current = (op[0], detected[op[0]])
                    elif op[1] not in VERSIONS[op[0]]:
                        want = UnsupportedOSVersionError
                    else:
                        current = op
            if not c.fresh():
                continue
            if want == 'ok':
                c.check(st == 'ok', '%s: raised %r', what, v)
            else:
                c.check(st == 'exc' and isinstance(v, want), '%s: %r', what,
                        v)
            if current is not None:
                queries(c, s, ic, current[0], current[1], what)
            c.state(repr((detected, current)))
        c.observe(repr(current))
    return fn


def h_context():
    """Config with and without override, then a change of the override."""
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.os_support import UnsupportedOSError, \
            UnsupportedOSVersionError
        detected = c.pick(DETECT, 'running on')
        stubs.platform([make(n, detected.get(n)) for n in
                        ('deb', 'osx', 'ubuntu')], installers())
        over = c.pick(OVERRIDES, 'override')
        feats = c.pick([[], ['f']], 'features')
        cfg = stubs.config(os_override=over, os_options={'features': feats},
                           disabled_plugins={'os': c.pick(
                               [[], ['deb']], 'disabled')})
        off = cfg.disabled_plugins.os
        first = [n for n in ('deb', 'osx', 'ubuntu') if n in detected and
                 n not in off and not any(n in PARENTS[m] for m in detected
                                          if m not in off)][:1]
        with env.capture():
            st, ic = c.call(InstallerContext, cfg)
        if over is None:
            cur = (first[0], detected[first[0]]) if first else None
        elif over[0] not in VERSIONS or over[0] in off:
            cur = None
        elif over[1] is None:
            cur = (over[0], detected[over[0]]) if over[0] in detected \
                else None
        else:
            cur = over if over[1] in VERSIONS[over[0]] else None
        what = 'on %r with override %r, features %r, disabled %r' % (
            detected, over, feats, off)
        if cur is None:
            c.check(st == 'exc' and isinstance(ic, (
                UnsupportedOSError, UnsupportedOSVersionError)), '%s: %r',
                what, ic)
            c.observe('error')
            return
        c.check(st == 'ok', '%s: raised %r', what, ic)
        c.eq(list(ic.get_os().options.features), feats, what + ': features')
        if not off:
            queries(c, ic.os_support, ic, cur[0], cur[1], what)
        else:
            c.eq(ic.get_os_tuple(), cur, what)
        c.observe(repr(cur))
    return fn


RELEASES = {
    'debian': ['etch', 'lenny', 'squeeze', 'wheezy', 'jessie'],
    'ubuntu': ['lucid', 'maverick', 'natty', 'oneiric', 'precise', 'quantal',
               'raring', 'saucy', 'trusty', 'utopic'],
    'osx': ['tiger', 'leopard', 'snow', 'lion', 'mountain lion', 'mavericks',
            'yosemite'],
}
RELEASES['xubuntu'] = RELEASES['ubuntu']


def h_versions():
    """The order of versions, for the real plugins and any list."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSVersionError
        from xylem.os_support import plugins as p
        from xylem.os_support.os_base import version_order_from_list
        which = c.pick(['debian', 'ubuntu', 'xubuntu', 'osx', 'list'], 'os')
        if which == 'list':
            vs = c.perm(['10.9', '10.10', 'b', 'a'], 'versions')
            mine = list(vs)
            less = version_order_from_list(mine)
            mine.reverse()
            mine.append('zz')
        else:
            env.plugins.script('xylem.os', [(which, getattr(
                p, which + '_definition'))])
            s = OSSupport()
            vs = list(s.lookup_os(which).known_versions)
            c.check(len(vs) == len(set(vs)) and len(vs) > 3,
                    'versions of %s: %r', which, vs)
            c.eq([v for v in vs if v in RELEASES[which]], RELEASES[which],
                 'releases of %s' % which)
            if c.flag('overridden'):
                s.override_os((which, c.pick(vs, 'override')))
                less = s.current_os.version_less_fn
            else:
                less = s.lookup_os(which).version_less_fn
        a = c.choose(len(vs) + 1, 'a')
        b = c.choose(len(vs) + 1, 'b')
        va, vb = (vs + ['zz'])[a], (vs + ['zz'])[b]
        st, v = c.call(less, va, vb)
        if 'zz' in (va, vb):
            c.check(isinstance(v, UnsupportedOSVersionError),
                    '%s: %r < %r: %r', which, va, vb, v)
        else:
            c.eq((st, bool(v)), ('ok', a < b), '%s: %r < %r' % (which, va,
                                                                vb))
        c.observe('%s %s' % (which, v if st == 'ok' else 'error'))
    return fn


BUILTIN = {
    'debian': ['debian'], 'ubuntu': ['ubuntu', 'debian'],
    'xubuntu': ['xubuntu', 'ubuntu', 'debian'], 'osx': ['osx']}


def h_builtin():
    """Names and versions of the OSs that the shipped plugins derive from."""
    def fn(c):
        from xylem.os_support import OSSupport
        from xylem.os_support import plugins as p
        env.plugins.script('xylem.os', [
            (n, getattr(p, n + '_definition')) for n in c.pick(
                [sorted(BUILTIN), sorted(BUILTIN, reverse=True)], 'order')])
        s = OSSupport()
        name = c.pick(sorted(BUILTIN), 'os')
        vs = list(s.lookup_os(name).known_versions)
        version = c.pick(vs, 'version')
        o = s.lookup_os(name)
        if c.flag('overridden'):
            s.override_os((name, version))
            o = s.current_os
            c.eq(o.get_tuple(), (name, version), 'tuple of override')
        what = '%s:%s' % (name, version)
        c.eq(o.name, name, what + ': name')
        c.eq(list(o.all_names), BUILTIN[name], what + ': all names')
        # xubuntu shares the versions of ubuntu, ubuntu does not have
        # corresponding versions of debian
        c.eq(list(o.get_all_tuples(version)), [
            (n, version if n == name or name == 'xubuntu' and n == 'ubuntu'
             else None) for n in BUILTIN[name]], what + ': all tuples')
        c.eq(list(o.get_all_tuples(None)),
             [(n, None) for n in BUILTIN[name]], what + ': unknown version')
        core = list(o.get_core_installers(version, o.options))
        c.check(o.default_installer in core, '%s: default installer %r not in '
                '%r', what, o.default_installer, core)
        for n in BUILTIN[name]:
            c.check(version in s.lookup_os(n).known_versions or
                    n not in (name, 'ubuntu') or name == 'ubuntu',
                    '%s: not known for %s', what, n)
        c.observe(what)
    return fn


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('histories', h_history(4 if t else 3), split=2,
                note='all sequences of override, detection and queries'),
        Harness('context', h_context(), split=2),
        Harness('versions', h_versions(), split=1),
        Harness('builtin', h_builtin(), split=2),
    ]
