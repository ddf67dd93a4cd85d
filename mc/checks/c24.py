"""C24: An installer rule yields exactly its packages as resolutions."""

import copy

from mc.engine import Harness
from mc import env, stubs
from mc.sizes import names as size_names, sizes

PROPERTY = 'C24'
LOUD = True
ASSUMPTIONS = [
    'a null instead of a package name inside the list of packages is not a '
    'rule this property speaks about',
]

OPTIONS = {'opts': 'list', 'ref': 'text', 'flag': 'bool'}


def installer(name):
    from xylem.installers.plugins import apt, fake, homebrew, macports, pip
    real = {'apt': apt.AptInstaller, 'homebrew': homebrew.HomebrewInstaller,
            'macports': macports.MacportsInstaller, 'pip': pip.PipInstaller,
            'fake': fake.FakeInstaller}
    if name in real:
        return real[name]()
    from xylem.config_utils import List, String, Boolean
    inst = stubs.make_installer(name)()
    inst.installer_rule_description.add('opts', type=List(String), default=[])
    inst.installer_rule_description.add('ref', type=String, default='master')
    inst.installer_rule_description.add('flag', type=Boolean, default=False)
    return inst


NAMES = ['apt', 'homebrew', 'macports', 'pip', 'fake', 'stub']
BAD = object()
ABSENT = '<absent>'

PACKAGES = [
    (ABSENT, []), (None, []), ([], []), (['p'], ['p']), (['p', 'q'],) * 2,
    (['q', 'p'],) * 2, (['p', 'q', 'p'],) * 2, (['a b', '-x', 'p==1.0'],) * 2,
    (['@{rb}', '%s', '{0}', '\u65e5\u672c'],) * 2, ([''], ['']),
    (['a/b', 'p\nq', '$HOME', '~'],) * 2, ([' p', 'q ', '\tr\n', ' '],) * 2,
    (['P', 'p', 'p '],) * 2,
    ('p', BAD), ({'p': 1}, BAD), (5, BAD), (True, BAD), ([1], BAD),
    (['p', 1], BAD), ([['p']], BAD), (['p', {}], BAD), ([True], BAD),
    ('', BAD), ({}, BAD),
]
DEPENDS = [
    (ABSENT, []), (None, []), ([], []), (['k'], ['k']),
    (['k2', 'k1', 'k2'],) * 2, ('k', BAD), ([1], BAD), ({}, BAD),
    ([['k']], BAD),
]
EXTRA = [
    ({}, {}, []),
    ({'odd': 1}, {}, ['odd']),
    ({'odd': {'a': [None]}, 'package': 'z'}, {}, ['odd', 'package']),
    ({'as_root': False, 'Packages': ['x']}, {}, ['as_root', 'Packages']),
    ({'opts': ['--with-x', '-y']}, {'opts': ['--with-x', '-y']}, []),
    ({'opts': [], 'ref': 'dev', 'flag': True}, {'ref': 'dev', 'flag': True},
     []),
    ({'ref': None, 'odd': None}, {}, ['odd']),
    ({'ref': 5}, BAD, []),
    ({'opts': 'x'}, BAD, []),
    ({'flag': 'yes'}, BAD, []),
]


def verify(c, inst, rule, packages, depends, extra, unknown, what):
    from xylem.installers import InvalidRuleError
    before = copy.deepcopy(rule)
    order = list(rule) if isinstance(rule, dict) else None
    bad = packages is BAD or depends is BAD or extra is BAD
    with env.capture() as con:
        st, v = c.call(inst.resolve, rule)
        text = env.strip_ansi(con.stdout + con.stderr)
        st2, v2 = c.call(inst.get_depends, rule)
    c.eq(rule, before, what + ': the rule was changed')
    if order is not None:
        c.eq(list(rule), order, what + ': the rule was reordered')
    if bad:
        c.check(st == 'exc' and isinstance(v, InvalidRuleError),
                '%s: resolved to %s %r', what, st, v)
        c.check("'%s'" % inst.name in str(v), '%s: error does not name the '
                'installer: %s', what, v)
        c.check(st2 == 'exc' and isinstance(v2, InvalidRuleError),
                '%s: depends %s %r', what, st2, v2)
        c.observe('rejected')
        return None
    c.check(st == 'ok', '%s: %s %r', what, st, v)
    c.eq((st2, v2 if st2 != 'ok' else list(v2)), ('ok', depends),
         what + ': dependencies')
    c.check(isinstance(v, list), '%s: %r', what, v)
    c.eq([dict(r) for r in v], [dict(extra, package=p) for p in packages],
         what)
    c.eq([r.package for r in v], packages, what + ': packages')
    for u in unknown:
        c.check(u in text, '%s: unknown entry %s not reported', what, u)
    if not unknown:
        c.check(not text.strip(), '%s: prints %r', what, text)
    # resolving again, and objects independent of each other and of the rule
    with env.capture():
        again = inst.resolve(rule)
    c.eq([dict(r) for r in again], [dict(r) for r in v], what + ': again')
    for i in range(len(again)):
        again[i].package = 'changed'
        c.eq([r.package for r in again[i + 1:]], packages[i + 1:],
             what + ': resolutions share data')
    c.eq([r.package for r in v], packages, what + ': results share data')
    c.eq(rule, before, what + ': rule shares data with resolutions')
    c.observe(repr([dict(r) for r in v]))
    return v


DEFAULTS = {'opts': [], 'ref': 'master', 'flag': False}


def h_rules(names, full):
    def fn(c):
        name = c.pick(names, 'installer')
        inst = installer(name)
        ps, pw = c.pick(PACKAGES, 'packages')
        ds, dw = c.pick(DEPENDS if full or pw is BAD or not pw else
                        DEPENDS[:1] + DEPENDS[4:7], 'depends')
        es, ew, unknown = c.pick(EXTRA if name == 'stub' else EXTRA[:4],
                                 'extra')
        rule = {}
        entries = [('packages', ps), ('depends', ds)] + list(es.items())
        if c.flag('reversed'):
            entries.reverse()
        for k, v in entries:
            if v != ABSENT:
                rule[k] = copy.deepcopy(v)
        if ew is not BAD:
            ew = dict(DEFAULTS if name == 'stub' else {}, **ew)
        verify(c, inst, rule, pw, dw, ew, unknown,
               '%s rule %r' % (name, rule))
    return Harness('rules', fn, split=3,
                   note='all rules of the grammar for %d real installer '
                   'plugins and one with rule options' % (len(names) - 1))


PROGRAM = {'apt': 'apt-get', 'homebrew': 'brew', 'macports': 'port',
           'pip': 'pip', 'fake': 'touch', 'stub': 'stub'}


def h_commands(n):
    """The commands of an installer install exactly the packages."""
    alphabet = ['p', 'q', 'a b', '-x', '@{rb}', '\u65e5', ' p ', 't/R/p@1']

    def fn(c):
        name = c.pick(NAMES, 'installer')
        inst = installer(name)
        k = c.choose(n + 1, 'packages')
        packages = [alphabet[c.choose(len(alphabet), 'package')]
                    for _ in range(k)]
        interactive, reinstall = c.flag('interactive'), c.flag('reinstall')
        opts = {'as_root': False}
        d = '/nonexistent/dir'
        if name == 'fake':
            opts['install_dir'] = d
        inst.options = opts
        with env.capture():
            rs = inst.resolve({'packages': packages})
            st, v = c.call(inst.get_install_commands, rs,
                           interactive=interactive, reinstall=reinstall)
        what = '%s commands for %r' % (name, packages)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        args = []
        for cmd in v:
            c.check(isinstance(cmd, list) and all(
                isinstance(a, str) for a in cmd), '%s: %r', what, cmd)
            c.eq(cmd[0], PROGRAM[name], what + ': program')
            args += cmd[1:]
        want = [d + '/' + p if name == 'fake' else p for p in packages]
        fixed = {'install', '-U', '-y', '--re'}
        c.eq([a for a in args if a not in fixed], want, what)
        c.eq([r.package for r in rs], packages, what + ': changed')
        c.observe(repr(v))
    return Harness('commands', fn, split=2,
                   note='all package lists of up to %d for every real '
                   'installer' % n)


def h_sizes(tier):
    """Many packages, and long names."""
    def fn(c):
        name = c.pick(NAMES, 'installer')
        inst = installer(name)
        n = c.pick(sizes(tier), 'number')
        shape = c.pick(['packages', 'equal ones', 'long name', 'depends'],
                       'shape')
        rule = {'packages': {'packages': size_names(n),
                             'equal ones': ['p'] * n,
                             'long name': ['x' * n + 'y'],
                             'depends': ['p']}[shape]}
        if shape == 'depends':
            rule['depends'] = size_names(n, 'k')
        before = copy.deepcopy(rule)
        with env.capture():
            st, v = c.call(inst.resolve, rule)
            deps = inst.get_depends(rule)
            inst.options = {'as_root': False}
            cmds = inst.get_install_commands(list(v)) if st == 'ok' else None
        what = '%s rule with %d (%s)' % (name, n, shape)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        c.eq([r.package for r in v], before['packages'], what)
        c.eq(list(deps), before.get('depends', []), what + ': depends')
        c.eq(rule, before, what + ': the rule was changed')
        args = [a for cmd in cmds for a in cmd[1:]
                if a not in ('install', '-U')]
        if name == 'fake':
            args = [a.split('/')[-1] for a in args]
        c.eq(args, before['packages'], what + ': commands')
        c.observe(repr((n, len(v))))
    return Harness('sizes', fn, split=1, note='every number of packages or '
                   'dependencies and length of names')


def harnesses(tier):
    q = tier == 'quick'
    return [h_rules(NAMES, not q), h_commands(2 if q else 5), h_sizes(tier)]
