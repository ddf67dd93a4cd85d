"""C30: Commands run with elevated privileges exactly when needed."""

import os

from mc.engine import Harness
from mc import env, stubs
from mc.checks.c24 import installer
from mc.fullstack import mem_database

PROPERTY = 'C30'
LOUD = True
ASSUMPTIONS = ['user ids are scripted']


class Ids(object):
    """Scripted real and effective user id."""

    def __init__(self, uid, euid):
        self.uid, self.euid = uid, euid

    def __enter__(self):
        self.saved = os.getuid, os.geteuid
        os.getuid, os.geteuid = lambda: self.uid, lambda: self.euid

    def __exit__(self, *a):
        os.getuid, os.geteuid = self.saved
        return False


DEFAULT = {'apt': True, 'homebrew': False, 'macports': True, 'pip': True,
           'fake': False, 'stub': True}
IDS = [(0, 0), (1000, 1000), (1000, 0), (0, 1000)]
AS_ROOT = ['unset', None, True, False]


def elevated(cmds):
    return [c if c[0] == 'sudo' else ['sudo'] + c for c in cmds]


def h_real(names, n):
    def fn(c):
        name = c.pick(names, 'installer')
        ids = c.pick(IDS, 'uid, euid')
        as_root = c.pick(AS_ROOT, 'as_root')
        k = c.choose(n + 1, 'packages')
        packages = ['p', 'sudo', 'q r'][:k]
        inst = installer(name)
        opts = {}
        if name == 'fake':
            opts['install_dir'] = '/nonexistent'
        if as_root != 'unset':
            opts['as_root'] = as_root
        touched = c.flag('options set')
        if not touched and opts:
            c.prune()
        with env.capture():
            if touched:
                inst.options = opts
            rs = inst.resolve({'packages': packages})
        want_root = DEFAULT[name] if as_root in ('unset', None) else as_root
        re, inter = c.flag('reinstall'), c.flag('interactive')
        what = '%s, ids %r, as_root %r' % (name, ids, as_root)
        with Ids(*ids):
            plain = inst.get_install_commands_no_root(rs, inter, re)
            got = inst.get_install_commands(rs, interactive=inter,
                                            reinstall=re)
            again = inst.get_install_commands(rs, interactive=inter,
                                              reinstall=re)
        c.eq(len(plain), len(packages), what + ': number of commands')
        if want_root and ids[1] != 0:
            c.eq(got, elevated(plain), what)
        else:
            c.eq(got, plain, what)
        c.eq(again, got, what + ': again')
        with Ids(ids[0], 0):
            c.eq(inst.get_install_commands(rs, interactive=inter,
                                           reinstall=re), plain,
                 what + ': later as root')
        c.observe(repr(got))
    return Harness('real', fn, note='every real installer plugin, all user '
                   'ids and as_root settings')


COMMANDS = [['x'], ['x', 'y'], ['sudo', 'x'], ['sudo'], ['sudoku', '1'],
            ['x', 'sudo'], ['sudo', '-u', 'u', 'x'], ['', 'x'],
            ['/usr/bin/sudo2'], ['@{rb}', 'a b']]


def h_commands(n):
    def fn(c):
        ids = c.pick(IDS, 'uid, euid')
        as_root = c.pick(AS_ROOT, 'as_root')
        k = c.choose(n + 1, 'number')
        shared = [list(COMMANDS[c.choose(len(COMMANDS), 'command')])
                  for _ in range(k)]
        cls = stubs.make_installer('i')

        class Inst(cls):
            def get_install_commands_no_root(self, resolved, interactive=True,
                                             reinstall=False):
                return shared           # the same lists every time
        inst = Inst()
        inst.options = {} if as_root == 'unset' else {'as_root': as_root}
        before = [list(x) for x in shared]
        need = as_root is not False and ids[1] != 0
        want = elevated(before) if need else before
        what = 'commands %r, ids %r, as_root %r' % (before, ids, as_root)
        for _ in range(2):
            with Ids(*ids):
                c.eq([list(x) for x in inst.get_install_commands([])], want,
                     what)
            c.eq(shared, before, what + ': commands of plugin changed')
        c.observe(repr(want))
    return Harness('commands', fn, note='all lists of up to %d commands incl. '
                   'already elevated ones' % n)


def h_install():
    """The commands that are executed, with as_root from the config."""
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.install import install
        ids = c.pick(IDS, 'uid, euid')
        opts = {}
        for i in 'ab':
            v = c.pick(AS_ROOT, 'as_root of ' + i)
            if v != 'unset':
                opts[i] = {'as_root': v}
        if c.flag('null options'):
            if 'b' in opts:
                c.prune()
            opts['b'] = None
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['a', 'b'])],
                       [stubs.make_installer('a'), stubs.make_installer('b')])
        db = mem_database([{k: {'ubuntu': {'any_version': {i: {
            'packages': [k + '1', k + '2']}}}} for k, i in
            [('k', 'a'), ('l', 'b')]}])
        env.procs.reset(lambda argv: (1, b'', b''))
        simulate = c.flag('simulate')
        with env.capture() as con, Ids(*ids):
            cfg = stubs.config(installer_options=opts)
            ic = InstallerContext(config=cfg)
            st, v = c.call(install, ['k', 'l'], config=cfg, database=db,
                           installer_context=ic, continue_on_error=True,
                           simulate=simulate)
        what = 'options %r, ids %r' % (opts, ids)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        want = []
        for k, i in (('k', 'a'), ('l', 'b')):
            root = (opts.get(i) or {}).get('as_root')
            root = root is None or root
            for p in '12':
                want.append((['sudo'] if root and ids[1] else []) +
                            [i, 'install', k + p])
        if simulate:
            c.eq(env.procs.calls, [], what)
            shown = [l.strip() for l in env.strip_ansi(con.stdout).split('\n')]
            c.eq([l for l in shown if 'install ' in l],
                 [' '.join(x) for x in want], what + ': printed')
        else:
            c.eq([a for a, _ in env.procs.calls], want, what)
        c.observe(repr(want))
    return Harness('install', fn, note='installing and simulating with two '
                   'installers, all as_root settings in the config')


def harnesses(tier):
    q = tier == 'quick'
    return [h_real(sorted(DEFAULT), 3), h_commands(2 if q else 4),
            h_install()]
