"""C28: Simulated installation has no side effects."""

import os

from mc.engine import Harness
from mc import cli, env, stubs
from mc.checks.c26 import many, requests, packages, TRICKY
from mc.checks.c27 import judge
from mc.fullstack import Site, snapshot
from mc.installworld import Expected, World, KEYS, MISSING
from mc.sizes import names as size_names, sizes
from mc.watch import Watch

PROPERTY = 'C28'
LOUD = True
ASSUMPTIONS = [
    'starting the executable of a package manager without arguments to see '
    'whether it exists is no side effect',
]


def printed(text, commands):
    """The printed lines that show one of the commands."""
    lines = [l.strip() for l in text.split('\n')]
    names = {' '.join(cmd) for cmd in commands}
    return [l for l in lines if l in names]


def h_simulate(keys, n, bound):
    reqs = requests(keys + [MISSING], n)

    def fn(c):
        req = reqs[c.choose(len(reqs), 'request')]
        known = [k for k in req if k in KEYS]
        installed = c.subset(packages(known), 'installed')
        layout = c.pick(['each', 'batch', 'two'], 'layout')
        kw = dict(reinstall=c.flag('reinstall'),
                  interactive=not c.flag('not interactive'),
                  continue_on_error=c.flag('continue'),
                  fix_prerequisites=c.flag('fix'))
        faults = {}
        for i in dict.fromkeys(KEYS[k][0] for k in known):
            for stage, fs in (('general', [None, 'prereq']),
                              ('filter', [None, 'error']),
                              ('prepare', [None, 'prereq']),
                              ('compose', [None, 'error'])):
                f = fs[c.deviate(len(fs), '%s %s' % (stage, i))]
                if f:
                    faults[i, stage] = f
        w = World(c, installed, layout, faults=faults)
        st, v = w.install(req, simulate=True, **kw)
        what = ('simulated install(%r) with %r installed (%s, %r), faults %r'
                % (req, installed, layout, kw, faults))
        c.eq(env.procs.calls, [], what + ': executed commands')
        c.eq(w.prompts, [], what + ': prompts')
        c.eq(w.installed, set(installed), what + ': installed packages')
        for x in w.calls:
            if x[0] in ('general', 'prepare'):
                c.eq(x[-2], 'simulate' if kw['fix_prerequisites'] else False,
                     '%s: fixing of %s prerequisites of %s' % (
                         what, x[0], x[1]))
        e = Expected(req, installed, layout, kw['reinstall'],
                     kw['interactive'], kw['continue_on_error'], (), faults,
                     simulate=True)
        full = Expected(req, [], layout, True, kw['interactive'], True,
                        simulate=True)
        shown = printed(w.out, e.commands + full.commands)
        want = [' '.join(x) for x in e.commands]
        if not e.tolerant:
            c.eq(shown, want, what + ': printed commands')
        # the simulation has the errors of a run in which commands succeed
        w.calls = []
        env.procs.reset(w.handler)

        class Same(object):
            faults, keys = w.faults, w.keys
            executed = e.commands
        judge(c, Same, st, v, e, req, kw['continue_on_error'], what)
        # ... and the commands are those of a real run
        st2, v2 = w.install(req, simulate=False, **kw)
        c.eq(st2, st, what + ': real run')
        c.check(set(map(tuple, e.commands)) <= set(map(tuple, w.executed)) and
                (w.executed == e.commands or e.tolerant),
                '%s: real run executes %r', what, w.executed)
        if not e.raises:
            c.eq([len(x) for x in v], [len(x) for x in v2],
                 '%s: errors %r of real run differ from %r' % (what, v2, v))
        c.observe('%s %r %s' % (st, want, kw['interactive']))
    return Harness('simulate', fn, split=3, bound=bound,
                   note='all requests, installed sets and flags with at most '
                   '%d faults, each followed by the same real run' % bound)


def h_shown():
    """Commands are shown literally."""
    def fn(c):
        i = c.choose(len(TRICKY), 'first')
        j = c.choose(len(TRICKY), 'second')
        keys = {'k': ('a', [TRICKY[i]]),
                'l': ('a', [TRICKY[j]] if i != j else [])}
        w = World(c, [], 'each', keys=keys)
        st, v = w.install(['k', 'l'], simulate=True)
        c.check(st == 'ok', '%r: %s %r', keys, st, v)
        e = Expected(['k', 'l'], [], 'each', known=keys, simulate=True)
        pos = 0
        for cmd in e.commands:
            at = w.out.find(' '.join(cmd), pos)
            c.check(at >= 0, '%r is not shown in %r', cmd, w.out)
            pos = at + len(' '.join(cmd))
        c.eq(env.procs.calls, [], '%r executed' % keys)
        c.observe(repr(e.commands))
    return Harness('shown', fn, note='package names with special characters')


def h_package_manager():
    """Prerequisites of package managers are left alone."""
    def fn(c):
        from xylem.installers import (InstallerContext,
                                      InstallerPrerequisiteError,
                                      PackageManagerInstaller)
        from xylem.install import install
        there = c.flag('package manager is there')
        updated = c.pick([True, False, 'unknown'], 'updated')
        fixable = c.flag('can be fixed')
        fix, interactive = c.flag('fix'), c.flag('interactive')
        log = []

        class Manager(PackageManagerInstaller):
            PLUGIN = 'm'
            name = 'm'

            def __init__(self):
                super(Manager, self).__init__('mgr')

            def filter_uninstalled(self, resolved):
                return resolved

            def get_install_commands_no_root(self, resolved, interactive=True,
                                             reinstall=False):
                return [['mgr', 'get', r.package] for r in resolved]

            def install_package_manager(self, os_tuple, interactive=True):
                log.append('install')
                if not fixable:
                    raise NotImplementedError()

            def is_package_manager_updated(self):
                if updated == 'unknown':
                    raise NotImplementedError()
                return updated

            def update_package_manager(self, interactive=True):
                log.append('update')
                if not fixable:
                    raise NotImplementedError()
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['m'])], [Manager])
        from mc.fullstack import mem_database
        db = mem_database([{'k': {'ubuntu': {'any_version': {'m': {
            'packages': ['p']}}}}}])
        ran = []

        def handler(argv):
            if argv == ['mgr']:
                if not there:
                    raise OSError(2, 'No such file or directory')
                return 1, b'', b''
            ran.append(argv)
            return 0, b'', b''
        env.procs.reset(handler)
        cfg = stubs.config()
        with env.capture() as con:
            ic = InstallerContext(config=cfg)
            st, v = c.call(install, ['k'], simulate=True, config=cfg,
                           database=db, installer_context=ic,
                           fix_prerequisites=fix, interactive=interactive)
        what = 'manager there: %r, updated: %r, fix: %r' % (there, updated,
                                                            fix)
        c.eq(ran, [], what + ': executed')
        c.eq(log, [], what + ': fixed')
        if not there and not fix:
            c.check(st == 'exc' and isinstance(v, InstallerPrerequisiteError),
                    '%s: %s %r', what, st, v)
        else:
            c.eq((st, v), ('ok', ([], [])), what)
            c.check('mgr get p' in env.strip_ansi(con.stdout),
                    '%s: command is not printed', what)
        c.observe('%s %s' % (st, bool(con.stderr)))
    return Harness('package manager', fn, note='a package manager that is '
                   'missing or out of date')


def h_cli():
    """The --dry-run option of the command, with the real fake installer."""
    def fn(c):
        from xylem.installers.plugins.fake import FakeInstaller
        from xylem.update import update
        site = Site(c)
        d = os.path.join(site.root, 'inst')
        exists = c.flag('install dir exists')
        there = []
        if exists:
            os.mkdir(d)
            there = c.subset(['p', 'q'], 'installed')
            for p in there:
                open(os.path.join(d, p), 'w').close()
        rules = {k: {'ubuntu': {'any_version': {'fake': ps}}} for k, ps in
                 [('k', ['p']), ('l', ['q', 'r'])]}
        site.write_rules('r', rules)
        site.write_sources('10.yaml', ['r'])
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['fake'])],
                       [FakeInstaller])
        with env.capture():
            update(config=site.config())
        ran = []

        def handler(argv):
            if argv != ['touch']:
                ran.append(argv)
            return 1, b'', b''
        env.procs.reset(handler)
        req = c.pick([['k'], ['l', 'k'], ['k', 'nope']], 'request')
        opts = [o for o in ('--reinstall', '--fix-prerequisites',
                            '--continue-on-error', '--all')
                if c.flag(o)]
        before = snapshot(site.root)
        args = ['--sources-dir', site.sources_dir, '--cache-dir',
                site.cache_dir, '--no-user-config', '--prefix',
                site.root + '/none', '--installer-options',
                'fake: {install_dir: %s}' % d, 'install', '--dry-run']
        with Watch() as changes:
            r = cli.run(args + opts + req)
        what = 'xylem install --dry-run %r, %r installed' % (
            opts + req, there)
        c.eq(snapshot(site.root), before, what + ': files')
        c.eq(changes, [], what + ': operations that change files')
        c.eq(ran, [], what + ': commands')
        c.check(not r.exc, '%s: %r', what, r)
        ok = exists or '--fix-prerequisites' in opts
        fails = 'nope' in req
        if fails and '--continue-on-error' not in opts:
            ok = None
        if ok:
            keys = list(dict.fromkeys(
                [k for k in req if k != 'nope'] +
                (['k', 'l'] if '--all' in opts else [])))
            want = ['touch ' + os.path.join(d, p) for k in keys
                    for p in {'k': ['p'], 'l': ['q', 'r']}[k]
                    if p not in there or '--reinstall' in opts]
            shown = [l.strip() for l in env.strip_ansi(r.out).split('\n')
                     if l.strip().startswith('touch ')]
            c.eq(shown, want, what + ': printed %r' % r)
        c.eq(r.code != 0, fails or not ok, '%s: %r' % (what, r))
        c.observe('%s %r' % (r.code, len(r.out) > 0))
    return Harness('cli', fn, note='the command line with the real fake '
                   'installer: nothing in the file system changes')


def h_sizes(tier):
    """Many packages and long names."""
    def fn(c):
        n = c.pick(sizes(tier), 'number')
        shape = c.pick(['packages', 'alternating', 'halves', 'long'], 'shape')
        keys, req = many(n, shape) if shape != 'long' else (
            {'k': ('a', ['x' * n + 'y', 'z'])}, ['k'])
        layout = c.pick(['each', 'batch', 'two'], 'layout')
        installed = size_names(n)[::2] if c.flag('half installed') else []
        w = World(c, installed, layout, keys=keys)
        st, v = w.install(req, simulate=True)
        what = 'simulating %d packages (%s, %s)' % (n, shape, layout)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        e = Expected(req, installed, layout, known=keys, simulate=True)
        c.eq(printed(w.out, e.commands), [' '.join(x) for x in e.commands],
             what + ': printed commands')
        c.eq([len(x) for x in v], [0, 0], '%s: errors' % what)
        c.eq(env.procs.calls, [], what + ': executed commands')
        c.eq(w.installed, set(installed), what + ': installed packages')
        c.observe('%d %d' % (n, len(e.commands)))
    return Harness('sizes', fn, split=1, note='every number of packages and '
                   'length of a package name')


def harnesses(tier):
    if tier == 'quick':
        return [h_simulate(['k1', 'k2', 'k3'], 2, 1), h_shown(),
                h_package_manager(), h_cli(), h_sizes(tier)]
    return [h_simulate(['k1', 'k2', 'k3', 'k4', 'k0'], 3, 2), h_shown(),
            h_package_manager(), h_cli(), h_sizes(tier)]
