"""C29: Installer prerequisites are checked and fixed as configured."""

import os

from mc.engine import Harness
from mc import env, stubs
from mc.checks.c26 import requests
from mc.fullstack import mem_database
from mc.installworld import Expected, World, KEYS

PROPERTY = 'C29'
LOUD = True
ASSUMPTIONS = [
    'confirmation by the user is up to the installer plugins, which are told '
    'whether the mode is interactive',
]


def manager(c, log, state, install, update):
    """A package manager with scripted state and abilities."""
    from xylem.installers import PackageManagerInstaller

    class Manager(PackageManagerInstaller):
        PLUGIN = 'm'
        name = 'm'

        def __init__(self):
            super(Manager, self).__init__('mgr')

        def filter_uninstalled(self, resolved):
            return [r for r in resolved if r.package not in state['pkgs']]

        def get_install_commands_no_root(self, resolved, interactive=True,
                                         reinstall=False):
            return [['mgr', 'get', r.package] for r in resolved]
    if install != 'undefined':
        def install_package_manager(self, os_tuple, interactive=True):
            log.append(('install', os_tuple, interactive))
            if install == 'unsupported':
                raise NotImplementedError()
            if install == 'works':
                state['there'] = True
        Manager.install_package_manager = install_package_manager
    if state['updated'] != 'unknown':
        Manager.is_package_manager_updated = lambda self: state['updated']
    if update != 'undefined':
        def update_package_manager(self, interactive=True):
            log.append(('update', interactive))
            if update == 'unsupported':
                raise NotImplementedError()
            if update == 'works':
                state['updated'] = True
        Manager.update_package_manager = update_package_manager
    return Manager


def expected(there, updated, install, update, fix, interactive, os_tuple):
    """-> (raises, attempts, still outdated, would-fix messages)"""
    attempts = []
    pretend = fix == 'simulate'
    if not there and not pretend:
        if fix:
            if install != 'undefined':
                attempts.append(('install', os_tuple, interactive))
            there = install == 'works'
        if not there:
            return True, attempts, None
    if updated is False and not pretend:
        if fix:
            if update != 'undefined':
                attempts.append(('update', interactive))
            updated = update == 'works'
        return False, attempts, not updated
    return False, attempts, False


def settings(c, fix, interactive):
    """Nothing is fixed, and interactively, unless mentioned otherwise."""
    if c.flag('mention'):
        return dict(fix_unsatisfied=fix, interactive=interactive)
    return dict([('fix_unsatisfied', fix)] * bool(fix) +
                [('interactive', interactive)] * (not interactive))


ABILITIES = ['works', 'fails', 'unsupported', 'undefined']


def h_manager():
    def fn(c):
        from xylem.installers import InstallerPrerequisiteError
        from xylem.log_utils import enable_verbose
        there = c.flag('there')
        updated = c.pick([True, False, 'unknown'], 'updated')
        install = c.pick(ABILITIES, 'installing it')
        update = c.pick(ABILITIES, 'updating it')
        fix = c.pick([False, True, 'simulate'], 'fix')
        interactive = c.flag('interactive')
        verbose = c.flag('verbose')
        state = {'there': there, 'updated': updated, 'pkgs': set()}
        log, ran = [], []
        inst = manager(c, log, state, install, update)()

        def handler(argv):
            ran.append(argv)
            if not state['there']:
                raise OSError(2, 'No such file or directory')
            return 1, b'', b''
        env.procs.reset(handler)
        os_tuple = ('ubuntu', 'v1')
        enable_verbose(verbose)
        try:
            with env.capture() as con:
                st, v = c.call(inst.check_general_prerequisites, os_tuple,
                               **settings(c, fix, interactive))
        finally:
            enable_verbose(False)
        raises, attempts, outdated = expected(
            there, updated, install, update, fix, interactive, os_tuple)
        what = ('package manager there: %r, updated: %r, installing: %s, '
                'updating: %s, fix: %r' % (there, updated, install, update,
                                           fix))
        if raises:
            c.check(st == 'exc' and isinstance(v, InstallerPrerequisiteError),
                    '%s: %s %r', what, st, v)
            c.check("'m'" in str(v), '%s: error %s', what, v)
        else:
            c.check(st == 'ok', '%s: %s %r', what, st, v)
        c.eq(log, attempts, what + ': attempts')
        c.check(all(argv == ['mgr'] for argv in ran), '%s: executed %r', what,
                ran)
        text = env.strip_ansi(con.stdout + con.stderr)
        if outdated is not None and not (fix == 'simulate'):
            c.eq('out-of-date' in text, outdated, what + ': warning')
        if fix == 'simulate' and not there:
            c.check('would try to install' in text, '%s: prints %r', what,
                    text)
        c.observe(repr((raises, attempts, outdated)))
    return Harness('manager', fn, note='all states and abilities of a package '
                   'manager, fix and interactive settings')


def h_install():
    """The same below install(): an unusable manager is not used."""
    def fn(c):
        from xylem.installers import (InstallerContext,
                                      InstallerPrerequisiteError)
        from xylem.install import install as xinstall
        there = c.flag('there')
        install = c.pick(ABILITIES, 'installing it')
        fix = c.flag('fix')
        interactive = c.flag('interactive')
        installed = c.flag('package installed')
        cont = c.flag('continue')
        state = {'there': there, 'updated': 'unknown', 'pkgs': set(
            ['p'] if installed else [])}
        log, ran = [], []
        cls = manager(c, log, state, install, 'undefined')
        # as core installer, or only requested explicitly for the key
        place = c.pick(['core', 'additional', 'requested'], 'used as')
        cls.use_as_additional_installer = lambda self, t: place == 'additional'
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['m'] if
                                      place == 'core' else [])], [cls])
        db = mem_database([{'k': {'ubuntu': {'any_version': {'m': {
            'packages': ['p']}}}}}])

        def handler(argv):
            if not state['there']:
                raise OSError(2, 'No such file or directory')
            if argv == ['mgr']:
                return 1, b'', b''
            ran.append(argv)
            state['pkgs'].add(argv[-1])
            return 0, b'', b''
        env.procs.reset(handler)
        cfg = stubs.config(installer_options={'m': {'as_root': False}})
        if place == 'requested':
            cfg.install_from = {'m': ['k']}
        with env.capture():
            ic = InstallerContext(config=cfg)
            st, v = c.call(xinstall, ['k'], config=cfg, database=db,
                           installer_context=ic, fix_prerequisites=fix,
                           interactive=interactive, continue_on_error=cont)
        raises, attempts, _ = expected(
            there, 'unknown', install, 'undefined', fix, interactive,
            ('ubuntu', 'v1'))
        what = 'manager there: %r, installing: %s, fix: %r, %s' % (
            there, install, fix, place)
        c.eq(log, attempts, what + ': attempts')
        if raises:
            c.check(st == 'exc' and isinstance(v, InstallerPrerequisiteError),
                    '%s: %s %r', what, st, v)
            c.eq(ran, [], what + ': executed')
        else:
            c.eq((st, v), ('ok', ([], [])), what)
            c.eq(ran, [] if installed else [['mgr', 'get', 'p']],
                 what + ': executed')
        c.observe(repr((raises, attempts, ran)))
    return Harness('install', fn, note='installing with a package manager in '
                   'all of these states')


def h_order(keys, n):
    """Who is checked, when, and with what."""
    reqs = requests(keys, n)

    def fn(c):
        from xylem.installers import InstallerPrerequisiteError
        req = reqs[c.choose(len(reqs), 'request')]
        ps = [p for k in req for p in KEYS[k][1]]
        installed = c.subset(ps, 'installed')
        kw = dict(reinstall=c.flag('reinstall'),
                  interactive=c.flag('interactive'),
                  fix_prerequisites=c.flag('fix'),
                  continue_on_error=c.flag('continue'))
        simulate = c.flag('simulate')
        names = list(dict.fromkeys(KEYS[k][0] for k in req))
        faults = {}
        for stage in ('general', 'prepare'):
            for i in names:
                if c.deviate(2, '%s %s' % (stage, i)):
                    faults[i, stage] = 'prereq'
        w = World(c, installed, 'each', faults=faults)
        st, v = w.install(req, simulate=simulate, **kw)
        what = 'install(%r) with %r installed (%r, simulate=%r), faults %r' % (
            req, installed, kw, simulate, faults)
        e = Expected(req, installed, 'each', kw['reinstall'],
                     kw['interactive'], kw['continue_on_error'], (), faults,
                     simulate=simulate)
        fix = 'simulate' if simulate and kw['fix_prerequisites'] else \
            kw['fix_prerequisites']
        args = (('ubuntu', 'v1'), fix, kw['interactive'])
        general = [x for x in w.calls if x[0] == 'general']
        c.check(len(set(general)) == len(general) and set(general) <= {
            ('general', i) + args for i in names},
            '%s: general prerequisites checked: %r', what, general)
        if not any(k[1] == 'general' for k in faults):
            c.eq(sorted(x[1] for x in general), sorted(names),
                 what + ': general prerequisites')
        failed = [x for x in general if (x[1], 'general') in faults]
        prepare = [x for x in w.calls if x[0] == 'prepare']
        if e.raises:
            c.check(st == 'exc' and isinstance(v, InstallerPrerequisiteError),
                    '%s: %s %r', what, st, v)
            c.eq(w.executed, [], what + ': executed')
            if failed:
                c.eq(prepare, [], what + ': install prerequisites')
        else:
            c.eq(st, 'ok', '%s: %r' % (what, v))
            want = sorted(('prepare', i, ps) + args
                          for i, ps in e.prepared.items() if ps)
            c.eq(sorted(x for x in prepare if x[2]), want,
                 what + ': install prerequisites')
            kinds = [x[0] for x in w.calls]
            if 'run' in kinds:
                first = kinds.index('run')
                c.check('general' not in kinds[first:] and
                        'prepare' not in kinds[first:], '%s: order %r', what,
                        w.calls)
            c.eq(w.executed, [] if simulate else e.commands,
                 what + ': executed')
        c.observe('%s %r' % (st, [x[1] for x in w.calls]))
    return Harness('order', fn, split=3, bound=1,
                   note='all requests, installed sets and flags with up to '
                   'one unsatisfied prerequisite')


def h_real():
    """The real installer plugins."""
    def fn(c):
        from xylem.installers import InstallerPrerequisiteError
        from xylem.installers.plugins import (apt, fake, homebrew, macports,
                                              pip)
        classes = {'apt-get': apt.AptInstaller, 'brew':
                   homebrew.HomebrewInstaller, 'port':
                   macports.MacportsInstaller, 'pip': pip.PipInstaller,
                   'touch': fake.FakeInstaller}
        exe = c.pick(sorted(classes), 'installer')
        inst = classes[exe]()
        fix = c.pick([False, True, 'simulate'], 'fix')
        root = c.tmp()
        d = os.path.join(root, 'x', 'inst')
        if exe == 'touch':
            state = c.pick(['missing', 'dir', 'file', 'link'], 'install dir')
            os.mkdir(root + '/x')
            if state == 'dir':
                os.mkdir(d)
            elif state == 'file':
                open(d, 'w').close()
            elif state == 'link':
                os.mkdir(root + '/y')
                os.symlink(root + '/y', d)
            inst.options = {'install_dir': d}
            there = state in ('dir', 'link')
            fixed = state == 'missing'
        else:
            there, fixed = c.flag('there'), False
        rc = c.pick([0, 1, 127], 'exit status') if there else 0
        ran = []

        def handler(argv):
            ran.append(argv)
            if argv != [exe] or (not there and exe != 'touch'):
                raise OSError(2, 'No such file or directory')
            return rc, b'x', b'y'
        env.procs.reset(handler)
        with env.capture():
            st, v = c.call(inst.check_general_prerequisites, ('ubuntu', 'v1'),
                           **settings(c, fix, c.flag('inter')))
        what = '%s there: %r, fix: %r' % (exe, there, fix)
        ok = there or fix == 'simulate' or (fix is True and fixed)
        if ok:
            c.check(st == 'ok', '%s: %s %r', what, st, v)
        else:
            c.check(st == 'exc' and isinstance(v, InstallerPrerequisiteError),
                    '%s: %s %r', what, st, v)
        c.check(all(a == [exe] for a in ran), '%s: executed %r', what, ran)
        if exe == 'touch':
            c.eq(os.path.isdir(d), there or (fix is True and fixed),
                 what + ': install dir')
        c.observe('%s %s' % (exe, st))
    return Harness('real', fn, note='apt, homebrew, macports, pip and fake')


def harnesses(tier):
    if tier == 'quick':
        return [h_manager(), h_install(),
                h_order(['k1', 'k2', 'k3'], 3), h_real()]
    return [h_manager(), h_install(),
            h_order(['k1', 'k2', 'k3', 'k4', 'k5'], 3), h_real()]
