"""C39: Installers report truthfully what is installed and available."""

import os
import shutil
from itertools import permutations

from mc.engine import Harness
from mc import env, stubs
from mc.checks.c24 import installer, PROGRAM
from mc.fullstack import mem_database
from mc.sizes import sizes, names

PROPERTY = 'C39'
LOUD = True
ASSUMPTIONS = [
    'pip lists packages as name==version with the spelling of the rules; '
    'apt, homebrew and macports cannot tell yet what is installed and count '
    'nothing as installed',
]

REAL = ['apt', 'fake', 'homebrew', 'macports', 'pip']


def resolutions(packages):
    from xylem.installers.installer_base import Resolution
    return [Resolution(package=p, tag=i) for i, p in enumerate(packages)]


def judge(c, inst, packages, installed, what):
    rs = resolutions(packages)
    before = [dict(r) for r in rs]
    given = list(rs)
    st, v = c.call(inst.filter_uninstalled, given)
    c.check(st == 'ok', '%s: %s %r', what, st, v)
    c.eq([dict(r) for r in v], [dict(r) for r in rs
                                if r.package not in installed], what)
    c.eq([dict(r) for r in given], before, what + ': request changed')
    st, v = c.call(inst.is_installed, rs)
    c.eq((st, bool(v)), ('ok', all(p in installed for p in packages)),
         what + ': all installed')
    for r in rs:
        st, v = c.call(inst.is_installed, r)
        c.eq((st, bool(v)), ('ok', r.package in installed),
             '%s: %s installed' % (what, r.package))


def h_pip(n):
    universe = ['p', 'pp', 'xp', 'q', 'p-q', 'Q2']
    requests = [r for k in range(n + 1) for r in permutations(universe, k)]
    requests += [('p', 'p'), ('p', 'q', 'p')]
    forms = ['%s==1.0\n', '%s==1.0.dev1+g12==3\r\n', '%s==2\n']

    def fn(c):
        listed = c.subset(universe[:5], 'listed')
        if c.flag('listed in reverse'):
            listed.reverse()
        form = c.pick(forms, 'form')
        out = ''.join(form % x for x in listed)
        if c.flag('without last newline'):
            out = out.rstrip()
        if c.flag('other lines'):
            out = '\n# comment q2==1\n' + out + \
                '\n-e git+https://x/y.git@v==1#egg=q3\nzz @ file:///p\n'
        inst = installer('pip')

        def handler(argv):
            c.check(argv[0] == 'pip' and 'install' not in argv, 'runs %r',
                    argv)
            return 0, out.encode(), b'Q2==1\nnew version of p==9\n'
        env.procs.reset(handler)
        for packages in requests:
            judge(c, inst, list(packages), listed,
                  'pip lists %r, %r' % (out, packages))
        # a listing that cannot be had is no answer
        env.procs.reset(None)
        st, v = c.call(inst.filter_uninstalled, resolutions(['p']))
        c.check(st == 'exc', 'pip cannot be started: %r', v)
        c.observe(repr(out))
    return Harness('pip', fn, split=3, note='all sets of listed packages, '
                   'output forms and requests up to %d packages' % n)


KINDS = ['missing', 'file', 'dir', 'link', 'dangling']


def h_fake(n):
    names = ['p', 'pp', 'a b', '-x', '\u65e5'][:n]

    def fn(c):
        root = c.tmp()
        there = c.pick(['directory', 'missing', 'file', 'link', 'empty'],
                       'install directory')
        d = os.path.join(root, 'inst')
        real = d
        if there == 'link':
            real = os.path.join(root, 'real')
            os.symlink(real, d)
        if there in ('directory', 'link', 'empty'):
            os.mkdir(real)
        elif there == 'file':
            open(d, 'w').close()
        target = os.path.join(root, 'target')
        open(target, 'w').close()
        installed = []
        if there in ('directory', 'link'):
            for x in names:
                k = c.pick(KINDS, x)
                p = os.path.join(real, x)
                if k == 'file':
                    open(p, 'w').close()
                elif k == 'dir':
                    os.mkdir(p)
                elif k != 'missing':
                    os.symlink(target if k == 'link' else root + '/none', p)
                if k in ('file', 'dir', 'link'):
                    installed.append(x)
        inst = installer('fake')
        inst.options = {'install_dir': d}
        what = 'fake (%s) with %r' % (there, installed)
        env.procs.reset(None)
        for r in [[], names, names[::-1]] + [[x] for x in names] + \
                [[names[0], names[-1], names[0]]]:
            judge(c, inst, r, installed, '%s, %r' % (what, r))
        c.eq(bool(inst.is_package_manager_installed()),
             there in ('directory', 'link', 'empty'), what + ': available')
        c.eq(env.procs.calls, [], what + ': commands')
        st, v = c.call(inst.install_package_manager, ('ubuntu', 'v1'))
        c.check(st == 'ok', '%s: %r', what, v)
        c.eq(bool(inst.is_package_manager_installed()), there != 'file',
             what + ': available after installing it')
        if there == 'missing':
            c.eq(os.listdir(d), [], what)
        for r in [names, names[::-1]]:
            judge(c, inst, r, installed, '%s, %r, then' % (what, r))
        c.observe(what)
    return Harness('fake', fn, split=2, note='all kinds of files in place of '
                   '%d packages' % n)


def h_available():
    errnos = {'missing': 2, 'denied': 13, 'not executable': 8, 'loop': 40}

    def fn(c):
        from xylem.installers import PackageManagerInstaller
        name = c.pick(['apt', 'homebrew', 'macports', 'pip', 'own'], 'which')
        if name == 'own':
            class Own(PackageManagerInstaller):
                name = 'own'

                def filter_uninstalled(self, resolved):
                    return resolved

                def get_install_commands_no_root(self, resolved, **kw):
                    return []
            inst, program = Own('/opt/own tool/bin'), '/opt/own tool/bin'
        else:
            inst, program = installer(name), PROGRAM[name]
        mode = c.pick(['ok', 'usage', 'killed'] + sorted(errnos), 'program')
        asked = []

        def handler(argv):
            asked.append(argv)
            c.eq(argv[0], program, 'program of ' + name)
            c.check('install' not in argv, 'runs %r', argv)
            if mode in errnos:
                raise OSError(errnos[mode], mode)
            return {'ok': 0, 'usage': 2, 'killed': -9}[mode], b'', b'usage'
        env.procs.reset(handler)
        st, v = c.call(inst.is_package_manager_installed)
        c.eq((st, bool(v)), ('ok', mode not in errnos),
             '%s with program %s' % (name, mode))
        c.eq(len(asked), 1, 'programs run')
        from xylem.installers import InstallerPrerequisiteError
        with env.capture():
            st, v = c.call(inst.check_general_prerequisites, ('ubuntu', 'v'))
        if mode in errnos:
            c.check(st == 'exc' and isinstance(v, InstallerPrerequisiteError),
                    '%s with program %s: %s %r', name, mode, st, v)
        else:
            c.check(st == 'ok', '%s with program %s: %r', name, mode, v)
        c.observe('%s %s' % (name, mode))
    return Harness('available', fn, note='every way a program can(not) start')


def h_context():
    """The built-in installers of platforms."""
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.installers.plugins import apt, fake, homebrew, macports, pip
        mods = dict(zip(REAL, (apt, fake, homebrew, macports, pip)))
        core = c.subset(REAL, 'core')
        if c.flag('reversed'):
            core.reverse()
        osn = c.pick(['ubuntu', 'osx', 'arch'], 'os')
        ver = c.pick(['v1', '', '10.4'], 'version')
        stubs.platform([stubs.make_os(osn, versions=(ver,), detected=ver,
                                      core=core,
                                      default=core[0] if core else None)])
        order = c.pick([REAL, REAL[::-1]], 'order of plugins')
        env.plugins.script('xylem.installers', [
            (n, mods[n].definition) for n in order])
        add = c.flag('additional')
        disabled = c.pick([[], ['pip'], ['apt', 'fake']], 'disabled')
        cfg = stubs.config(use_additional_installers=add,
                           disabled_plugins={'installer': disabled})
        with env.capture():
            st, ic = c.call(InstallerContext, cfg)
        what = 'core %r, additional %r, disabled %r' % (core, add, disabled)
        c.check(st == 'ok', '%s: %r', what, ic)
        alive = [n for n in core if n not in disabled]
        c.eq([i.name for i in ic.core_installers], alive, what)
        want = ['pip'] if add and 'pip' not in core + disabled else []
        c.eq([i.name for i in ic.additional_installers], want,
             what + ': additional')
        for n in REAL:
            st, v = c.call(ic.lookup_installer, n)
            if n not in disabled:
                c.check(st == 'ok' and v.name == n, '%s: %s: %s %r', what, n,
                        st, v)
            else:
                c.check(st == 'exc' or v is None, '%s: %s is disabled: %r',
                        what, n, v)
        for n in REAL:
            for t in ((osn, ver), (osn, None), ('any', 'any')):
                st, v = c.call(installer(n).use_as_additional_installer, t)
                c.eq((st, bool(v)), ('ok', n == 'pip'),
                     '%s as additional installer on %r' % (n, t))
        c.observe(what)
    return Harness('context', fn, split=2, note='all core lists out of the '
                   'real installers')


RULES = {'k1': ('pip', ['p']), 'k2': ('fake', ['q', 'r']),
         'k3': ('pip', ['s', 'p']), 'k4': ('fake', ['q'])}


def h_history(depth):
    """Installing with the real pip and fake installers, and changes of the
    installed packages by others."""
    def fn(c):
        from xylem.installers import InstallerContext, \
            InstallerPrerequisiteError
        from xylem.installers.plugins import fake, pip
        from xylem.install import install
        root = c.tmp()
        d = os.path.join(root, 'inst')
        state = {'pip': set(), 'pip there': True}
        ran = []

        def handler(argv):
            if argv[0] == 'pip':
                if not state['pip there']:
                    raise OSError(2, 'no pip')
                if argv == ['pip', 'freeze']:
                    return 0, ''.join('%s==1\n' % x for x in sorted(
                        state['pip'])).encode(), b''
                if 'install' in argv:
                    ran.append(('pip', argv[-1]))
                    state['pip'].add(argv[-1])
                    return 0, b'', b''
            elif argv[0] == 'touch' and len(argv) == 2:
                c.eq(os.path.dirname(argv[1]), d, 'touch')
                ran.append(('fake', os.path.basename(argv[1])))
                try:
                    open(argv[1], 'a').close()
                    return 0, b'', b''
                except OSError:
                    return 1, b'', b''
            return 1, b'', b'usage'
        env.procs.reset(handler)
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['fake'],
                                      default='fake')])
        env.plugins.script('xylem.installers', [
            ('fake', fake.definition), ('pip', pip.definition)])
        db = mem_database([{k: {'ubuntu': {'any_version': {i: {
            'packages': ps}}}} for k, (i, ps) in RULES.items()}])
        cfg = stubs.config(installer_options={
            'fake': {'install_dir': d}, 'pip': {'as_root': False}})
        with env.capture():
            ic = InstallerContext(config=cfg)

        def have():
            return {('pip', x) for x in state['pip']} | {
                ('fake', x) for x in (os.listdir(d) if os.path.isdir(d)
                                      else [])}
        trace = []
        for step in range(depth):
            ops = [('install', req, fix) for req in (
                ['k1'], ['k2'], ['k3', 'k4'], ['k4', 'k2', 'k1'])
                for fix in (False, True)]
            ops += [('reinstall', ['k4', 'k1'], False), ('toggle pip',),
                    ('remove dir',), ('remove', 'q'), ('remove', 'p')]
            op = c.pick(ops, 'step %d' % step)
            trace.append(op)
            c.event(repr(op))
            before = have()
            if op[0] == 'toggle pip':
                state['pip there'] = not state['pip there']
            elif op[0] == 'remove dir':
                shutil.rmtree(d, True)
            elif op == ('remove', 'q'):
                if os.path.exists(d + '/q'):
                    os.remove(d + '/q')
            elif op[0] == 'remove':
                state['pip'].discard('p')
            else:
                del ran[:]
                needed = [(RULES[k][0], p) for k in op[1]
                          for p in RULES[k][1]]
                usable = {'pip': state['pip there'], 'fake': op[2] or
                          os.path.isdir(d)}
                with env.capture():
                    st, v = c.call(install, op[1], config=cfg, database=db,
                                   installer_context=ic,
                                   reinstall=op[0] == 'reinstall',
                                   interactive=False, fix_prerequisites=op[2])
                what = 'after %r' % (trace,)
                if all(usable[i] for i, _ in needed):
                    c.check(st == 'ok' and not v[0] and not v[1],
                            '%s: %s %r', what, st, v)
                    c.eq(have(), before | set(needed), what)
                    want = []
                    for x in needed:
                        if (op[0] == 'reinstall' or x not in before) and \
                                x not in want:
                            want.append(x)
                    c.eq([x for i, x in enumerate(ran) if x not in ran[:i]],
                         want, what + ': installed now')
                else:
                    c.check(st == 'exc' and isinstance(
                        v, InstallerPrerequisiteError), '%s: %s %r', what,
                        st, v)
                    c.eq((have(), ran), (before, []), what + ': changed')
            c.state(repr((sorted(have()), state['pip there'],
                          os.path.isdir(d))))
        c.observe(repr(sorted(have())))
    return Harness('history', fn, split=1, note='all histories of %d '
                   'operations' % depth)


def h_sizes(tier):
    """Long lists of installed and of requested packages."""
    def fn(c):
        n = c.pick(sizes(tier), 'number')
        what = c.pick(['pip', 'fake'], 'installer')
        # the list of pip exceeds what pipes hold and readers buffer
        there = names(n, 'p' * c.pick(
            [1, 40, 1000] if what == 'pip' else [1, 100],
            'length of names'))
        shape = c.pick(['all', 'none', 'first', 'last', 'every third'],
                       'requested ones that are installed')
        asked = {'all': there, 'none': [], 'first': there[:1],
                 'last': there[-1:], 'every third': there[::3]}[shape]
        more = c.pick([0, n] if what == 'pip' else [0, 1, n],
                      'others requested')
        asked = asked + names(more, 'other')
        if c.flag('backwards'):
            asked.reverse()
        if what == 'pip':
            inst = installer('pip')
            env.procs.reset(lambda argv: (0, ''.join(
                '%s==1.%d\n' % (x, i) for i, x in enumerate(
                    there)).encode(), b''))
        else:
            d = c.tmp()
            for x in there:
                open(os.path.join(d, x), 'w').close()
            inst = installer('fake')
            inst.options = {'install_dir': d}
        judge(c, inst, asked, there, '%d packages installed, %d requested' % (
            n, len(asked)))
        env.procs.reset(None)
        c.observe((what, n, shape, more))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    t = tier == 'thorough'
    return [h_pip(3 if t else 2), h_fake(5 if t else 3), h_available(),
            h_context(), h_history(4 if t else 3), h_sizes(tier)]
