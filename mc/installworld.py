"""A scripted platform for install() and a reference model of installing."""

from mc import env, stubs
from mc.fullstack import mem_database

#  key: (installer, packages)
KEYS = {
    'k1': ('a', ['p-one']),
    'k2': ('b', ['p-two']),
    'k3': ('a', ['p-three', 'p-four']),
    'k4': ('b', ['p-five']),
    'k5': ('c', ['p-six']),
    'k0': ('a', []),
}
MISSING = 'missing'


class Fault(Exception):
    """An error xylem knows nothing about."""


def fault_types():
    """Errors that installers are not meant to raise."""
    return [Fault, IOError, KeyError, LookupError, ValueError, TypeError,
            AttributeError, RuntimeError, AssertionError, StopIteration,
            UnicodeError, MemoryError, NotImplementedError]


class World(object):
    """Installers ``a`` and ``b`` (core) and ``c`` (additional)."""

    def __init__(self, c, installed=(), layout='each', faults=None,
                 outcome=None, keys=None, as_root=False, names='abc',
                 fault_type=Fault):
        self.c = c
        self.keys = keys or KEYS
        self.installed = set(installed)
        self.layout = layout
        self.faults = faults or {}
        self.outcome = outcome or (lambda argv: 'ok')
        self.calls = []             # log of everything observable, in order
        self.decisions = []
        self.outcomes = []
        world = self

        def make(name_):
            class Inst(stubs.make_installer(name_, additional=name_ == names[2])):
                def fault(self, what):
                    from xylem.installers import (InstallerError,
                                                  InstallerPrerequisiteError)
                    f = world.faults.get((name_, what))
                    if f == 'error':
                        raise InstallerError('scripted %s error' % what)
                    if f == 'prereq':
                        raise InstallerPrerequisiteError('scripted %s' % what)
                    if f == 'unexpected':
                        raise fault_type('scripted %s fault' % what)

                def filter_uninstalled(self, resolved):
                    world.calls.append(('filter', name_, [
                        r.package for r in resolved]))
                    self.fault('filter')
                    return [r for r in resolved
                            if r.package not in world.installed]

                def is_installed(self, resolved):
                    self.fault('verify')
                    if not isinstance(resolved, list):
                        resolved = [resolved]
                    return all(r.package in world.installed for r in resolved)

                def get_install_commands_no_root(self, resolved,
                                                 interactive=True,
                                                 reinstall=False):
                    self.fault('compose')
                    return commands(name_, [r.package for r in resolved],
                                    world.layout, interactive, reinstall)

                def check_general_prerequisites(self, os_tuple,
                                                fix_unsatisfied=False,
                                                interactive=True):
                    world.calls.append(('general', name_, os_tuple,
                                        fix_unsatisfied, interactive))
                    self.fault('general')

                def check_install_prerequisites(self, resolutions, os_tuple,
                                                fix_unsatisfied=False,
                                                interactive=True):
                    world.calls.append(('prepare', name_, [
                        r.package for r in resolutions], os_tuple,
                        fix_unsatisfied, interactive))
                    self.fault('prepare')
            return Inst

        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=list(names[:2]),
                                      default=names[0])],
                       [make(n) for n in names])
        rules = {k: {'ubuntu': {'any_version': {i: {'packages': ps}}}}
                 for k, (i, ps) in self.keys.items()}
        self.db = mem_database([rules])
        self.config = stubs.config(installer_options={
            n: {'as_root': as_root} for n in names})
        with env.capture():
            from xylem.installers import InstallerContext
            self.ic = InstallerContext(config=self.config)
        env.procs.reset(self.handler)

    def handler(self, argv):
        out = self.outcome(argv)
        self.decisions.append(out)
        self.outcomes.append((list(argv), out))
        self.calls.append(('run', list(argv)))
        if out == 'oserror':
            raise OSError(2, 'No such file or directory', argv[0])
        self.installed |= effect(argv, out)
        if out.startswith('late:'):
            return int(out[5:]), b'', b''
        return (1 if out in ('fail', 'partial') else
                {'fail127': 127, 'killed': -9, 'latekill': -15,
                 'late': 3}.get(out, 0),
                b'', b'')

    def install(self, keys, **kw):
        if len(keys) % 2:
            # the same as not giving these options at all
            kw = dict((k, v) for k, v in kw.items()
                      if v is not (k == 'interactive'))
        from xylem.install import install
        import builtins
        self.prompts = []
        saved = builtins.input

        def ask(prompt=''):
            self.prompts.append(prompt)
            return 'y'
        builtins.input = ask
        try:
            with env.capture() as con:
                st, v = self.c.call(install, list(keys), config=self.config,
                                    database=self.db,
                                    installer_context=self.ic, **kw)
        finally:
            builtins.input = saved
        self.out = env.strip_ansi(con.stdout)
        self.err = env.strip_ansi(con.stderr)
        return st, v

    @property
    def executed(self):
        return [list(a) for a, _shell in env.procs.calls]


def commands(name, packages, layout, interactive, reinstall):
    flags = ([] if interactive else ['-y']) + (['--re'] if reinstall else [])
    if not packages:
        return []
    if layout == 'each':
        return [[name, 'install'] + flags + [p] for p in packages]
    if layout == 'batch':
        return [[name, 'install'] + flags + packages]
    return [[name, 'refresh']] + [[name, 'install'] + flags + [p]
                                  for p in packages]


def effect(argv, out):
    """Packages that a command installs."""
    ps = [a for a in argv[2:] if a not in ('-y', '--re')]
    if argv[1] != 'install':
        return set()
    return set(ps) if out in ('ok', 'late', 'latekill') or \
        out.startswith('late:') else \
        set(ps[:1]) if out == 'partial' else set()


def squash(groups):
    out = []
    for name, ps in groups:
        if out and out[-1][0] == name:
            out[-1][1].extend(ps)
        else:
            out.append((name, list(ps)))
    return out


class Expected(object):
    """What installing has to do, given the outcomes of commands in order."""

    def __init__(self, keys, installed, layout, reinstall=False,
                 interactive=True, cont=False, decisions=(), faults=None,
                 known=None, simulate=False):
        known = known or KEYS
        faults = faults or {}
        self.commands = []
        self.resolve_errors = []
        self.failed = set()         # packages that could not be installed
        self.groups_failed = set()  # installers with an error of their own
        self.raises = None
        self.installed = set(installed)
        self.tolerant = set()       # installers whose commands are not fixed
        self.prepared = {}
        self.causes = set()         # faults that have to be reported
        todo = []
        for k in dict.fromkeys(keys):
            if k in known:
                todo.append((known[k][0], list(known[k][1])))
            else:
                self.resolve_errors.append(k)
        self.names = list(dict.fromkeys(n for n, _ in todo))
        if self.resolve_errors and not cont:
            return
        todo = squash(todo)
        for n in self.names:
            if faults.get((n, 'general')):
                self.raises = faults[n, 'general']
                return
        if not reinstall:
            left = []
            for n, ps in todo:
                f = faults.get((n, 'filter'))
                if f == 'unexpected':
                    self.raises = 'internal'
                    return
                if f == 'error':
                    self.groups_failed.add(n)
                    self.failed |= set(ps)
                    self.tolerant.add(n)
                    self.causes.add((n, 'filter'))
                left.append((n, [p for p in ps if p not in self.installed
                                 or f == 'error']))
            todo = left
            if self.groups_failed and not cont:
                return
        todo = squash((n, ps) for n, ps in todo if ps or reinstall)
        for n, ps in todo:
            self.prepared.setdefault(n, []).extend(ps)
        for n in self.prepared:
            if faults.get((n, 'prepare')):
                self.raises = faults[n, 'prepare']
                return
        decisions = list(decisions)     # (command, outcome) in order
        for n, ps in todo:
            f = faults.get((n, 'compose'))
            if f == 'unexpected':
                self.raises = 'internal'
                return
            if f == 'error':
                self.groups_failed.add(n)
                self.failed |= set(ps)
                self.causes.add((n, 'compose'))
                if not cont:
                    return
                continue
            cmds = commands(n, ps, layout, interactive, reinstall)
            self.commands.extend(cmds) if simulate else None
            if simulate or not cmds:
                continue
            bad = False
            for cmd in cmds:
                self.commands.append(cmd)
                out = 'ok'
                for i, (a, o) in enumerate(decisions):
                    if a == cmd:
                        out = o
                        del decisions[i]
                        break
                self.installed |= effect(cmd, out)
                if out not in ('ok', 'liar', 'noop'):
                    bad = True
                    self.failed |= {a for a in cmd[2:]
                                    if a not in ('-y', '--re')}
                    if cmd[1] == 'refresh':
                        self.groups_failed.add(n)
                    if not cont:
                        return
            f = faults.get((n, 'verify'))
            if f == 'unexpected' and ps:
                self.raises = 'internal'
                return
            if f == 'error' and ps:
                self.causes.add((n, 'verify'))
            for p in ps:
                if f == 'error' or p not in self.installed:
                    bad = True
                    self.failed.add(p)
            if bad and not cont:
                return
