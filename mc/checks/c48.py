"""C48: programs are run as given, their output is read completely."""

import itertools
import json
import os
import signal
import sys

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import Site, mem_database

PROPERTY = 'C48'
ASSUMPTIONS = [
    'programs close their output when they end and need no input of '
    'their own',
]

#  The program; what it does is in the file $XT_PLAN, what it was given goes
#  to the file $XT_RECORD.
TOOL = '''#!%s -ISs
import os, sys, json, signal
plan = json.load(open(os.environ['XT_PLAN']))
record = os.environ['XT_RECORD']
n = 0
if os.path.exists(record):
    n = len(open(record).readlines())
line = b''
if plan.get('read'):
    while not line.endswith(b'\\n'):
        b = os.read(0, 1)
        if not b:
            break
        line += b
with open(record, 'a') as f:
    f.write(json.dumps([sys.argv[0], [os.fsencode(a).hex()
        for a in sys.argv[1:]], os.getcwd(), dict(os.environ),
        line.decode()]) + '\\n')
steps = plan['steps']
mine = steps[min(n, len(steps) - 1)]
for fd, text in mine['out']:
    data = bytes.fromhex(text[1:]) if text[0] == 'x' else \\
        (text.encode() * (int(mine['unit']) // len(text) + 1))[:mine['unit']] \\
        if text[0] == '=' else text.encode()
    while data:
        data = data[os.write(fd, data):]
e = mine['exit']
if e < 0:
    os.kill(os.getpid(), -e)
os._exit(e)
'''


class Hang(BaseException):
    pass


class Tools(object):
    """Real programs in a scratch directory that is the whole PATH."""

    def __init__(self, c, names=('prog',)):
        self.c = c
        self.root = os.path.realpath(c.tmp())
        self.bin = os.path.join(self.root, 'bin')
        self.work = os.path.join(self.root, 'work dir')
        os.mkdir(self.bin)
        os.mkdir(self.work)
        self.record = os.path.join(self.root, 'record')
        self.plan_file = os.path.join(self.root, 'plan')
        for n in names:
            self.tool(n)
        self.plan([step()])

    def tool(self, name, mode=0o755, d=None, text=None):
        path = os.path.join(d or self.bin, name)
        with open(path, 'w') as f:
            f.write(TOOL % sys.executable if text is None else text)
        os.chmod(path, mode)
        return path

    def plan(self, steps, read=False):
        with open(self.plan_file, 'w') as f:
            json.dump({'steps': steps, 'read': read}, f)
        if os.path.exists(self.record):
            os.remove(self.record)

    def runs(self):
        if not os.path.exists(self.record):
            return []
        with open(self.record) as f:
            out = [json.loads(l) for l in f]
        for r in out:
            r[3] = 'environment changed: %r' % sorted(
                set(r[3].items()) ^ set(self.given.items())) \
                if r[3] != self.given else 'same environment'
        return [(os.path.basename(r[0]),
                 [os.fsdecode(bytes.fromhex(a)) for a in r[1]]) + tuple(r[2:])
                for r in out]

    def __enter__(self):
        self.environ, self.cwd = dict(os.environ), os.getcwd()
        os.environ.update(PATH=self.bin, XT_PLAN=self.plan_file,
                          XT_RECORD=self.record, XT_MARK='a "mark" $x')
        self.given = dict(os.environ)
        os.chdir(self.work)
        env.procs.reset(None)
        env.procs.only = self.root
        self.fds = fds()

        def hang(*a):
            raise Hang()
        self.alarm = signal.signal(signal.SIGALRM, hang)
        #  once one did not come back, do not wait as long for the others
        signal.setitimer(signal.ITIMER_REAL,
                         3 if os.path.exists(HANGS()) else 25)
        return self

    def __exit__(self, kind, value, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.alarm)
        env.procs.reset(None)
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.environ)
        if kind is Hang:
            end_children()
            open(HANGS(), 'w').close()
            self.c.check(False, 'xylem does not come back (%r)',
                         open(self.plan_file).read()[:300])
        if kind is None:
            left = end_children()
            self.c.eq(left, [], 'programs left behind')
            self.c.eq([f for f in fds() if f not in self.fds], [],
                      'open files')


def HANGS():
    return os.path.join(env.scratch(), 'hangs')


def fds():
    import gc
    gc.collect()
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            out.append((f, os.readlink('/proc/self/fd/' + f)))
        except OSError:
            pass
    return sorted(out)


def end_children():
    """Children of this process that are still there."""
    left = []
    with open('/proc/self/task/%d/children' % os.getpid()) as f:
        pids = [int(p) for p in f.read().split()]
    for p in pids:
        try:
            with open('/proc/%d/environ' % p) as f:
                mine = 'XT_PLAN=' in f.read()
            with open('/proc/%d/stat' % p) as f:
                zombie = f.read().rsplit(')', 1)[1].split()[0] == 'Z'
        except OSError:
            continue
        if zombie or mine:
            left.append('zombie' if zombie else 'running')
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
    return left


def step(out=(), exit=0, unit=65536):
    return {'out': [list(o) for o in out], 'exit': exit, 'unit': unit}


def output(steps, fd):
    b = b''
    for s in steps:
        for f, t in s['out']:
            if f == fd:
                b += bytes.fromhex(t[1:]) if t[0] == 'x' else \
                    (t.encode() * (s['unit'] // len(t) + 1))[:s['unit']] \
                    if t[0] == '=' else t.encode()
    return b.decode('utf-8', 'replace')


def functions():
    from xylem import util
    return util


#  one chunk of output: bytes of a character, invalid bytes, a lot
SMALL = ['a\n', 'xc3', 'xa9', 'xff', 'x00', '\x1b[0m', ' ', '\u20ac']
#  (characters of one, two and three bytes)
BIG = ['=\u20ac\xe9', '=0123456789']


def h_capture(name, chunks, units, length, exits):
    """Everything a program writes, in all orders."""
    seqs = [s for n in range(length + 1) for s in itertools.product(
        itertools.product((1, 2), chunks), repeat=n)]

    def fn(c):
        seq = seqs[c.choose(len(seqs), 'output')]
        big = any(t[0] == '=' for _, t in seq)
        unit = c.pick(units, 'amount') if big else 1
        e = c.pick(exits, 'exit status')
        t = Tools(c)
        s = [step(seq, e, unit)]
        t.plan(s)
        u = functions()
        what = 'a program that writes %r (= is %d bytes), exits %d' % (
            seq, unit, e)
        with t:
            got = u.read_stdout(['prog', 'x'])
            got2 = u.read_stdout_err(['prog', 'x'])
            there = u.is_program_installed('prog')
        for kind, g, w in (('stdout', got, output(s, 1)),
                           ('stdout', got2[0], output(s, 1)),
                           ('stderr', got2[1], output(s, 2))):
            if g != w:
                c.check(False, '%s: read %d characters of %s, not %d: %r, %r',
                        what, len(g), kind, len(w), g[:40], w[:40])
        c.eq(got2[2], e, what + ': exit status')
        c.eq(there, True, what + ': installed')
        c.eq([r[1] for r in t.runs()], [['x'], ['x'], []], what + ': runs')
        c.observe((e, len(got), len(got2[1])))
    return Harness(name, fn, split=1)


ARGS = ['', ' ', 'a b', '$HOME', '*', ';', '"', "'", '\\', '`true`', '|',
        '>f', '~', '-x', '--', '#', '&', 'a=b', '\n', '\t', '\u20ac', '(', '!',
        '%s', '{}', '@!', '$(true)', 'prog', '/', '.', '2>&1', '\x7f']


def h_arguments(n):
    """Arguments arrive as they are, and where the program runs."""
    def fn(c):
        t = Tools(c)
        args = [c.pick(ARGS, 'argument') for _ in range(n)]
        full = c.flag('absolute path')
        u = functions()
        prog = os.path.join(t.bin, 'prog') if full else 'prog'
        with t:
            given = [prog] + args
            u.read_stdout(given)
            c.eq(given, [prog] + args, 'arguments after the call')
            u.read_stdout_err(given)
        c.eq(t.runs(), 2 * [('prog', args, t.work, 'same environment', '')],
             'program, arguments, directory, environment, input')
        c.observe(tuple(args))
    return Harness('arguments', fn, split=1)


PLACES = ['nowhere', 'on the path', 'later on the path', 'not executable',
          'not executable but later on the path', 'directory',
          'broken interpreter', 'not a program', 'link', 'broken link',
          'fails', 'is killed', 'writes a lot', 'absolute', 'absolute missing',
          'relative', 'below the working directory', 'empty']


def h_installed():
    """What counts as an installed program."""
    def fn(c):
        t = Tools(c, ())
        place = c.pick(PLACES, 'the program')
        other = c.flag('another program')
        two = os.path.join(t.root, 'bin2')
        os.mkdir(two)
        name, want = 'prog', True
        if other:
            t.tool('program')
            t.tool('pro')
        if place == 'on the path':
            t.tool('prog')
        elif place == 'later on the path':
            t.tool('prog', d=two)
        elif place == 'not executable':
            t.tool('prog', mode=0o644)
            want = False
        elif place == 'not executable but later on the path':
            t.tool('prog', mode=0o644)
            t.tool('prog', d=two)
        elif place == 'directory':
            os.mkdir(os.path.join(t.bin, 'prog'))
            want = False
        elif place == 'broken interpreter':
            t.tool('prog', text='#!/nowhere/at/all\n')
            want = False
        elif place == 'not a program':
            t.tool('prog', text='\x00\x01\x02')
            want = False
        elif place == 'link':
            os.symlink(t.tool('real', d=two), os.path.join(t.bin, 'prog'))
        elif place == 'broken link':
            os.symlink(os.path.join(two, 'none'),
                       os.path.join(t.bin, 'prog'))
            want = False
        elif place == 'fails':
            t.tool('prog')
            t.plan([step([(2, 'usage\n')], 2)])
        elif place == 'is killed':
            t.tool('prog')
            t.plan([step([], -9)])
        elif place == 'writes a lot':
            t.tool('prog')
            t.plan([step([(2, '=a'), (1, '=b'), (2, '=c')], 0, 300000)])
        elif place.startswith('absolute'):
            name = os.path.join(two, 'prog')
            want = place == 'absolute'
            if want:
                t.tool('prog', d=two)
        elif place == 'relative':
            name = '../bin2/prog'
            t.tool('prog', d=two)
        elif place == 'below the working directory':
            t.tool('prog', d=t.work)
            want = False
        elif place == 'empty':
            name, want = '', False
        else:
            want = False
        what = 'is_program_installed(%r), %s' % (
            name, place)
        u = functions()
        from xylem.installers import PackageManagerInstaller

        class Inst(PackageManagerInstaller):
            name = 'inst'

            def get_install_commands_no_root(self, resolved, **kw):
                return []

            def filter_uninstalled(self, resolved):
                return []

            def install_package_manager(self, os_tuple, interactive=True):
                pass

        with t:
            os.environ['PATH'] = t.bin + os.pathsep + two
            for _ in range(2):
                with env.capture() as cap:
                    got = u.is_program_installed(name)
                c.eq((got, cap.stdout, cap.stderr), (want, '', ''), what)
            c.eq(Inst(name).is_package_manager_installed(), want,
                 what + ': package manager installed')
            if not want:
                for f in (u.read_stdout, u.read_stdout_err):
                    kind, v = c.call(f, [name])
                    c.check(kind == 'exc' and isinstance(v, OSError),
                            '%s: %s gives %r', what, f.__name__, v)
        c.observe((place, want))
    return Harness('installed', fn)


#  how commands of an installation end
ENDS = [0, 1, 2, 255, -signal.SIGTERM, -signal.SIGKILL, 'missing',
        'not executable']


def console(t, fn, lines):
    """Run ``fn`` in a process of its own with a console of files."""
    paths = [os.path.join(t.root, n) for n in ('stdin', 'stdout', 'stderr')]
    with open(paths[0], 'w') as f:
        f.write(lines)
    for p in paths[1:]:
        open(p, 'w').close()
    #  what is printed by this process stays with it
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            for i, p in enumerate(paths):
                fd = os.open(p, os.O_RDONLY if i == 0 else
                             os.O_WRONLY | os.O_APPEND)
                os.dup2(fd, i)
                os.close(fd)
            sys.stdin = os.fdopen(0, 'r')
            sys.stdout = os.fdopen(1, 'w')
            sys.stderr = os.fdopen(2, 'w')
            try:
                code = fn() or 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else \
                    0 if e.code is None else 1
            except Exception:
                import traceback
                traceback.print_exc()
                code = 98
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    out = [open(p, encoding='utf-8', errors='replace').read()
           for p in paths[1:]]
    return os.waitstatus_to_exitcode(st), out[0], out[1]


def h_install(n, ends):
    """Commands of an installation, run for real from the command line."""
    def fn(c):
        from xylem.commands.main import main
        es = []
        for _ in range(n):
            es.append(c.pick(ends, 'end of a command'))
        cont = c.flag('continue on error')
        again = c.flag('reinstall')
        t = Tools(c, ())
        names = ['p%d' % i for i in range(n)]
        steps = []
        for p, e in zip(names, es):
            if e != 'missing':
                t.tool('get-' + p,
                       mode=0o644 if e == 'not executable' else 0o755)
            if isinstance(e, int):
                steps.append(step([(1, 'out %s\n' % p), (2, '=err %s ' % p),
                                   (1, '=o'), (2, '\nerr %s\n' % p)], e,
                                  70000))
        t.plan(steps or [step()], read=True)
        site = Site(c)
        site.write_rules('r', {'k%d' % i: {'ubuntu': {'any_version': {
            'inst': {'packages': [p]}}}} for i, p in enumerate(names)})
        site.write_sources('10.yaml', ['r'])

        class Inst(stubs.make_installer('inst')):
            def get_install_commands(self, resolved, interactive=True,
                                     reinstall=False):
                return [['get-' + r.package, 'a b', '$x', r.package]
                        for r in resolved]

            def filter_uninstalled(self, resolved):
                done = [r[0] for r in t.runs()]
                return [r for r in resolved
                        if 'get-' + r.package not in done]

        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['inst'],
                                      default='inst')], [Inst])
        opts = ['--sources-dir', site.sources_dir, '--cache-dir',
                site.cache_dir]
        what = 'installing with commands that end with %r%s' % (
            es, ', continue on error' if cont else '')
        with t:
            c.eq(console(t, lambda: main(opts + ['update']), '')[0], 0,
                 'update')
            code, out, err = console(
                t, lambda: main(
                    opts + ['install'] +
                    (['--continue-on-error'] if cont else []) +
                    (['--reinstall'] if again else []) +
                    ['k%d' % i for i in range(n)]),
                ''.join('line %d\n' % i for i in range(n)))
        want, line = [], 0
        for p, e in zip(names, es):
            if isinstance(e, int):
                want.append(('get-' + p, ['a b', '$x', p], t.work,
                             'same environment', 'line %d\n' % line))
                line += 1
            if e != 0 and not cont:
                break
        c.eq(t.runs(), want, what + ': programs, arguments, directory, '
             'environment, input')
        c.eq(code == 0, all(e == 0 for e in es),
             '%s: succeeds (%d %r %r)' % (what, code, out[-300:], err[-300:]))
        c.check('Traceback' not in err, '%s: %r', what, err[-500:])
        for s, w in zip(steps, want):
            c.check(output([s], 1) in out and output([s], 2) in err,
                    '%s: output of %s on the console', what, w[0])
        c.observe((tuple(map(str, es)), code))
    return Harness('install', fn, split=1)


def h_pip(lines):
    """What pip lists, however it does."""
    def fn(c):
        from xylem.installers.plugins.pip import PipInstaller
        from xylem.installers.installer_base import Resolution
        total = c.pick(lines, 'packages installed')
        where = c.pick(['first', 'middle', 'last', 'absent'], 'the package')
        noise = c.pick([[], [(2, 'DEPRECATION: x\n')], [(2, '=warning ')]],
                       'messages')
        late = c.flag('messages after the list')
        e = c.pick([0, 1], 'exit status')
        rows = ['package-%d==1.%d' % (i, i) for i in range(total)]
        if where != 'absent':
            rows.insert({'first': 0, 'middle': total // 2,
                         'last': total}[where], 'wanted==2')
        text = ''.join(r + '\n' for r in rows)
        half = len(text) // 2
        out = [(1, text[:half]), (1, text[half:])]
        out = [o for o in out if o[1]]
        out = out + noise if late else noise + out
        t = Tools(c, ['pip'])
        t.plan([step(out, e, 200000)])
        res = [Resolution(package=p) for p in
               ('wanted', 'package-0', 'package-%d' % (total - 1), 'other')]
        with t:
            got = PipInstaller().filter_uninstalled(res)
        there = {r.split('==')[0] for r in rows}
        c.eq([r.package for r in got],
             [r.package for r in res if r.package not in there],
             'not installed, of %d packages with messages %r' % (
                 total, noise))
        c.observe((total, where, len(got)))
    return Harness('pip', fn)


def h_detect():
    """Programs asked for the operating system."""
    def fn(c):
        from xylem.os_support.os_detect import OSX, QNX
        which = c.pick(['sw_vers', 'uname'], 'program')
        noise = c.pick([None, '=a', 'message\n', 'xff'], 'messages')
        late = c.flag('messages after the answer')
        mode = c.pick(['good', 'missing', 'not executable', 'fails'],
                      'program is')
        t = Tools(c, ())
        path = os.path.join(t.bin, 'my tool')
        if mode != 'missing':
            t.tool('my tool', 0o644 if mode == 'not executable' else 0o755)
        ans = '10.9.5\n' if which == 'sw_vers' else 'QNX\n'
        out = [(1, ans)]
        if noise:
            out = out + [(2, noise)] if late else [(2, noise)] + out
        t.plan([step(out, 3 if mode == 'fails' else 0, 150000)])
        with t:
            if which == 'sw_vers':
                d = OSX(path)
                got = (d.is_os(), d.is_os() and d.get_version())
                want = (mode != 'missing',
                        '10.9.5' if mode in ('good', 'fails') else
                        mode != 'missing' and None)
                args = [['-productVersion']]
            else:
                d = QNX(path)
                got = (d.is_os(), d.is_os() and d.get_version())
                ok = mode in ('good', 'fails')
                want = (ok, ok and 'QNX')
                args = [[], [], [], ['-r']]
        what = '%s (%s, messages %r)' % (which, mode, noise)
        c.eq(got, want, what)
        if mode in ('good', 'fails'):
            c.eq({tuple(r[1]) for r in t.runs()},
                 {tuple(a) for a in args}, what + ': arguments')
        c.observe((which, mode, got))
    return Harness('detect', fn)


def harnesses(tier):
    if tier == 'quick':
        return [h_capture('capture', BIG[:1] + ['a\n', 'xc3', 'xa9'],
                          [65536, 65537], 2, [0, 1, -15]),
                h_capture('deep', BIG[:1] + ['b'], [200000], 3, [0]),
                h_arguments(1), h_installed(), h_install(2, ENDS),
                h_pip([1, 10, 6000]), h_detect()]
    return [h_capture('capture', BIG + SMALL,
                      [1, 4096, 65535, 65536, 65537, 131072, 1000000], 2,
                      [0, 1, 2, 255, -15, -9]),
            h_capture('deep', BIG[:1] + ['b', 'xe2', 'x82ac'],
                      [65536, 200000], 4, [0]),
            h_arguments(2), h_installed(), h_install(3, ENDS),
            h_pip([1, 2, 10, 1000, 6000, 60000]), h_detect()]
