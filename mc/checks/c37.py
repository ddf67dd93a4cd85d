"""C37: scoped helpers restore process state on every exit path."""

import os
import sys

from mc.engine import Harness
from mc import env
from mc.sizes import sizes, names

PROPERTY = 'C37'
ASSUMPTIONS = ['the directory to return to still exists']


class Stop(BaseException):
    pass


class Boom(Exception):
    pass


EXITS = {'normal': None, 'error': (Boom, ('thrown',)),
         'exit': (SystemExit, (1,)),
         'exit zero': (SystemExit, (0,)), 'exit none': (SystemExit, ()),
         'interrupt': (KeyboardInterrupt, ()), 'base': (Stop, ('thrown',)),
         'generator': (GeneratorExit, ())}
MANAGERS = ['cd', 'cd relative', 'cd missing', 'temp', 'stdio']
ACTIONS = ['nothing', 'chdir', 'stdout', 'files', 'remove']


class Run(object):
    def __init__(self, c, depth, reuse):
        self.c = c
        self.root = os.path.realpath(c.tmp())
        for d in ('a', 'a/b', 'other', 'keep'):
            os.mkdir(os.path.join(self.root, d))
        with open(os.path.join(self.root, 'keep', 'f'), 'w') as f:
            f.write('precious')
        self.log = []
        self.depth = depth
        self.reuse = reuse
        self.left = []

    def manager(self, kind):
        from xylem.util import (change_directory, temporary_directory,
                                redirected_stdio)
        if kind == 'cd':
            return change_directory(os.path.join(self.root, 'a'))
        if kind == 'cd relative':
            return change_directory('b')
        if kind == 'cd missing':
            return change_directory(os.path.join(self.root, 'missing'))
        if kind == 'temp':
            return temporary_directory(self.c.pick(['', 'pre-'], 'prefix'))
        return redirected_stdio()

    def act(self, what):
        if what == 'chdir':
            os.chdir(os.path.join(self.root, 'other'))
        elif what == 'stdout':
            sys.stdout = env.Console()
            sys.stderr = env.Console()
        elif what == 'files' and self.temps:
            d = self.temps[-1]
            if os.path.isdir(d) and not os.listdir(d):
                os.makedirs(os.path.join(d, 'x', 'y'))
                open(os.path.join(d, 'x', 'y', 'f'), 'w').close()
                os.symlink(os.path.join(self.root, 'keep'),
                           os.path.join(d, 'link'))
        elif what == 'remove' and self.temps:
            import shutil
            shutil.rmtree(self.temps[-1], ignore_errors=True)

    temps = ()

    def level(self, n, exc):
        c = self.c
        kind = c.pick(MANAGERS, 'manager %d' % n)
        m = self.manager(kind)
        self.log.append(kind)
        for again in range(2 if self.reuse and n == 0 else 1):
            cwd = os.getcwd() if self.alive() else '/gone'
            out, err = sys.stdout, sys.stderr
            temps = list(self.temps)
            raised = None
            entered = False
            path = None
            try:
                with m as got:
                    entered = True
                    if kind == 'temp':
                        path = got
                        c.check(os.path.isdir(path) and os.listdir(path) == []
                                and os.path.realpath(path) == os.getcwd(),
                                '%r: temporary directory %r', self.log, got)
                        self.temps = temps + [os.path.realpath(path)]
                        self.left.append(os.path.realpath(path))
                    elif kind.startswith('cd'):
                        c.eq(os.getcwd(), os.path.realpath(os.path.join(
                            cwd, m.directory)), '%r: working directory' %
                            self.log)
                    else:
                        c.check(got == (sys.stdout, sys.stderr),
                                '%r: redirection', self.log)
                        c.check(sys.stdout is not out and sys.stderr is not
                                err, '%r: not redirected', self.log)
                        sys.stdout.write('to out é')
                        sys.stderr.write('to err')
                        c.eq((got[0].getvalue(), got[1].getvalue()),
                             ('to out é', 'to err'), 'redirected output')
                    act = c.pick(ACTIONS, 'action %d' % n)
                    self.log.append(act)
                    self.act(act)
                    if n + 1 < self.depth:
                        self.level(n + 1, exc)
                    elif exc:
                        raise exc
            except BaseException as e:
                from mc.engine import Violation, Prune, ReplayDivergence
                if isinstance(e, (Violation, Prune, ReplayDivergence)):
                    raise
                raised = e
            what = '%r (%r)' % (self.log, exc)
            if kind != 'stdio' and os.path.isdir(cwd):
                c.eq(os.getcwd() if self.alive() else None, cwd,
                     what + ': working directory after')
            # "stdio" undoes any replacement of the streams
            if kind == 'stdio':
                c.check(sys.stdout is out and sys.stderr is err,
                        '%s: streams are not restored', what)
            else:
                sys.stdout, sys.stderr = out, err
            if path:
                c.check(not os.path.lexists(path), '%s: %s is left', what,
                        path)
            self.temps = temps
            if not entered:
                c.check(isinstance(raised, OSError), '%s: entering raised %r',
                        what, raised)
            self.passed = raised
            if raised is not None and (n or not self.reuse):
                raise raised
            if raised is not None:
                self.last = raised

    def alive(self):
        try:
            os.getcwd()
            return True
        except OSError:
            return False


def h_nesting(depth, reuse, exits):
    def fn(c):
        name = c.pick(exits, 'exit')
        exc = EXITS[name] and EXITS[name][0](*EXITS[name][1])
        args = exc and exc.args
        start = os.getcwd()
        streams = sys.stdout, sys.stderr
        r = Run(c, depth, reuse)
        raised = None
        os.chdir(os.path.join(r.root, 'a'))
        try:
            with env.capture():
                before = sys.stdout, sys.stderr
                try:
                    r.level(0, exc)
                except (Boom, Stop, SystemExit, KeyboardInterrupt,
                        GeneratorExit, OSError) as e:
                    raised = e
                after = sys.stdout, sys.stderr
            if reuse:
                raised = getattr(r, 'last', None)
            c.check(before == after, '%r: streams', r.log)
            if raised is None:
                c.check(exc is None, '%r: %r was swallowed', r.log, exc)
            elif not isinstance(raised, OSError):
                c.check(raised is exc and raised.args == args and
                        raised.__cause__ is None,
                        '%r: %r instead of %r', r.log, raised, exc)
            else:
                # entering failed: only with a missing directory
                c.check({'cd missing', 'cd relative', 'remove'} & set(r.log),
                        '%r: %r', r.log, raised)
            c.check(open(os.path.join(r.root, 'keep', 'f')).read() ==
                    'precious', '%r: removed foreign files', r.log)
            for p in r.left:
                c.check(not os.path.lexists(p), '%r: %s is left', r.log, p)
        finally:
            os.chdir(start)
            sys.stdout, sys.stderr = streams
        c.observe('%r %s %s' % (r.log[::2], name, type(raised).__name__))
    return Harness('nesting %d%s' % (depth, ' reuse' if reuse else ''), fn,
                   split=3, note='all nestings of depth %d of %d managers '
                   'with %d actions and %d exits' % (
                       depth, len(MANAGERS), len(ACTIONS), len(exits)))


def h_fault():
    """Removing the temporary directory fails."""
    def fn(c):
        import shutil
        from xylem.util import temporary_directory
        root = os.path.realpath(c.tmp())
        start = os.getcwd()
        name = c.pick(sorted(EXITS), 'exit')
        act = c.pick(['nothing', 'chdir'], 'action')
        where = c.pick(['rmdir', 'unlink'], 'failing call')
        real = getattr(os, where)

        def fail(path, *a, **kw):
            raise OSError(16, 'Device or resource busy', path)
        got = None
        os.chdir(root)
        try:
            st, v = 'ok', None
            try:
                with temporary_directory() as d:
                    got = d
                    open('f', 'w').close()
                    if act == 'chdir':
                        os.chdir('/')
                    setattr(os, where, fail)
                    if EXITS[name]:
                        raise EXITS[name][0](*EXITS[name][1])
            except (OSError, Boom, Stop, SystemExit, KeyboardInterrupt,
                    GeneratorExit) as e:
                st, v = 'exc', e
            finally:
                setattr(os, where, real)
            c.eq(os.getcwd(), root, 'working directory after failing to '
                 'remove the temporary directory (%s, %s, %s)' % (
                     name, act, where))
            c.check(st == 'exc', 'failure is not reported')
        finally:
            os.chdir(start)
            shutil.rmtree(got, ignore_errors=True)
        c.observe('%s %s %s' % (name, act, where))
    return Harness('fault', fn, note='temporary directory cannot be removed')


def h_lists():
    """remove_duplicates and indent."""
    from itertools import product

    def fn(c):
        from xylem.util import remove_duplicates, indent
        first = c.pick(['a', 'b', '', 1, None], 'first')
        for n in range(5):
            for rest in product(['a', 'b', '', 1, None], repeat=n):
                seq = [first] + list(rest)
                want = []
                for x in seq:
                    if x not in want:
                        want.append(x)
                copy = list(seq)
                c.eq(remove_duplicates(seq), want, 'remove_duplicates(%r)' %
                     seq)
                c.eq(seq, copy, 'argument')
        for n in range(5):
            for text in product(['x', '\n', ' ', 'é'], repeat=n):
                text = ''.join(text)
                for width in range(3):
                    lines = text.split('\n')
                    c.eq(indent(text, width),
                         '\n'.join(' ' * width + x for x in lines),
                         'indent(%r, %d)' % (text, width))
                    c.eq(indent(text, width, exclude_first=True),
                         '\n'.join([lines[0]] + [' ' * width + x
                                                 for x in lines[1:]]),
                         'indent(%r, %d, exclude_first)' % (text, width))
        c.observe(repr(first))
    return Harness('lists', fn, note='short sequences and texts')


def h_sizes(tier):
    """Long sequences and texts, much output and deep nesting."""
    def fn(c):
        from xylem.util import (remove_duplicates, indent, change_directory,
                                temporary_directory, redirected_stdio)
        n = c.pick(sizes(tier), 'number')
        what = c.pick(['sequence', 'text', 'output', 'nesting', 'files'],
                      'of')
        if what == 'sequence':
            xs = names(n)
            for seq in (xs, xs + xs, xs + xs[::-1], [x for x in xs
                                                     for _ in '12']):
                want = []
                for x in seq:
                    if x not in want:
                        want.append(x)
                c.eq(remove_duplicates(list(seq)), want,
                     'remove_duplicates of %d' % len(seq))
        elif what == 'text':
            for lines in (names(n), [''] * n, ['x' * n], ['x' * n] * 3):
                for width in (2, n):
                    want = '\n'.join(' ' * width + x for x in lines)
                    c.eq(indent('\n'.join(lines), width),
                         want or ' ' * width, '%d lines' % n)
        elif what == 'output':
            out, err = sys.stdout, sys.stderr
            with redirected_stdio() as (o, e):
                for i in range(n):
                    sys.stdout.write('line %d\n' % i)
                    sys.stderr.write('x' * n)
            c.check(sys.stdout is out and sys.stderr is err,
                    '%d lines: streams', n)
            c.eq(o.getvalue(), ''.join('line %d\n' % i for i in range(n)),
                 'output of %d lines' % n)
            c.eq(e.getvalue(), 'x' * n * n, 'errors of %d lines' % n)
        elif what == 'files':
            start = os.getcwd()
            with temporary_directory() as d:
                for x in names(n):
                    open(os.path.join(d, x), 'w').close()
                os.makedirs(os.path.join(d, *['d'] * min(n, 100)),
                            exist_ok=True)
            c.check(not os.path.exists(d), '%d files: %s is left', n, d)
            c.eq(os.getcwd(), start, '%d files: working directory' % n)
        else:
            n = min(n, 130)
            start = os.getcwd()
            root = os.path.realpath(c.tmp())
            streams = sys.stdout, sys.stderr
            where = [root, os.path.join(root, 'sub')]
            os.mkdir(where[1])
            temps = []

            def down(k):
                if not k:
                    if c.flag('error'):
                        raise Boom('at the bottom')
                    return
                cwd, out = os.getcwd(), sys.stdout
                m = [lambda: change_directory(where[k // 3 % 2]),
                     temporary_directory, redirected_stdio][k % 3]()
                try:
                    with m as got:
                        if k % 3 == 1:
                            temps.append(got)
                        down(k - 1)
                finally:
                    c.check(sys.stdout is out, 'level %d: streams', k)
                    c.eq(os.getcwd(), cwd, 'level %d: directory' % k)
            os.chdir(root)
            try:
                try:
                    down(n)
                except Boom:
                    pass
                c.eq(os.getcwd(), root, '%d levels: directory' % n)
            finally:
                os.chdir(start)
                sys.stdout, sys.stderr = streams
            for t in temps:
                c.check(not os.path.exists(t), '%s is left', t)
        c.observe((n, what))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    exits = sorted(EXITS)
    quick = [h_nesting(1, False, exits), h_nesting(2, False, exits),
             h_nesting(2, True, ['error', 'normal']), h_fault(), h_lists(),
             h_sizes(tier)]
    if tier == 'quick':
        return quick
    return quick + [h_nesting(3, False, exits), h_nesting(3, True, ['error', 'normal'])]
