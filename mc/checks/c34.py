"""C34: chained errors keep the whole chain of causes."""

from itertools import product

import io
import re
import sys
import traceback

from mc.engine import Harness

PROPERTY = 'C34'
ASSUMPTIONS = ['errors are chained through the helpers of xylem or "raise '
               'from"; implicit contexts are not part of the chain']

MESSAGES = ['m%d', 'a: b%d', 'two\nlines%d', 'é日%d', '@!x{0}%%s%d', ' %d ']


class Custom(Exception):
    def __str__(self):
        return 'custom<%s>' % (self.args,)


def types():
    import yaml
    from xylem.exception import XylemError, XylemInternalError
    from xylem.config_utils import ConfigValueError
    from xylem.installers import InstallerError
    return [XylemError, ValueError, KeyError, XylemInternalError, LookupError,
            RuntimeError, ConfigValueError, InstallerError, yaml.YAMLError,
            Custom, OSError]


def roots():
    def utf():
        b'\xff'.decode('utf-8')

    def nofile():
        open('/nonexistent/file')

    def key():
        {}['k']

    def attr():
        object().foo

    def stop():
        raise KeyboardInterrupt()

    def empty():
        raise ValueError()
    return [None, utf, nofile, key, attr, stop, empty]


def raiser_0(e):
    raise e


def head(e):
    return ''.join(traceback.format_exception_only(type(e), e)).rstrip('\n')


def grow(how, kind, msg, cause):
    """-> exception chained to ``cause``"""
    from xylem.exception import chain_exception, raise_from
    try:
        if how == 'raise_from':
            raise_from(kind, msg, cause)
        elif how == 'chain':
            exc = chain_exception(kind, msg, cause)
            return exc
        elif how == 'native':
            raise kind(msg) from cause
        else:
            try:
                raiser_0(cause if cause is not None else KeyError('none'))
            except BaseException as e:
                raise_from(kind, msg, e if cause is not None else None)
    except BaseException as e:
        return e
    raise AssertionError('nothing was raised')


def h_chains(n, ntypes, messages, nroots):
    def fn(c):
        from xylem.exception import exc_to_str
        kinds = types()[:ntypes]
        root = roots()[:nroots][c.choose(nroots, 'root')]
        chain = []          # root first
        if root is not None:
            try:
                root()
            except BaseException as e:
                chain.append(e)
        depth = c.choose(n + 1, 'depth')
        if depth == 0 and not chain:
            c.prune()
        for i in range(depth):
            kind = kinds[c.choose(len(kinds), 'type %d' % i)]
            msg = messages[c.choose(len(messages), 'message %d' % i)] % i
            how = c.pick(['raise_from', 'chain', 'native', 'handler'],
                         'how %d' % i)
            e = grow(how, kind, msg, chain[-1] if chain else None)
            what = '%s(%s, %r)' % (how, kind.__name__, msg)
            c.check(type(e) is kind, '%s gives %r', what, e)
            c.eq(e.args, (msg,), what + ': arguments')
            c.eq(str(e), str(kind(msg)), what + ': message')
            c.check(e.__cause__ is (chain[-1] if chain else None),
                    '%s: cause %r', what, e.__cause__)
            chain.append(e)
        # the chain is complete
        e, seen = chain[-1], []
        while e is not None:
            seen.insert(0, e)
            e = e.__cause__
        c.check(len(seen) == len(chain) and all(
            x is y for x, y in zip(seen, chain)), 'chain %r', seen)
        last = chain[-1]
        link = 'The above error was the direct cause of the following:'
        what = 'exc_to_str of %r' % (chain,)
        heads = [head(x) for x in chain]
        text = exc_to_str(last)
        c.eq(text, (' --- ' + link + '\n').join(h + '\n' for h in heads)
             .rstrip('\n'), what)
        c.eq(exc_to_str(last, tb=False, chain=True), text, what)
        c.eq(exc_to_str(last, chain=False).rstrip('\n'),
             heads[-1].rstrip('\n'), what + ', no chain')
        full = exc_to_str(last, tb=True)
        pos = 0
        for x, h in zip(chain, heads):
            raised = x.__traceback__ is not None
            # everything from here up to the message of this error
            m = re.compile('^' + re.escape(h) + '$', re.M).search(full, pos)
            at = m.start() if m else -1
            c.check(at >= 0, '%s: %r is missing in %r', what, h, full)
            part = full[pos:at]
            if last.__traceback__ is not None:
                c.eq('Traceback (most recent call last)' in part, raised,
                     '%s: traceback of %r in %r' % (what, h, part))
                if raised:
                    fs = traceback.extract_tb(x.__traceback__)
                    c.check('in ' + fs[-1].name in part, '%s: traceback of '
                            '%r in %r', what, h, part)
            pos = at + len(h)
            rest = full[pos:].lstrip('\n')
            c.check((x is last and not rest) or rest.startswith(link) or
                    link in rest.split('\n')[0], '%s: %r', what, full)
        c.eq(full.count(link), len(chain) - 1, what)
        c.observe('%d %r' % (len(chain), [type(x).__name__ for x in chain]))
    return Harness('chains %d' % n, fn, split=3,
                   note='all chains of up to %d errors of %d types, %d '
                   'messages, made in 4 ways, with %d root causes' % (
                       n, ntypes, len(messages), nroots))


def h_contexts(n):
    """Errors that are raised while another one of the chain is handled."""
    def fn(c):
        from xylem.exception import (XylemError, chain_exception, exc_to_str,
                                     raise_from)
        depth = c.choose(n - 1, 'depth') + 2
        chain = []
        for i in range(depth):
            kind = [XylemError, ValueError, KeyError, Custom][i % 4]
            msg = 'message %d' % i
            cause = chain[-1] if chain else None
            handled = c.pick([None] + list(range(i)) + ['other'],
                             'handled %d' % i)
            how = c.pick(['raise_from', 'chain', 'native'], 'how %d' % i)

            def make():
                if how == 'raise_from':
                    raise_from(kind, msg, cause)
                elif how == 'chain':
                    raise chain_exception(kind, msg, cause)
                raise kind(msg) from cause
            try:
                if handled is None:
                    make()
                try:
                    raise LookupError('other') if handled == 'other' else \
                        chain[handled]
                except Exception:
                    make()
            except Exception as e:
                c.check(type(e) is kind and e.args == (msg,), 'raised %r', e)
                chain.append(e)
        link = 'The above error was the direct cause of the following:'
        heads = [head(x) for x in chain]
        what = 'exc_to_str of %r' % (chain,)
        text = exc_to_str(chain[-1])
        c.eq(text, (' --- ' + link + '\n').join(h + '\n' for h in heads)
             .rstrip('\n'), what)
        full = exc_to_str(chain[-1], tb=True)
        c.eq([full.count('\n' + h + '\n') + full.endswith('\n' + h)
              for h in heads], [1] * depth, what + ': messages in ' + full)
        c.eq(full.count(link), depth - 1, what)
        c.observe(text)
    return Harness('contexts', fn, split=2,
                   note='chains of up to %d errors, each raised while any '
                   'earlier one is handled' % n)


def h_deep():
    def fn(c):
        from xylem.exception import exc_to_str
        n = c.pick([10, 50, 200], 'length')
        how = c.pick(['raise_from', 'chain', 'native', 'handler'], 'how')
        e = None
        for i in range(n):
            e = grow(how, ValueError, 'msg-%d-' % i, e)
        text = exc_to_str(e)
        pos = -1
        for i in range(n):
            at = text.find('msg-%d-' % i)
            c.check(at > pos, 'message %d of %d is not in order', i, n)
            c.eq(text.count('msg-%d-' % i), 1, 'message %d' % i)
            pos = at
        c.observe('%d %s' % (n, how))
    return Harness('deep', fn, note='chains of 10, 50 and 200 errors')


def h_equal(n):
    """Errors of a chain that look the same are all shown."""
    def fn(c):
        from xylem.exception import exc_to_str
        depth = c.choose(n, 'depth') + 1
        tb = c.flag('traceback')
        e = None
        heads = []
        for i in range(depth):
            kind = c.pick([ValueError, KeyError], 'type %d' % i)
            msg = c.pick(['x', 'y', ''], 'message %d' % i)
            how = c.pick(['raise_from', 'chain'], 'how %d' % i)
            e = grow(how, kind, msg, e)
            heads.append(head(e))
        text = exc_to_str(e, tb=tb)
        got = [x.split(' --- ')[0].strip() for x in text.split('\n')
               if x.startswith(('ValueError', 'KeyError'))]
        c.eq(got, [h.strip() for h in heads],
             'errors shown of %r (traceback %r)' % (heads, tb))
        c.observe('%d %r' % (depth, tb))
    return Harness('equal', fn, split=2,
                   note='chains of up to %d errors with equal messages' % n)


def h_limit():
    def fn(c):
        from xylem.exception import exc_to_str, raise_from

        def inner(k):
            if k:
                inner(k - 1)
            raise KeyError('in')

        def outer(k):
            if k:
                return outer(k - 1)
            try:
                inner(a)
            except KeyError as e:
                raise_from(ValueError, 'out', e)
        a, b = c.choose(4, 'inner depth'), c.choose(4, 'outer depth')
        limit = c.pick([None, 1, 2, 3], 'limit')
        chain = c.flag('chain')
        how = c.pick(['true', 'explicit'], 'traceback')
        try:
            outer(b)
        except ValueError as e:
            exc = e
        tb = True if how == 'true' else exc.__traceback__
        text = exc_to_str(exc, tb=tb, limit=limit, chain=chain)
        frames = text.count('  File "')
        n = lambda x: len(traceback.extract_tb(x.__traceback__, limit))
        c.eq(frames, n(exc) + (n(exc.__cause__) if chain else 0),
             'frames with limit %r, chain %r, depths %d, %d' % (
                 limit, chain, a, b))
        c.eq('KeyError' in text.replace('except KeyError', ''), chain,
             'cause in %r' % text)
        c.observe('%d' % frames)
    return Harness('limit', fn, note='limits on frames')


class Out(io.StringIO):
    def __init__(self, tty):
        super().__init__()
        self.tty = tty

    def isatty(self):
        return self.tty


def h_uncaught(n, messages):
    """The handler of errors nobody caught."""
    def fn(c):
        import pdb
        from xylem import util
        depth = c.choose(n, 'depth') + 1
        e, heads, names = None, [], []
        for i in range(depth):
            kind = c.pick([ValueError, Custom], 'type %d' % i)
            msg = c.pick(messages, 'message %d' % i)
            if '%' in msg:
                msg = msg % i
            how = c.pick(['raise_from', 'native', 'chain'], 'how %d' % i)
            e = grow(how, kind, msg, e)
            heads.append(head(e))
            names.append(e.__traceback__ is not None)
        pdb_on = c.flag('pdb')
        tty = c.flag('terminal')
        interactive = c.flag('interactive')
        started = []
        saved = {k: getattr(pdb, k) for k in ('set_trace', 'post_mortem',
                                              'pm')}
        was = util.pdb_enabled()
        streams = sys.stdout, sys.stderr
        hook = sys.excepthook
        out, err = Out(tty), Out(tty)
        ps1 = getattr(sys, 'ps1', None)
        try:
            for k in saved:
                setattr(pdb, k, lambda *a, k=k, **kw: started.append(k))
            util.enable_pdb(pdb_on)
            if interactive:
                sys.ps1 = '>>> '
            sys.stdout, sys.stderr = out, err
            try:
                util.set_excepthook()
                sys.excepthook(type(e), e, e.__traceback__)
                failed = None
            except BaseException as x:
                failed = x
        finally:
            sys.stdout, sys.stderr = streams
            sys.excepthook = hook
            if interactive:
                del sys.ps1
            for k, v in saved.items():
                setattr(pdb, k, v)
            util.enable_pdb(was)
        what = 'uncaught %r' % (heads,)
        c.check(failed is None, '%s: the handler fails: %r', what, failed)
        c.eq(out.getvalue(), '', what + ': output')
        text = re.sub('\x1b\\[[0-9;]*m', '', err.getvalue())
        pos = 0
        for i, h in enumerate(heads):
            lines = [x.rstrip() for x in h.split('\n')]
            m = re.compile('^' + r'[ \t]*\n'.join(
                re.escape(x) for x in lines) + r'[ \t]*$', re.M).search(
                    text, pos)
            c.check(m, '%s: %r is missing in %r', what, h, text)
            part = text[pos:m.start()]
            if names[-1]:
                c.eq('Traceback (most recent call last)' in part, names[i],
                     '%s: traceback before %r in %r' % (what, h, part))
            pos = m.end()
        c.eq(text.count('direct cause of the following'), depth - 1, what)
        c.eq(bool(started), pdb_on and tty and not interactive,
             'debugger started (enabled %r, terminal %r, interactive %r)' % (
                 pdb_on, tty, interactive))
        c.observe('%d %r' % (depth, started))
    return Harness('uncaught', fn, split=2,
                   note='handler of uncaught errors, chains of up to %d '
                   'errors, with and without debugger, terminal and '
                   'interactive session' % n)


def harnesses(tier):
    quick = [h_chains(1, 11, MESSAGES, 7), h_chains(2, 4, MESSAGES[:3], 4),
             h_chains(3, 2, MESSAGES[:1], 3),
             h_deep(), h_limit(), h_contexts(3 if tier == 'quick' else 4), h_equal(3 if tier == 'quick' else 4),
             h_uncaught(2 if tier == 'quick' else 3,
                        ['m%d', 'two\nlines%d', 'é日%d'])]
    if tier == 'quick':
        return quick
    return quick + [h_chains(2, 11, MESSAGES, 7),
                    h_chains(3, 4, MESSAGES[:2], 3),
                    h_chains(5, 1, MESSAGES[:2], 2)]
