"""C18: OS detection picks the most specific matching plugin."""

import itertools
import os

from mc.engine import Harness
from mc import env, stubs
from mc.sizes import sizes

PROPERTY = 'C18'
LOUD = True
SILENT = ('plugins-3', 'plugins-4')
ASSUMPTIONS = [
    'all_names of a plugin lists all OSs it is derived from (transitively)',
    'the table of distributions of the Python library is not available in '
    'this Python version; detectors for such OSs are scripted',
]


def ancestors(parents, i):
    out = []
    todo = list(parents[i])
    while todo:
        p = todo.pop(0)
        if p not in out:
            out.append(p)
            todo += parents[p]
    return sorted(out, reverse=True)


def h_detect(n, orders, disabled=False):
    names = 'abcd'[:n]

    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSError
        parents = {i: [j for j in range(i) if c.flag('%s derived from %s' % (
            names[i], names[j]))] for i in range(n)}
        anc = {i: ancestors(parents, i) for i in range(n)}
        match = [c.flag('matches ' + x) for x in names]
        order = c.perm(range(n), 'order') if orders else list(range(n))
        stubs.platform([stubs.make_os(
            names[i], detected='v1' if match[i] else None,
            parents=[names[j] for j in anc[i]], plugin='plugin-' + names[i])
            for i in order])
        off = c.subset(range(n), 'disabled') if disabled else []
        what = 'plugins %s, matching %s, disabled %s' % (
            [[names[i]] + [names[j] for j in anc[i]] for i in order],
            [names[i] for i in range(n) if match[i]],
            [names[i] for i in off])
        alive = [i for i in range(n) if match[i] and i not in off]
        best = [i for i in alive if not any(i in anc[j] for j in alive)]
        with env.capture() as cap:
            s = OSSupport(['plugin-' + names[i] for i in off])
            if c.flag('lazily'):
                st, v = c.call(lambda: s.current_os)
            else:
                st, v = c.call(s.detect_os)
        c.eq(s.os_plugin_names, [names[i] for i in order if i not in off],
             what + ': loaded plugins')
        if not best:
            c.check(st == 'exc' and isinstance(v, UnsupportedOSError),
                    '%s: got %r', what, v)
            c.observe('unsupported')
            return
        c.check(st == 'ok', '%s: raised %r', what, v)
        got = s.current_os.name
        c.check(got in [names[i] for i in best], '%s: detected %s, most '
                'specific are %r', what, got, [names[i] for i in best])
        c.check(s.current_os is s.current_os and
                s.current_os is s.lookup_os(got), '%s: plugin object', what)
        text = cap.stdout + cap.stderr
        if len(best) > 1:
            c.check(text.strip(), '%s: ambiguity was not reported', what)
        elif len(anc[best[0]]) >= len(alive) - 1 and all(
                i in anc[j] or j in anc[i] for i in alive for j in alive
                if i != j):
            c.eq(text, '', what + ': messages')
        c.eq(s.current_os.get_tuple(), (got, 'v1'), what + ': tuple')
        c.observe('%s of %s' % (got, [names[i] for i in best]))
    return fn


def h_kept(depth):
    """The answers of plugins change while xylem runs."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSError
        match = {'a': c.flag('matches a'), 'b': c.flag('matches b')}

        def plugin(name, parents):
            cls = stubs.make_os(name, detected='v1', parents=parents)
            cls.is_os = lambda self: match[name]
            return cls
        order = c.perm(['a', 'b'], 'order')
        stubs.platform([plugin(n, ['a'] if n == 'b' else [])
                        for n in order])
        s = OSSupport()
        current, trace = None, []
        for step in range(depth):
            op = c.pick(['query', 'detect', 'flip a', 'flip b', 'override a',
                         'override b'], 'step %d' % step)
            trace.append(op)
            what = 'plugins %r, first %r, after %r' % (order, match, trace)
            if op.startswith('flip'):
                match[op[-1]] = not match[op[-1]]
                continue
            want = 'b' if match['b'] else 'a' if match['a'] else None
            with env.capture():
                if op == 'query':
                    if current is not None:
                        want = current
                    st, v = c.call(lambda: s.current_os)
                elif op == 'detect':
                    st, v = c.call(s.detect_os)
                else:
                    want = op[-1]
                    st, v = c.call(s.override_os, (want, 'v2'))
            if want is None:
                c.check(st == 'exc' and isinstance(v, UnsupportedOSError),
                        '%s: %r', what, v)
                break
            c.check(st == 'ok', '%s: raised %r', what, v)
            current = want
            c.eq(s.current_os.name, current, what + ': current OS')
        c.observe(current)
    return fn


def h_sizes(tier):
    """Many plugins, one line of descent and others that do not match."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSError
        n = c.pick(sizes(tier)[1:], 'number of plugins')
        names = ['os%04d' % i for i in range(n)]
        shape = c.pick(['chain', 'tree', 'unrelated'], 'shape')
        match = {'all': names, 'first': names[:1], 'last': names[-1:],
                 'middle': names[n // 2:][:1], 'every second': names[::2],
                 'none': []}[c.pick(['all', 'first', 'last', 'middle',
                                     'every second', 'none'], 'matching')]
        if shape == 'unrelated':
            match = match[-1:]
        elif shape == 'tree' and len(match) > 1:
            # one leaf, and the root all others are derived from
            match = [names[0], match[-1]]
        parents = {i: list(reversed(names[:i])) if shape == 'chain' else
                   names[:1] if shape == 'tree' and i else []
                   for i in range(n)}
        order = c.pick(['forward', 'backward', 'rotated'], 'order')
        ix = list(range(n))
        ix = {'forward': ix, 'backward': ix[::-1],
              'rotated': ix[n // 3:] + ix[:n // 3]}[order]
        stubs.platform([stubs.make_os(
            names[i], parents=parents[i],
            detected='v%d' % i if names[i] in match else None) for i in ix])
        what = '%d plugins (%s, %s), matching %r' % (n, shape, order,
                                                    match[:3])
        with env.capture() as cap:
            s = OSSupport()
            st, v = c.call(s.detect_os)
        c.eq(s.os_plugin_names, [names[i] for i in ix],
             what + ': loaded plugins')
        if not match:
            c.check(st == 'exc' and isinstance(v, UnsupportedOSError),
                    '%s: got %r', what, v)
            c.observe('unsupported')
            return
        c.check(st == 'ok', '%s: raised %r', what, v)
        best = max(match)
        c.eq(s.current_os.get_tuple(), (best, 'v%d' % names.index(best)),
             what + ': detected')
        c.eq(s.current_os.all_names,
             [best] + parents[names.index(best)], what + ': names')
        if not c.loud():
            c.eq(cap.stdout + cap.stderr, '', what + ': messages')
        c.observe(best)
    return fn


# --------------------------------------------------------------------------

class Detector(object):
    def __init__(self, match, version, codename):
        self.match, self.version, self.codename = match, version, codename

    def is_os(self):
        return self.match

    def get_version(self):
        from xylem.os_support.os_detect import OsNotDetected
        if not self.match:
            raise OsNotDetected('wrong OS')
        return self.version

    def get_codename(self):
        from xylem.os_support.os_detect import OsNotDetected
        if not self.match:
            raise OsNotDetected('wrong OS')
        return self.codename


class Defaults(object):
    """Keep the process-wide default detectors as they were."""

    def __enter__(self):
        from xylem.os_support.os_detect import OsDetect
        self.saved = OsDetect.default_os_list[:]
        self.list = OsDetect.default_os_list
        return self

    def __exit__(self, *a):
        from xylem.os_support.os_detect import OsDetect
        self.list[:] = self.saved
        OsDetect.default_os_list = self.list
        return False


def h_detector_list(n):
    """The first matching detector of the list is used."""
    def fn(c):
        from xylem.os_support.os_detect import OsDetect, OsNotDetected
        k = c.choose(n + 1, 'number')
        dets = []
        for i in range(k):
            name = c.pick(['x', 'y'], 'name')
            dets.append((name, Detector(c.flag('matches'), 'v%d' % i,
                                        'c%d' % i)))
        o = OsDetect(list(dets))
        ask = c.pick(['detect', 'name', 'version', 'codename', 'detector'],
                     'query')
        first = [(nm, d) for nm, d in dets if d.match][:1]
        fn_ = {'detect': o.detect_os, 'name': o.get_name,
               'version': o.get_version, 'codename': o.get_codename,
               'detector': o.get_detector}[ask]
        for again in range(2):
            st, v = c.call(fn_)
            what = '%s of %r (call %d)' % (
                ask, [(nm, d.match, d.version) for nm, d in dets], again)
            if not first:
                c.check(st == 'exc' and isinstance(v, OsNotDetected),
                        '%s: %r', what, v)
            else:
                nm, d = first[0]
                c.check(st == 'ok', '%s raised %r', what, v)
                c.eq(v, {'detect': (nm, d.version, d.codename), 'name': nm,
                         'version': d.version, 'codename': d.codename,
                         'detector': d}[ask], what)
        for nm in ('x', 'y'):
            st, v = c.call(o.get_detector, nm)
            mine = [d for m, d in dets if m == nm]
            c.check((st == 'ok' and v is mine[0]) if mine else
                    isinstance(v, KeyError), 'get_detector(%r) of %s', nm,
                    what)
        c.observe('%s %r' % (ask, first and first[0][0]))
    return fn


def h_detector_history(depth):
    """Detectors added to one object or registered as default."""
    def fn(c):
        from xylem.os_support.os_detect import OsDetect
        with Defaults() as dflt:
            base = [('base', Detector(True, 'v', 'c'))]
            dflt.list[:] = base
            model_default = list(base)
            live = []
            mine = [('own', Detector(True, '1', '2'))]
            trace = []
            count = 0
            for step in range(depth):
                ops = [('register', 'x'), ('register', 'base')]
                if len(live) < 3:
                    ops += [('new',), ('new list',)]
                ops += [('add', i, nm) for i in range(len(live))
                        for nm in ('x', 'base')]
                op = c.pick(ops, 'step %d' % step)
                trace.append(op)
                c.event(repr(op))
                count += 1
                d = Detector(True, 'v%d' % count, 'c%d' % count)
                if op[0] == 'register':
                    OsDetect.register_default(op[1], d)
                    model_default.insert(0, (op[1], d))
                elif op[0] == 'new':
                    live.append([OsDetect(), list(model_default)])
                elif op[0] == 'new list':
                    live.append([OsDetect(list(mine)), list(mine)])
                else:
                    live[op[1]][0].add_detector(op[2], d)
                    live[op[1]][1].insert(0, (op[2], d))
                if not c.fresh():
                    continue
                probe = OsDetect()
                for i, (o, m) in enumerate(live + [[probe, model_default]]):
                    for nm in ('x', 'base', 'own'):
                        st, v = c.call(o.get_detector, nm)
                        want = [x for k, x in m if k == nm]
                        c.check((st == 'ok' and v is want[0]) if want
                                else isinstance(v, KeyError),
                                'detector %r of object %d after %r', nm, i,
                                trace)
                c.eq(probe.detect_os(), (model_default[0][0],
                                         model_default[0][1].version,
                                         model_default[0][1].codename),
                     'default detection after %r' % (trace,))
                c.state(repr([[k for k, _ in m] for _, m in live]))
    return fn


REAL = {'debian': ['debian'], 'ubuntu': ['ubuntu', 'debian'],
        'xubuntu': ['xubuntu', 'ubuntu', 'debian'], 'osx': ['osx']}
CODE = {'debian': 'wheezy', 'ubuntu': 'trusty', 'xubuntu': 'precise',
        'osx': 'lion'}


def h_real():
    """The OS plugins of xylem with scripted answers of the detectors."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSError
        from xylem.os_support import plugins as p
        from xylem.os_support.os_detect import OsDetect
        defi = {'debian': p.debian_definition, 'ubuntu': p.ubuntu_definition,
                'xubuntu': p.xubuntu_definition, 'osx': p.osx_definition}
        order = c.perm(sorted(REAL), 'order')
        match = c.subset(sorted(REAL), 'matching')
        env.plugins.script('xylem.os', [(n, defi[n]) for n in order])
        with Defaults():
            for n in REAL:
                OsDetect.register_default(n, Detector(
                    n in match, 'number', CODE[n]))
            with env.capture():
                s = OSSupport()
                st, v = c.call(lambda: s.current_os)
            best = [n for n in match
                    if not any(n in REAL[m][1:] for m in match)]
            what = 'order %r, matching %r' % (order, match)
            if not best:
                c.check(st == 'exc' and isinstance(v, UnsupportedOSError),
                        '%s: %r', what, v)
                c.observe('unsupported')
                return
            c.check(st == 'ok' and v.name in best, '%s: got %r', what, v)
            c.eq(v.get_tuple(), (v.name, CODE[v.name]), what)
            c.eq(list(v.all_names), REAL[v.name], what + ': names')
            tuples = [(v.name, CODE[v.name])]
            for base in REAL[v.name][1:]:
                tuples.append((base, CODE[v.name] if base == 'ubuntu'
                               else None))
            c.eq(v.get_all_tuples(CODE[v.name]), tuples, what + ': tuples')
            c.eq(v.get_all_tuples(CODE[v.name])[0], v.get_tuple(), what)
            c.observe(repr(tuples))
    return fn


OSX_NAMES = ['tiger', 'leopard', 'snow', 'lion', 'mountain lion', 'mavericks',
             'yosemite']


def h_osx():
    """Version detection on OS X from the output of sw_vers."""
    def fn(c):
        from xylem.os_support import OSSupport, UnsupportedOSVersionError
        from xylem.os_support import plugins as p
        from xylem.os_support.os_detect import OsDetect, OSX
        f = os.path.join(c.tmp(), 'sw_vers')
        exists = c.flag('tool exists')
        if exists:
            open(f, 'w').close()
        major = c.pick([9, 10, 11], 'major')
        minor = c.pick(list(range(0, 13)), 'minor')
        out = c.pick(['%d.%d', '%d.%d.5', '%d.%d\n', '%d.%d.x', '%d-%d',
                      None], 'output')
        if out is not None:
            out = out % (major, minor)

        def handler(argv):
            c.eq(list(argv), [f, '-productVersion'], 'command')
            if out is None:
                raise OSError(13, 'denied')
            return 0, out.encode(), b''
        env.procs.reset(handler)
        env.plugins.script('xylem.os', [('osx', p.osx_definition)])
        try:
            with Defaults():
                OsDetect.register_default('osx', OSX(f))
                with env.capture():
                    s = OSSupport()
                    st, v = c.call(lambda: s.current_os.get_tuple())
        finally:
            env.procs.reset()
        valid = exists and out is not None and '-' not in out and \
            'x' not in out and major == 10 and 4 <= minor <= 10
        if valid:
            c.eq((st, v), ('ok', ('osx', OSX_NAMES[minor - 4])),
                 'sw_vers says %r' % out)
        elif not exists:
            from xylem.os_support import UnsupportedOSError
            c.check(isinstance(v, UnsupportedOSError), 'no sw_vers: %r', v)
        else:
            c.check(isinstance(v, UnsupportedOSVersionError),
                    'sw_vers says %r: %s %r', out, type(v).__name__, v)
        c.observe(repr(v if st == 'ok' else type(v).__name__))
    return fn


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('plugins-3', h_detect(3, True, True), split=3),
        Harness('plugins-4', h_detect(4, True, t), split=4,
                note='all derivation relations, matches and orders'),
        Harness('detector-list', h_detector_list(4 if t else 3), split=2),
        Harness('detector-history', h_detector_history(5 if t else 4),
                split=2),
        Harness('kept', h_kept(5 if t else 4), split=2,
                note='the answers of plugins change between queries'),
        Harness('real-plugins', h_real(), split=2),
        Harness('osx-version', h_osx(), split=2),
        Harness('sizes', h_sizes(tier), split=1,
                note='every number of plugins up to %d, and around round '
                'numbers' % (130 if t else 24)),
    ]
