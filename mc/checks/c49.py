"""C49: options of plugins are what was set, converted and completed."""

import copy

from mc.engine import Harness
from mc import env, stubs

PROPERTY = 'C49'
ASSUMPTIONS = ['options are set to dictionaries; plugins describe their '
               'options before they are first used']


def describe():
    from xylem.config_utils import List, String, Boolean, Dict
    return {'features': dict(type=List(String), default=['df']),
            'txt': dict(type=String, default='d'),
            'flag': dict(type=Boolean, default=True),
            'table': dict(type=Dict(String), default={'k': 'v'}),
            'grp/x': dict(type=String, default='gx'),
            'grp/y': dict(type=List(String), default=[])}


DEFAULTS = {'features': ['df'], 'txt': 'd', 'flag': True,
            'table': {'k': 'v'}, 'grp': {'x': 'gx', 'y': []}}
SHIPPED = {'os': {'features': []}, 'installer': {'as_root': True}}

#  given options -> what it says about the described ones, unknown ones
GOOD = [
    ({}, {}, []),
    ({'txt': 't'}, {'txt': 't'}, []),
    ({'txt': None}, {}, []),
    ({'features': ['a', 'b']}, {'features': ['a', 'b']}, []),
    ({'features': []}, {'features': []}, []),
    ({'flag': False, 'txt': ''}, {'flag': False, 'txt': ''}, []),
    ({'table': {'k': 'w', 'l': 'm'}}, {'table': {'k': 'w', 'l': 'm'}}, []),
    ({'grp': {'x': 'q'}}, {'grp': {'x': 'q', 'y': []}}, []),
    ({'grp': None}, {}, []),
    ({'grp': {'y': ['1'], 'x': None}}, {'grp': {'x': 'gx', 'y': ['1']}}, []),
    ({'other': 1}, {}, ['other']),
    ({'other': None, 'txt': 't', 'Txt': 'u'}, {'txt': 't'},
     ['Txt', 'other']),
    ({1: 2, None: 3}, {}, ['1', 'None']),
    ({'table': {}, 'x': 'not in the group'}, {'table': {}}, ['x']),
]
BAD = [{'txt': ['t']}, {'features': 'a'}, {'features': ['a', ['b']]},
       {'flag': 'perhaps'}, {'table': ['k']}, {'grp': 'x'},
       {'grp': {'y': 'z'}}, {'txt': 't', 'flag': []},
       {'other': 1, 'table': {'k': []}}]


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return list(v) if isinstance(v, list) else v


class Plugins(object):
    """Plugin objects and what their options have to be."""

    def __init__(self, c, names):
        from xylem.os_support import OSSupport
        from xylem.os_support.plugins import Ubuntu
        from xylem.installers.plugins.pip import PipInstaller
        self.c = c
        base = stubs.make_os('osa', versions=['v1', 'v2'], detected='v1')

        class OsA(base):
            def __init__(self):
                super(OsA, self).__init__()
                #  the shipped description is extended, not replaced
                for n, kw in describe().items():
                    if n != 'features':
                        self.options_description.add(n, **kw)

        inst = stubs.make_installer('insta', options=describe())
        stubs.platform([OsA])
        support = OSSupport()

        def override():
            support.override_os(('osa', 'v2'))
            return support.current_os

        self.make = {'os': lambda: support.lookup_os('osa'), 'os again': OsA, 'installer': inst,
                     'installer again': inst, 'ubuntu': Ubuntu,
                     'pip': PipInstaller,
                     'override': override}
        self.objects, self.model = {}, {}
        for n in names:
            self.get(n)
        self.shown = {}

    def owner(self, n):
        return 'os' if n == 'override' else n

    def defaults(self, n):
        n = self.owner(n)
        if n == 'ubuntu':
            return copy.deepcopy(SHIPPED['os'])
        if n == 'pip':
            return copy.deepcopy(SHIPPED['installer'])
        out = copy.deepcopy(DEFAULTS)
        out.update(copy.deepcopy(
            SHIPPED['os'] if n.startswith('os') else SHIPPED['installer']))
        return out

    def get(self, n):
        if n not in self.objects:
            self.objects[n] = self.make[n]()
            self.model.setdefault(self.owner(n), self.defaults(n))
        return self.objects[n]

    def set(self, n, value, good):
        from xylem.config_utils import ConfigValueError
        o = self.get(n)
        given = copy.deepcopy(value)
        what = 'setting the options of %s (%s) to %r' % (n, o.name, given)
        known = self.defaults(n)
        with env.capture() as cap:
            kind, v = self.c.call(setattr, o, 'options', value)
        err = env.strip_ansi(cap.stderr)
        self.c.eq(value, given, what + ': the dictionary afterwards')
        self.c.eq(cap.stdout, '', what + ': output')
        told, unknown = good or ({}, [])
        #  shipped plugins do not know all of them
        unknown = sorted(set(unknown) | {str(k) for k in given
                                         if k not in known})
        if good is None and any(k in known and k != 'other' for k in given):
            self.c.check(kind == 'exc' and isinstance(v, ConfigValueError),
                         '%s: %r', what, v)
            self.c.check(o.name in str(v), '%s: %r does not name it', what, v)
            return
        self.c.check(kind == 'ok', '%s: %r', what, v)
        new = known
        new.update({k: copy.deepcopy(x) for k, x in told.items()
                    if k in new})
        self.model[self.owner(n)] = new
        self.c.eq(bool(err), bool(unknown), '%s: warning %r' % (what, err))
        if unknown:
            head = err.split('--')[0]
            self.c.check(o.name in head and all(k in head for k in unknown),
                         '%s: warning %r', what, err)

    def same(self, what):
        from xylem.config_utils import ConfigDict
        for n, o in sorted(self.objects.items()):
            with env.capture() as cap:
                kind, v = self.c.call(lambda: o.options)
            self.c.check(kind == 'ok', '%s: options of %s: %r', what, n, v)
            self.c.check(isinstance(v, ConfigDict), '%s: %r is no ConfigDict',
                         what, v)
            self.c.eq(plain(v), self.model[self.owner(n)],
                      '%s: options of %s' % (what, n))
            for k, x in self.model[self.owner(n)].items():
                self.c.eq(plain(getattr(v, k)), x,
                          '%s: option %s of %s' % (what, k, n))
            self.c.eq((cap.stdout, cap.stderr), ('', ''),
                      what + ': output when read')

    def change(self, n):
        """Change the options in place, as far as they can be."""
        m = self.model[self.owner(n)]
        o = self.get(n).options
        k = 'features' if 'features' in m else None
        if k:
            o[k].append('changed')
            m[k].append('changed')
        if 'grp' in m:
            o.grp.x = 'changed'
            m['grp']['x'] = 'changed'
            o['table']['new'] = 'changed'
            m['table']['new'] = 'changed'
        if 'as_root' in m:
            o.as_root = False
            m['as_root'] = False


NAMES = ['os', 'os again', 'override', 'installer', 'installer again',
         'ubuntu', 'pip']


def h_options(name, names, good, bad, depth, read):
    ops = [('set', n, v) for n in names for v in
           list(range(good)) + [-1 - i for i in range(bad)]] + \
        [('change', n, 0) for n in names] + [('new', 'os again', 0),
                                             ('new', 'installer', 0)]

    def fn(c):
        first = c.pick(read, 'read before')
        p = Plugins(c, names)
        if first:
            p.same('defaults')
        trace = []
        for i in range(depth):
            k = c.choose(len(ops) + 1, 'operation')
            if k == len(ops):
                break
            op, n, v = ops[k]
            if op == 'change':
                p.change(n)
            elif op == 'new':
                #  a new object of the same plugin starts with the defaults
                o = p.make[n]()
                c.eq(plain(o.options), p.defaults(n),
                     'options of a new %s after %r' % (n, trace))
            elif v >= 0:
                value, told, unknown = GOOD[v]
                p.set(n, copy.deepcopy(value), (told, unknown))
            else:
                p.set(n, copy.deepcopy(BAD[-1 - v]), None)
            trace.append((op, n, v))
            c.event(op)
            if first or i == depth - 1:
                p.same('after %r' % trace)
        p.same('after %r' % trace)
        c.state(sorted((k, str(m)) for k, m in p.model.items()))
        c.observe(str(sorted(p.model.items(), key=str)))
    return Harness(name, fn, split=2)


def harnesses(tier):
    g, b = len(GOOD), len(BAD)
    if tier == 'quick':
        return [h_options('all_values', NAMES, g, b, 1, [True, False]),
                h_options('pairs', NAMES, 6, 2, 2, [True, False]),
                h_options('sequences', ['os', 'override', 'installer',
                                        'installer again'], 4, 1, 3,
                          [False])]
    return [h_options('all_values', NAMES, g, b, 2, [True, False]),
            h_options('sequences', NAMES, 4, 2, 3, [True, False]),
            h_options('long', ['os', 'override', 'installer'], 4, 2, 4,
                      [True])]
