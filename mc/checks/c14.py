"""C14: configuration values are parsed faithfully or rejected cleanly."""

import datetime
import itertools
import os

import yaml

from mc.engine import Harness
from mc import cli, env
from mc.checks import c13
from mc.sizes import sizes, names

PROPERTY = 'C14'
ASSUMPTIONS = [
    'a null anywhere in a list or dictionary of typed elements stands for an '
    'unset element and stays null',
]


class Reject(Exception):
    pass


# type name -> constructor and reference conversion
def conv(t, v):
    if isinstance(t, tuple):
        head = t[0]
    else:
        head = t
    if v is None:
        return {} if head == 'MergingDict' else None
    if head == 'Any':
        return v
    if head == 'String':
        if not isinstance(v, str):
            raise Reject()
        return v
    if head == 'Path':
        if not isinstance(v, str):
            raise Reject()
        return os.path.abspath(os.path.expanduser(v))
    if head == 'Boolean':
        if not isinstance(v, bool):
            raise Reject()
        return v
    if head == 'List':
        if not isinstance(v, list):
            raise Reject()
        return [conv(t[1], x) for x in v]
    assert head in ('Dict', 'MergingDict')
    if not isinstance(v, dict):
        raise Reject()
    return {conv('String', k): conv(t[1], x) for k, x in v.items()}


TYPES = [
    'String', 'Boolean', 'Any', 'Path',
    ('List', 'Any'), ('List', 'String'), ('List', 'Boolean'),
    ('List', ('List', 'String')), ('List', 'Path'),
    ('Dict', 'Any'), ('Dict', 'String'), ('Dict', ('List', 'String')),
    ('Dict', 'Path'),
    ('MergingDict', ('List', 'String')), ('MergingDict', ('Dict', 'Any')),
    ('MergingDict', 'Boolean'),
]
CORE = ['String', 'Boolean', 'Any', 'Path', ('List', 'String'),
        ('Dict', 'String'), ('MergingDict', ('List', 'String')),
        ('MergingDict', ('Dict', 'Any'))]


def make(t):
    from xylem import config_utils
    if isinstance(t, tuple):
        return getattr(config_utils, t[0])(make(t[1]))
    return getattr(config_utils, t)


LEAVES = [None, True, False, 0, 1.5, '', 'a', 'yes', '1', '~/x', 'a b',
          '\xe4', 'a: b', '[a]', datetime.date(2014, 1, 2), b'\x00\xff']
SMALL = [None, False, 1, '', 'a', '~/y']


def values(depth, leaves=LEAVES, small=SMALL):
    out = list(leaves) + [{'x', 'y'}]
    out += [[]] + [[a] for a in leaves] + [[a, b] for a in small
                                           for b in small]
    out += [{}] + [{'a': v} for v in leaves] + \
        [{k: v} for k in (1, True, 'a b', '', datetime.date(2014, 1, 2))
         for v in ('x', None)] + \
        [{'a': v, 'b': w} for v in small for w in small] + \
        [{'a': 'x', 1: 'y'}]
    if depth > 1:
        inner = [[], ['a'], [1], [None], ['a', 'b'], {}, {'b': 'c'},
                 {'b': 1}, {1: 'b'}, {'b': None}, {'b': ['c']}, [['a']],
                 [[1]], [{}]]
        out += [[x] for x in inner] + [{'a': x} for x in inner] + \
            [['a', x] for x in inner] + [{'a': 'x', 'b': x} for x in inner] + \
            [{'a': x, 'b': y} for x in inner for y in inner]
    if depth > 2:
        out += [[x, y] for x in inner for y in inner] + \
            [{'a': {'b': x}} for x in inner] + [{'a': [x, y]} for x in inner
                                                for y in inner]
    return out


def same(a, b):
    """Equality that distinguishes types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            k in b and same(v, b[k]) for k, v in a.items()) and \
            sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b


def ask(c, what, fn, want, typ=None, setup=None):
    """Compare one conversion with the reference (value or Reject)."""
    from xylem.config_utils import ConfigValueError
    st, got = c.call(fn)
    if want is Reject:
        c.check(st == 'exc' and isinstance(got, ConfigValueError),
                '%s: expected a ConfigValueError, got %r', what,
                got)
        c.check(str(got).strip(), '%s: empty error message', what)
        return None
    c.check(st == 'ok', '%s: expected %r, got %r', what, want, got)
    c.check(same(got, want), '%s: got %r, expected %r', what, got, want)
    if typ is not None:
        for f in ('verify', 'from_yaml'):
            s2, again = c.call(getattr(typ, f), got)
            c.check(s2 == 'ok' and same(again, want),
                    '%s: accepted as %r, but %s of it gives %r', what, got, f,
                    again)
    return got


def ref(t, v):
    try:
        return conv(t, v)
    except Reject:
        return Reject


def instance(t):
    m = make(t)
    return m() if isinstance(m, type) else m


def describe(c, t, name):
    from xylem.config_utils import ConfigDescription
    d = ConfigDescription('config.yaml')
    d.add('first', type=make('String'), default='dflt')
    d.add(name, type=make(t), command_line=True)
    return d


def get(config, name):
    for p in name.split('/'):
        config = config[p]
    return config


def h_yaml(types, depth):
    """Parsed values: type API, config file and dict given through the API."""
    alphabet = values(depth)

    def fn(c):
        from xylem.config_utils import (config_from_parsed_yaml,
                                        config_from_file)
        t = c.pick(types, 'type')
        v = c.pick(alphabet, 'value')
        env.set_home('/home/me')
        want = ref(t, v)
        what = '%r from %r' % (t, v)
        typ = instance(t)
        ask(c, what, lambda: typ.from_yaml(v), want, typ)
        # verification accepts exactly the values of the type
        unset = typ.unset_value()
        if t != 'Path' and v is not None:
            exp = want
            st, got = c.call(typ.verify, v)
            if exp is Reject:
                from xylem.config_utils import ConfigValueError
                c.check(st == 'exc' and isinstance(got, ConfigValueError),
                        'verify as %s: %r', what, got)
            elif 'Path' not in repr(t) and same(exp, v):
                c.check(st == 'ok' and got is v, 'verify as %s: %r', what,
                        got)
        c.check(typ.verify(unset) == unset, 'unset value of %r', t)
        name = c.pick(['opt', 'grp/opt'], 'place')
        d = describe(c, t, name)
        doc = {}
        c13.put(doc, name, v)
        ask(c, 'dict with ' + what, lambda: get(config_from_parsed_yaml(
            doc, d), name), want)
        f = os.path.join(c.tmp(), 'config.yaml')
        with open(f, 'wb') as fh:
            fh.write(yaml.safe_dump(doc, allow_unicode=True,
                                    default_flow_style=c.flag('flow')
                                    ).encode('utf-8'))
        ask(c, 'file with ' + what, lambda: get(config_from_file(f, d),
                                                name), want)
        c.observe('%r %r' % (t, want if want is not Reject else 'Reject'))
    return fn


def flow(v):
    s = yaml.safe_dump(v, default_flow_style=True, allow_unicode=True,
                       width=10**6)
    if s.endswith('\n...\n'):
        s = s[:-5]
    return s.strip('\n')


def cmd_values(depth):
    return [v for v in values(depth) if '\n' not in flow(v)]


def h_args(types, depth):
    """Command line: every value in every notation."""
    alphabet = cmd_values(depth)

    def fn(c):
        t = c.pick(types, 'type')
        head = t[0] if isinstance(t, tuple) else t
        v = c.pick(alphabet, 'value')
        env.set_home('/home/me')
        if head in ('String', 'Path'):
            if not isinstance(v, str):
                c.prune()
            words, want = [v], ref(t, v)
        elif head in ('List', 'Dict', 'MergingDict'):
            kind = list if head == 'List' else dict
            if not isinstance(v, kind):
                c.prune()
            way = c.pick(['brackets', 'bare', 'split'], 'notation')
            text = flow(v)
            bare = text[1:-1]
            if way == 'brackets':
                words = [text]
            elif way == 'bare':
                try:
                    if isinstance(yaml.safe_load(bare), kind) and \
                            head == 'List':
                        c.prune()     # e.g. [[a]]: means the inner list
                except yaml.YAMLError:
                    pass
                words = [bare]
            else:
                if len(v) < 2:
                    c.prune()
                if kind is list:
                    parts = [[x] for x in v]
                else:
                    parts = [{k: x} for k, x in v.items()]
                words = [flow(p) for p in parts]
            want = ref(t, v)
        else:
            words, want = [flow(v)], ref(t, v)
        name = c.pick(['opt', 'grp/opt_x'], 'place')
        d = describe(c, t, name)
        argv = ['--prefix', '/nonexistent', '--no-user-config'] + \
            c13.cmdline(name, words)
        ask(c, '%r from arguments %r' % (t, argv[3:]),
            lambda: get(c13.load(d, argv), name), want)
        c.observe('%r %r' % (t, want if want is not Reject else 'Reject'))
    return fn


def h_args_dup():
    """Keys repeated in several occurrences of a dict argument."""
    def fn(c):
        t = c.pick([('Dict', 'String'), ('MergingDict', ('List', 'String')),
                    ('List', 'String')], 'type')
        item = {'Dict': 'a: x', 'MergingDict': 'a: [x]', 'List': 'a'}[t[0]]
        other = {'Dict': 'b: y', 'MergingDict': '{b: []}', 'List': '[b, c]'}[
            t[0]]
        words = [c.pick([item, other, ''], 'occurrence')
                 for _ in range(c.pick([1, 2, 3], 'number'))]
        vals = {'a: x': {'a': 'x'}, 'a: [x]': {'a': ['x']}, 'a': ['a'],
                'b: y': {'b': 'y'}, '{b: []}': {'b': []},
                '[b, c]': ['b', 'c'], '': [] if t[0] == 'List' else {}}
        want = [] if t[0] == 'List' else {}
        for w in words:
            v = vals[w]
            if t[0] == 'List':
                want = want + v
            elif want is Reject or set(want) & set(v):
                want = Reject
            else:
                want = dict(want, **v)
        d = describe(c, t, 'opt')
        ask(c, '%r from %r' % (t, words), lambda: get(c13.load(
            d, ['--prefix', '/nonexistent', '--no-user-config'] +
            c13.cmdline('opt', words)), 'opt'), want)
        c.observe(repr(want))
    return fn


def safe(text):
    """Reference YAML reading -> ('ok', value) | ('bad', None)"""
    try:
        return 'ok', yaml.safe_load(text)
    except (yaml.YAMLError, ValueError, TypeError, AttributeError,
            LookupError, OverflowError, RecursionError):
        return 'bad', None


def ref_text(t, text):
    head = t[0] if isinstance(t, tuple) else t
    if head in ('String', 'Path'):
        return ref(t, text)
    st, v = safe(text)
    if head in ('List', 'Dict', 'MergingDict'):
        kind = list if head == 'List' else dict
        if st != 'ok' or not isinstance(v, kind):
            st, v = safe(('[%s]' if kind is list else '{%s}') % text)
            if st == 'ok' and not isinstance(v, kind):
                return Reject
    if st != 'ok':
        return Reject
    return ref(t, v)


ALPHA = 'a:,[]{} "#&1'
TRICKY = [
    '/a/$HOME', '${HOME}', 'x/~', '/a/~root', '$$', '%HOME%', '/a//b', '//a',
    '2014-02-30', '[2014-02-30]', 'a: 2014-13-01', '!!binary a', '!!set {a}',
    '!!python/object:os.system x', '!x y', '*a', '&a [*a]', '&a {b: *a}',
    '<<: a', '<<: {a: b}', '{<<: [a]}', '!!int x', '!!float .', '0x', '0o9',
    '1e999', '.nan', '.inf', '1:99', '!!timestamp x', '!!bool maybe',
    '!!int ""', '? a', '? [a]', '{[a]: b}', '{{}: b}', '? {a: b}\n: c',
    '---', '--- a\n--- b', '%YAML 9.9\n--- a', '\x00', '\x07', '\ud800',
    '\ufeffa', '\t', 'a:\tb', '- a\n b', 'a:\n- b', '"\\x"', '"\\U00110000"',
    '"\\uD800"', "'", '|', '>\n a', '[' * 30, '{a: ' * 30, '[' * 3000,
    '{a: ' * 3000, '1' * 5000, '!!omap [a]', '!!pairs [a]', '!!null x',
    '!!str [a]', '!!map [a]', '!!seq {a: b}', '=', '<<', '0b', '0b2', '1_',
    '_1', '+', '-', '.', '!!merge a', '2001-01-01T99:00:00', '\u2028',
    '\x85', '\u00a0', 'a\nb', '- ', 'null', '~', 'Null', 'y', 'On',
]


def texts(n):
    for k in range(n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            yield ''.join(t)


def argument(c, t, text):
    want = ref_text(t, text)
    what = '%r from argument %r' % (t, text[:60])
    d = describe(c, t, 'opt')
    st, got = c.call(lambda: get(c13.load(
        d, ['--prefix', '/nonexistent', '--no-user-config', '--opt=' + text]),
        'opt'))
    compare(c, what, st, got, want)
    return want


def compare(c, what, st, got, want):
    from xylem.config_utils import ConfigValueError
    if want is Reject:
        c.check(st == 'exc' and isinstance(got, ConfigValueError),
                '%s: expected a ConfigValueError, got %s', what,
                type(got).__name__ + ' ' + str(got)[:200])
        return
    c.check(st == 'ok', '%s: not accepted: %s', what,
            type(got).__name__ + ' ' + str(got)[:300])
    if got != got or 'nan' in repr(want)[:300]:
        return
    try:
        eq = same(got, want)
    except RecursionError:
        return            # a document that refers to itself
    c.check(eq, '%s: wrong value %s', what, repr(got)[:300])


def document(c, t, text, wrap):
    """A whole config file."""
    from xylem.config_utils import config_from_file
    data = text.encode('utf-8', 'surrogatepass')
    if wrap:
        data = b'opt: ' + data
        text = 'opt: ' + text
    try:
        dec = data.decode('utf-8')
        st, v = safe(dec)
    except UnicodeError:
        st, v = 'bad', None
    if st == 'ok' and v is None:
        v = {}
    if st != 'ok' or not isinstance(v, dict) or \
            any(not isinstance(k, str) for k in v):
        want = Reject
    else:
        want = ref(t, v.get('opt'))
    d = describe(c, t, 'opt')
    f = os.path.join(c.tmp(), 'config.yaml')
    with open(f, 'wb') as fh:
        fh.write(data)
    st, got = c.call(lambda: get(config_from_file(f, d), 'opt'))
    compare(c, '%r in a config file with %r' % (t, text[:60]), st, got, want)
    return want


def h_text(types, n, tricky=False):
    """All texts up to a length as argument and as (part of) a file."""
    pool = TRICKY if tricky else list(texts(n))

    def fn(c):
        t = c.pick(types, 'type')
        text = c.pick(pool, 'text')
        route = c.pick(['argument', 'value in file', 'file'], 'route')
        env.set_home('/home/me')
        if route == 'argument':
            want = argument(c, t, text)
        else:
            if t not in ('Any', 'Boolean') and route == 'file':
                c.prune()
            want = document(c, t, text, route == 'value in file')
        c.observe('%s %s %s' % (t, route, repr(want if want is not Reject
                                               else 'Reject')[:60]))
    return fn


def h_group():
    """Groups and top level of the file have to be dictionaries."""
    def fn(c):
        from xylem.config_utils import (config_from_file,
                                        config_from_parsed_yaml,
                                        ConfigDescription, String, List)
        d = ConfigDescription('config.yaml')
        d.add('g/a', type=String, default='x')
        d.add('g/b', type=List(String), default=['y'])
        d.add('h/a', type=String)
        doc = {}
        group = c.pick(values(2) + ['absent'], 'group')
        if group != 'absent':
            doc['g'] = group
        if c.flag('other group'):
            doc['h'] = {'a': 'z'}
        g = {} if group in ('absent', None) else group
        if not isinstance(g, dict):
            want = Reject
        else:
            try:
                want = {'g': {'a': conv('String', g.get('a')),
                              'b': conv(('List', 'String'), g.get('b'))},
                        'h': {'a': doc.get('h', {}).get('a')}}
            except Reject:
                want = Reject
        if c.flag('use file'):
            f = os.path.join(c.tmp(), 'c.yaml')
            with open(f, 'w', encoding='utf-8') as fh:
                fh.write(yaml.safe_dump(doc, allow_unicode=True))
            st, got = c.call(config_from_file, f, d)
        else:
            defaults = c.flag('defaults')
            st, got = c.call(config_from_parsed_yaml, doc, d, defaults)
            if defaults and want is not Reject:
                if want['g']['a'] is None:
                    want['g']['a'] = 'x'
                if want['g']['b'] is None:
                    want['g']['b'] = ['y']
        if st == 'ok':
            got = {k: dict(v) for k, v in got.items()}
        compare(c, 'config %r' % (doc,), st, got, want)
        c.observe(repr(want) if want is not Reject else 'Reject')
    return fn


def h_tool():
    """The same through the command line tool and the public API."""
    opts = {'use_additional_installers': 'Boolean',
            'core_installers': ('List', 'String'),
            'install_from': ('MergingDict', ('List', 'String')),
            'installer_options': ('MergingDict', ('Dict', 'Any')),
            'cache_dir': 'Path'}
    alphabet = [v for v in values(2) if not isinstance(v, set)]

    def fn(c):
        from xylem.config import ensure_config
        o = c.pick(sorted(opts), 'option')
        v = c.pick(alphabet, 'value')
        dirs = c13.Dirs(c)
        want = ref(opts[o], v)
        route = c.pick(['file', 'api'], 'route')
        what = '%s: %r via %s' % (o, v, route)
        if route == 'api':
            st, got = c.call(lambda: ensure_config(
                {o: v, 'os_override': 'ubuntu:trusty'})[o])
            if want is None or v is None:
                want = {'use_additional_installers': True}.get(o, want)
            compare(c, what, st, got, want)
        else:
            os.makedirs(os.path.dirname(dirs.specified()))
            with open(dirs.specified(), 'w', encoding='utf-8') as f:
                f.write(yaml.safe_dump({o: v}, allow_unicode=True))
            r = cli.run(['--xylem-dir', dirs.xdir, '--print-config',
                         '--no-color', 'update'])
            c.check(not r.exc, '%s: %r', what, r)
            c.check((r.code == 0) == (want is not Reject), '%s: %r', what, r)
            if want is Reject:
                c.check(not r.out and r.err.strip(), '%s: no error message: '
                        '%r', what, r)
        c.observe('%s %r' % (o, want if want is not Reject else 'Reject'))
    return fn


def h_sizes(tier):
    """Long lists, dictionaries and texts, one element of which is wrong."""
    from xylem.config_utils import config_from_parsed_yaml, config_from_file

    def fn(c):
        t = c.pick(['String', ('List', 'String'), ('List', 'Boolean'),
                    ('Dict', 'String'), ('List', ('List', 'String')),
                    ('Dict', ('List', 'String')),
                    ('MergingDict', ('List', 'String'))], 'type')
        n = c.pick(sizes(tier), 'number')
        xs = names(n)
        elem = {'String': str, 'Boolean': lambda x: x.endswith('1'),
                ('List', 'String'): lambda x: [x, 'y']}
        if t == 'String':
            v = 'x' * n
        elif t[0] == 'List':
            v = [elem[t[1]](x) for x in xs]
        else:
            v = {x: elem[t[1]](x) for x in xs}
        if n and t != 'String':
            at = {'none': None, 'first': 0, 'last': n - 1, 'middle': n // 2}[
                c.pick(['none', 'first', 'last', 'middle'], 'wrong')]
            if at is not None:
                v[at if t[0] == 'List' else xs[at]] = 5
        want = ref(t, v)
        typ = instance(t)
        what = '%r of %d' % (t, n)
        ask(c, what, lambda: typ.from_yaml(v), want, typ)
        d = describe(c, t, 'opt')
        ask(c, 'dict with ' + what,
            lambda: config_from_parsed_yaml({'opt': v}, d)['opt'], want)
        f = os.path.join(c.tmp(), 'config.yaml')
        with open(f, 'w') as fh:
            fh.write(yaml.safe_dump({'opt': v}))
        ask(c, 'file with ' + what,
            lambda: config_from_file(f, d)['opt'], want)
        if t == 'String' or t[0] == 'List' and t[1] != ('List', 'String'):
            argument(c, t, v if t == 'String' else '[%s]' % ', '.join(
                str(x).lower() for x in v))
        c.observe((t, n, want is Reject))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    t = tier == 'thorough'
    text_types = ['Any', 'Boolean', ('List', 'String'), ('Dict', 'Any')]
    hs = [
        Harness('values', h_yaml(TYPES, 3 if t else 2), split=2,
                note='all values of the grammar for every type'),
        Harness('arguments', h_args(TYPES if t else CORE, 3 if t else 2),
                split=2),
        Harness('repeated-arguments', h_args_dup()),
        Harness('groups', h_group(), split=2),
        Harness('tricky-text', h_text(TYPES if t else text_types + [
            'String', 'Path', ('List', 'Any'),
            ('MergingDict', ('List', 'String'))], 0, True), split=2),
        Harness('all-texts', h_text(text_types, 4 if t else 2), split=2,
                note='all texts over the YAML punctuation up to the length '
                'bound'),
        Harness('tool', h_tool(), split=2),
        h_sizes(tier),
    ]
    return hs
