"""C33: dumped YAML loads back as the same data."""

from mc.engine import Harness

PROPERTY = 'C33'
ASSUMPTIONS = ['text consists of characters YAML can represent; documents '
               'other than a lone null']

SCALARS = [
    # text that looks like something else
    '', ' ', 'a', 'null', '~', 'Null', 'yes', 'no', 'on', 'off', 'true',
    'False', 'y', 'n', '1', '-1', '+1', '0', '007', '0x1f', '0b1', '0o7',
    '1_000', '1.5', '1e3', '1.0e+3', '.5', '.inf', '-.inf', '.nan', '12:30',
    '1:2:3', '2014-01-01', '2014-02-30', '2001-12-14t21:59:43.10-05:00', '=',
    '<<', '---', '...', '--- a', '- a', '-', '-a', '?', '? a', '?a', ':',
    ': a', ':a', 'a:', 'a: b', 'a:b', 'a :b', '#', '# a', 'a #b', 'a#b', '&a',
    '*a', '!a', '!!str a', '%a', '@a', '`a', '|', '|-', '>', '>+', '[', ']',
    '[a', 'a]', 'a[b]', '{', '}', '{a', 'a}', ',', 'a,', 'a, b', ',a', '"',
    "'", '"a"', "'a'", 'a"b', "a'b", "it's", '\\', 'a\\nb', 'a\\', '\n',
    'a\n', '\na', 'a\nb', 'a\n\nb', 'a\n\n', ' a', 'a ', '  a', ' \n ',
    'a \nb', 'a\n b', '\t', 'a\tb', '\ta', '\r', 'a\r\nb', '\x85', 'a\x85b',
    '\x85a\n', '\u2028', 'a\u2029b', '\xa0', '\ufeff', 'é', '日本',
    '\U0001f600', '\x00', '\x07', '\x1b[1m', '\x7f', 'a' * 200, 'a b ' * 60,
    # other scalars
    None, True, False, 0, 1, -1, 2 ** 70, 1.5, -0.0, 1e300, 1e-300,
    float('inf'), float('-inf'), 0.1,
]
KEYS = [s for s in SCALARS if isinstance(s, str)] + [None, True, 1, 1.5]


def same(a, b):
    """Equal with equal types (False is not 0, text is text)."""
    if isinstance(a, dict):
        # keys: 1 and True are the same key
        return isinstance(b, dict) and len(a) == len(b) and all(
            any(same(k, j) and same(v, b[j]) for j in b if j == k)
            for k, v in a.items())
    if isinstance(a, list):
        return type(b) is list and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def check(c, doc):
    from xylem.yaml_utils import load_yaml, dump_yaml
    st, text = c.call(dump_yaml, doc)
    c.check(st == 'ok', 'dump_yaml(%r): %r', doc, text)
    c.check(isinstance(text, str), 'dump_yaml(%r) is %r', doc, text)
    st, back = c.call(load_yaml, text)
    c.check(st == 'ok' and same(doc, back), '%r is dumped as %r and loads as '
            '%r', doc, text, back)
    # through a UTF-8 file
    st, back = c.call(load_yaml, text.encode('utf-8').decode('utf-8'))
    c.check(st == 'ok' and same(doc, back), '%r via file', doc)
    c.event(repr(doc))


SHAPES = {
    'scalar': lambda s: s,
    'list': lambda s: [s],
    'list first': lambda s: [s, 'x'],
    'list last': lambda s: ['x', s],
    'nested list': lambda s: [[s], s],
    'dict': lambda s: {'k': s},
    'nested dict': lambda s: {'k': {'j': s}, 'z': s},
    'dict of list': lambda s: {'k': [s, s]},
    'list of dict': lambda s: [{'k': s}, {'j': [s]}],
    'deep': lambda s: {'k': {'l': [{'m': {'n': [s, {'o': s}]}}]}},
}
KEY_SHAPES = {
    'key': lambda s: {s: 1},
    'key of null': lambda s: {s: None},
    'key of dict': lambda s: {s: {s: 'v'}},
    'key of list': lambda s: {s: ['v', s]},
    'key of empty': lambda s: {s: {}, 'z': []},
    'key in list': lambda s: [{s: 1}, {'j': {s: 2}}],
}


def h_scalars():
    def fn(c):
        name = c.pick(sorted(SHAPES) + sorted(KEY_SHAPES), 'shape')
        for s in SCALARS if name in SHAPES else KEYS:
            if name == 'scalar' and s is None:
                continue
            check(c, SHAPES.get(name, KEY_SHAPES.get(name))(s))
        c.observe(name)
    return Harness('scalars', fn, split=1,
                   note='%d scalars and %d keys in %d contexts' % (
                       len(SCALARS), len(KEYS),
                       len(SHAPES) + len(KEY_SHAPES)))


def h_pairs(full):
    some = SCALARS if full else [s for s in SCALARS if s in (
        '', ' ', 'a', 'null', 'a: b', '- a', '#', 'a #b', ':', '?', ',', '[',
        '}', '"', "'", 'a\nb', '\n', ' a', 'a ', '1', 'yes', '2014-01-01',
        '\x85', '---', '&a', '%a', '\t') or s is None or s is True or
        s == 1.5]

    def fn(c):
        a = some[c.choose(len(some), 'first')]
        for b in some:
            check(c, [a, b])
            check(c, [[a], [b]])
            check(c, {'k': a, 'j': b})
            check(c, {'k': [a, {'x': b}]})
            if isinstance(a, str):
                check(c, {a: b, 'x' * 130: a})
                check(c, [{a: b}, [a]])
                if isinstance(b, str) and a != b:
                    check(c, {a: {b: a}, b: [a, b]})
        c.observe(repr(a))
    return Harness('pairs', fn, split=1, note='all pairs of %d scalars' %
                   len(some))


def build(c, depth, width, where):
    kind = c.choose(3 if depth else 1, 'kind ' + where)
    if kind == 0:
        return c.pick(LEAVES, 'leaf ' + where)
    n = c.choose(width + 1, 'size ' + where)
    if kind == 1:
        return [build(c, depth - 1, width, where + str(i)) for i in range(n)]
    return {k: build(c, depth - 1, width, where + k)
            for k in ['a', '- b', 'yes'][:n]}


LEAVES = ['x', None, 'a: b', 1]


def h_structure(depth, width):
    def fn(c):
        doc = build(c, depth, width, '')
        if doc is None:
            c.prune()
        check(c, doc)
        c.observe(type(doc).__name__)
    return Harness('structure', fn, split=3,
                   note='all documents of depth %d and width %d over %d '
                   'scalars' % (depth, width, len(LEAVES)))


def h_large(sizes):
    """Nothing depends on the size of a document."""
    def fn(c):
        n = c.pick(sizes, 'size')
        kind = c.pick(['word', 'words', 'lines', 'colons', 'list', 'dict',
                       'deep list', 'deep dict', 'long key'], 'kind')
        few = min(n, 1500)
        deep = min(n, 60)
        if kind == 'deep list':
            doc = 'x'
            for i in range(deep):
                doc = [doc] if i % 2 else [doc, 'a: b']
        elif kind == 'deep dict':
            doc = 'x'
            for i in range(deep):
                doc = {'k': doc} if i % 2 else {'k': doc, '- b': 'yes'}
        else:
            doc = {'word': lambda: 'x' * n, 'words': lambda: 'x y ' * (n // 4),
                   'lines': lambda: 'x\n' * (n // 8), 'colons': lambda: 'x: ' * few,
                   'list': lambda: ['e%d' % i for i in range(few)],
                   'dict': lambda: {'k%d: ' % i: [i, str(i)]
                                    for i in range(few)},
                   'long key': lambda: {'x' * n: 1, 'x ' * few: 2}}[kind]()
        for d in (doc, [doc, 'end'], {'k': doc, 'z': 'end'}):
            if not (d is doc and kind == 'long key'):
                check(c, d)
        c.observe('%s %d' % (kind, n))
    return Harness('large', fn, note='documents of up to %d characters, 1500 '
                   'entries, depth 60' % sizes[-1])


def h_config():
    """Configurations are dumped like plain dicts."""
    def fn(c):
        from xylem.config_utils import ConfigDict
        from xylem.yaml_utils import load_yaml, dump_yaml
        s = SCALARS[c.choose(len(SCALARS), 'value')]
        d = ConfigDict()
        d['k'] = s
        d['g'] = ConfigDict()
        d['g']['l'] = [s, {'j': s}]
        d['e'] = ConfigDict()
        want = {'k': s, 'g': {'l': [s, {'j': s}]}, 'e': {}}
        text = dump_yaml(d)
        c.check(same(want, load_yaml(text)), 'config %r is dumped as %r',
                want, text)
        shared = [s]
        check(c, {'a': shared, 'b': shared, 'c': {'d': shared}})
        c.observe(repr(s))
    return Harness('config', fn, note='configurations and shared values')


TOKENS = ['a', ':', ' ', '-', '\n', '[', ']', '{', '}', ',', '"', "'", '&',
          '*', '!', '#', '|', '?', '%', '\t', '2014-02-30', '0x', '!!int ',
          '<<']


def h_malformed(n, tokens):
    from itertools import product
    m = len(tokens)

    def fn(c):
        import yaml
        from xylem.yaml_utils import load_yaml
        head = [tokens[c.choose(m, 'token %d' % i)] for i in range(n - 2)]
        good = 0
        for rest in product([''] + tokens, repeat=2):
            text = ''.join(head) + ''.join(rest)
            st, v = c.call(load_yaml, text)
            c.check(st == 'ok' or isinstance(v, yaml.YAMLError),
                    'load_yaml(%r): %r', text, v)
            good += st == 'ok'
            c.event(text)
        c.observe('%d' % good)
    return Harness('malformed', fn, split=2,
                   note='all texts of up to %d of %d tokens' % (n, m))


def harnesses(tier):
    if tier == 'quick':
        return [h_scalars(), h_pairs(False), h_structure(2, 2), h_config(), h_large([1, 1000, 110000]),
                h_malformed(4, TOKENS)]
    return [h_scalars(), h_pairs(True), h_structure(2, 3), h_config(), h_large([1, 1000, 65535, 65536, 100000, 300000]),
            h_malformed(5, TOKENS)]
