"""C25: Resolutions behave as values."""

import copy
import itertools
import pickle

from mc.engine import Harness
from mc import env, stubs
from mc.sizes import sizes, names

PROPERTY = 'C25'
ASSUMPTIONS = [
    'entry names are identifiers that are no dict methods and do not start '
    'with an underscore',
]

VALUES = ['p', 'q', '', 1, True, None, [], ['p'], ['p', 'q'], ['q', 'p'],
          [['p']], {'a': 1}, {'a': [1]}, {'a': 1, 'b': 2}, ('p',), {}]


def contents(full):
    out = [{}]
    out += [{'package': v} for v in VALUES]
    out += [{'ref': v} for v in VALUES[:6]]
    small = ['p', 1, ['p'], {'a': 1}, []] if not full else VALUES
    out += [{'package': 'p', 'ref': v} for v in VALUES]
    out += [{'package': v, 'opts': w} for v in small for w in small]
    return out


def build(content, order):
    from xylem.installers.installer_base import Resolution
    items = list(content.items())
    if order == 'reversed':
        items.reverse()
    if order == 'items':
        r = Resolution()
        for k, v in items:
            r[k] = copy.deepcopy(v)
        return r
    if order == 'attributes':
        r = Resolution()
        for k, v in items:
            setattr(r, k, copy.deepcopy(v))
        return r
    if order == 'keywords':
        return Resolution(**copy.deepcopy(content))
    return Resolution(dict(copy.deepcopy(items)))


WAYS = ['dict', 'reversed', 'items', 'attributes', 'keywords']


def h_pairs(full):
    cs = contents(full)

    def fn(c):
        a = cs[c.choose(len(cs), 'first')]
        b = cs[c.choose(len(cs), 'second')]
        if a == b:
            ways = [(x, y) for x in WAYS for y in WAYS]
            w = ways[c.choose(len(ways), 'built')]
        else:
            w = ('dict', 'items')
        x, y = build(a, w[0]), build(b, w[1])
        what = 'resolutions %r and %r (%s/%s)' % (a, b, w[0], w[1])
        same = a == b
        c.check((x == y) is same, '%s: == is %r', what, x == y)
        c.check((y == x) is same, '%s: == is not symmetric', what)
        c.check((x != y) is (not same), '%s: != is %r', what, x != y)
        hx, hy = c.call(hash, x), c.call(hash, y)
        c.check(hx[0] == hy[0] == 'ok', '%s: hash %r %r', what, hx, hy)
        if same:
            c.eq(hx[1], hy[1], what + ': hashes')
        c.eq(len({x, y}), 1 if same else 2, what + ': set of both')
        c.eq(y in {x}, same, what + ': found in set')
        c.eq({x: 1}.get(y), 1 if same else None, what + ': found in dict')
        from xylem.util import remove_duplicates
        c.eq([dict(r) for r in remove_duplicates([x, y, x])],
             [a] if same else [a, b], what + ': without duplicates')
        c.eq(dict(x), a, what + ': changed')
        c.observe('%s %d %d' % (same, len(a), len(b)))
    return Harness('pairs', fn, split=1,
                   note='all pairs of %d contents, equal ones built in every '
                   'pair of ways' % len(cs))


def h_single(full):
    cs = contents(full)

    def fn(c):
        from xylem.installers.installer_base import Resolution
        a = cs[c.choose(len(cs), 'content')]
        w = c.pick(WAYS, 'built')
        x = build(a, w)
        what = 'resolution %r (%s)' % (a, w)
        for how in ('copy', 'deepcopy', 'dict'):
            st, y = c.call({'copy': copy.copy, 'deepcopy': copy.deepcopy,
                            'dict': lambda r: Resolution(dict(r))}[how], x)
            c.check(st == 'ok' and y == x and hash(y) == hash(x) and
                    isinstance(y, Resolution), '%s: %s is %r', what, how, y)
        h = hash(x)
        c.eq(hash(x), h, what + ': hash')
        c.check(x == a, '%s: is not equal to the dict', what)
        for k in a:
            c.check(x[k] is getattr(x, k), '%s: attribute %s', what, k)
        for k in ('nope', 'packages'):
            c.check(not hasattr(x, k), '%s: has attribute %s', what, k)
            st, e = c.call(lambda: x[k])
            c.check(st == 'exc' and isinstance(e, KeyError), '%s: item %s',
                    what, k)
        if 'package' in a:
            p = a['package']
            st, l = c.call(x.to_list)
            c.eq((st, l), ('ok', p if isinstance(p, list) else [p]),
                 what + ': to_list')
            if isinstance(p, str):
                c.eq(str(x), p, what + ': text')
            elif isinstance(p, list) and all(isinstance(i, str) for i in p):
                c.eq(str(x), ' '.join(p), what + ': text')
        c.observe(w)
    return Harness('single', fn, note='all contents in all ways of building')


def h_print():
    """_to_list_keys determines what is printed and is no content."""
    def fn(c):
        from xylem.installers.installer_base import Resolution

        class Special(Resolution):
            _to_list_keys = ['package', 'opts']
        opts = c.pick([[], ['-a'], ['-a', '-b c'], '-x'], 'opts')
        r = Special({'package': 'p', 'opts': opts, 'ref': 'hidden'})
        want = ['p'] + (opts if isinstance(opts, list) else [opts])
        c.eq(r.to_list(), want, 'to_list of %r' % dict(r))
        c.eq(str(r), ' '.join(want), 'text of %r' % dict(r))
        plain = Resolution({'package': 'p', 'opts': opts, 'ref': 'hidden'})
        c.eq(plain.to_list(), ['p'], 'to_list of plain')
        plain._to_list_keys = ['ref', 'package']
        c.eq(plain.to_list(), ['hidden', 'p'], 'to_list after change')
        c.check('_to_list_keys' not in plain, 'private attribute is content')
        c.check(plain == r and hash(plain) == hash(r),
                'the private attribute affects equality')
        c.observe(repr(want))
    return Harness('print', fn, note='printing with different key lists')


OPS = [('item', 'package', 'a'), ('item', 'ref', 1), ('attr', 'package', 'b'),
       ('attr', 'ref', ['x']), ('attr', 'opts', {'k': [1]}),
       ('del item', 'package', None), ('del attr', 'ref', None),
       ('del attr', 'package', None), ('update', 'opts', 'z'),
       ('pop', 'ref', None), ('setdefault', 'package', 'd'),
       ('clear', '', None)]


def h_history(depth):
    """Item and attribute access are two views of one dictionary."""
    def fn(c):
        from xylem.installers.installer_base import Resolution
        start = c.pick([{}, {'package': 'p'}, {'package': ['p'], 'ref': 0}],
                       'start')
        r = Resolution(copy.deepcopy(start))
        other = Resolution(copy.deepcopy(start))
        model = copy.deepcopy(start)
        trace = [start]
        for _ in range(depth):
            op, k, v = OPS[c.choose(len(OPS), 'op')]
            v = copy.deepcopy(v)
            trace.append((op, k, v))
            want = 'ok'
            if op in ('item', 'attr', 'update'):
                model[k] = v
            elif op.startswith('del'):
                if k in model:
                    del model[k]
                else:
                    want = KeyError if op == 'del item' else AttributeError
            elif op == 'pop':
                model.pop(k, None)
            elif op == 'setdefault':
                model.setdefault(k, v)
            else:
                model.clear()

            def do():
                if op == 'item':
                    r[k] = v
                elif op == 'attr':
                    setattr(r, k, v)
                elif op == 'update':
                    r.update({k: v})
                elif op == 'del item':
                    del r[k]
                elif op == 'del attr':
                    delattr(r, k)
                elif op == 'pop':
                    r.pop(k, None)
                elif op == 'setdefault':
                    r.setdefault(k, v)
                else:
                    r.clear()
            st, e = c.call(do)
            if want == 'ok':
                c.check(st == 'ok', '%r: %r', trace, e)
            else:
                c.check(st == 'exc' and isinstance(e, want), '%r: %s %r',
                        trace, st, e)
            c.eq(dict(r), model, repr(trace))
            c.eq(len(r), len(model), '%r: length' % trace)
            for n in ('package', 'ref', 'opts'):
                c.eq(getattr(r, n, 'unset'), model.get(n, 'unset'),
                     '%r: attribute %s' % (trace, n))
                c.eq(hasattr(r, n), n in model, '%r: hasattr %s' % (trace, n))
                c.eq(r.get(n, 'unset'), model.get(n, 'unset'),
                     '%r: item %s' % (trace, n))
            fresh = Resolution(copy.deepcopy(model))
            c.check(r == fresh and fresh == r and not r != fresh and
                    hash(r) == hash(fresh), '%r: not equal to a new one',
                    trace)
            c.eq(r == other, model == start, '%r: comparison' % trace)
            c.eq(dict(other), start, '%r: another one changed' % trace)
            c.state(repr(sorted(model.items())))
        c.observe(repr(sorted(model.items())))
    return Harness('history', fn, split=2,
                   note='all sequences of %d reads and changes through items '
                   'and attributes' % depth)


def h_dedup(n):
    """Duplicates in a list of resolutions are removed by content."""
    alphabet = [{'package': 'p'}, {'package': 'q'},
                {'package': 'p', 'opts': ['x']},
                {'package': 'p', 'opts': ['y']}, {'package': ['p']},
                {'opts': ['x'], 'package': 'p'}]

    def fn(c):
        from xylem.util import remove_duplicates
        k = c.choose(n + 1, 'length')
        ds = [alphabet[c.choose(len(alphabet), 'item')] for _ in range(k)]
        rs = [build(d, 'items') for d in ds]
        want = []
        for d in ds:
            if d not in want:
                want.append(d)
        got = remove_duplicates(rs)
        c.eq([dict(g) for g in got], want, 'duplicates removed from %r' % ds)
        for g in got:
            c.check(g is rs[[dict(r) for r in rs].index(dict(g))],
                    'not the first one is kept of %r', ds)
        c.eq(len(set(rs)), len(want), 'set of %r' % ds)
        c.observe(repr(want))
    return Harness('dedup', fn, note='all lists of up to %d resolutions' % n)


def h_sizes(tier):
    """Many resolutions, and resolutions with much content."""
    def fn(c):
        from xylem.util import remove_duplicates
        n = c.pick(sizes(tier)[1:], 'number')
        what = c.pick(['resolutions', 'entries', 'elements', 'nested'], 'of')
        if what == 'resolutions':
            ds = [{'package': x, 'opts': [x]} for x in names(n)]
        elif what == 'entries':
            d = {x.replace('-', ''): [x] for x in names(n)}
            ds = [d] + [dict(d, **{x.replace('-', ''): [x, 'more']})
                        for x in (names(n)[0], names(n)[-1])]
        elif what == 'elements':
            d = {'package': names(n)}
            ds = [d, {'package': names(n - 1)}, {'package': names(n)[1:]},
                  {'package': names(n)[:-1] + ['other']}]
        else:
            def nest(x):
                for i in range(min(n, 200)):
                    x = [x] if i % 2 else {'k': x}
                return {'package': x}
            ds = [nest('p'), nest('q')]
        ds = [d for i, d in enumerate(ds) if d not in ds[:i]]
        rs = [build(d, 'items') for d in ds]
        again = [build(d, 'reversed') for d in ds]
        for a, b, d in list(zip(rs, again, ds))[:24]:
            c.check(a == b and hash(a) == hash(b) and not a != b,
                    '%d %s: %r is not equal to itself', n, what, d)
            for other, e in list(zip(rs, ds))[:24]:
                c.check((a == other) is (d == e) and (a != other) is (d != e),
                        '%d %s: %r compared with %r', n, what, d, e)
        given = rs + again[::-1] + rs
        got = remove_duplicates(given)
        c.eq([dict(g) for g in got], ds,
             '%d %s: without duplicates' % (n, what))
        c.eq(len(set(given)), len(ds), '%d %s: set' % (n, what))
        if what == 'elements':
            c.eq(str(rs[0]), ' '.join(names(n)), '%d elements: text' % n)
            c.eq(rs[0].to_list(), names(n), '%d elements: list' % n)
        c.observe((what, n, len(ds)))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    q = tier == 'quick'
    return [h_pairs(not q), h_single(not q), h_print(),
            h_history(3 if q else 5), h_dedup(4 if q else 6), h_sizes(tier)]
