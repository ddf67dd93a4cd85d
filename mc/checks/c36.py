"""C36: source lists are parsed exactly or rejected."""

from itertools import product
import os

import json
import yaml

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import Site
from mc.sizes import sizes

PROPERTY = 'C36'
LOUD = ('types', 'kinds', 'defaults')
SILENT = ('places', 'files', 'texts')
ASSUMPTIONS = ['sources files are UTF-8 text; an empty mapping or text in '
               'place of the list may be rejected or count as no sources']

VALID = [
    {'rules': 'http://x/a.yaml'},
    {'rules': 'file:///b c'},
    {'other': {'url': 'é', 'n': [1, None, {'k': True}]}},
    {'rules': None},
    {'a b': ['x', 'y']},
    {'rules': 5},
    {'': ''},
]
BROKEN = ['text', '', 5, None, True, [], ['rules', 'x'], {},
          {'rules': 'x', 'other': 'y'}, {5: 'x'}, {None: 'x'}, {True: 'x'},
          [{'rules': 'x'}]]
LISTS = [None, 5, True, 'rules', {'rules': 'x'}, 1.5, {'a': {'rules': 'x'}}]


def entries():
    return [(e, True) for e in VALID] + [(e, False) for e in BROKEN]


def spec_plugin(name_):
    """A spec plugin that records what it is given."""
    from xylem.specs import Spec

    class StubSpec(Spec):
        PLUGIN = name_

        @property
        def name(self):
            return name_

        def version(self):
            return 1

        def unique_id(self, arguments):
            return [json.dumps(arguments)]

        def load_data(self, arguments):
            return {}

        def verify_data(self, data, arguments):
            pass

        def is_data_outdated(self, data, arguments, data_load_time):
            return False

        def lookup(self, data, xylem_key, installer_context):
            return {}

        def keys(self, data, installer_context):
            return []

        def verify_arguments(self, arguments):
            pass
    return StubSpec


def database(c, site, names=None):
    from xylem.sources import SourcesContext, RulesDatabase
    names = names or ['rules', 'other', 'a b', '', 'rul', 'rules2', 'Rules']
    env.plugins.classes('xylem.specs', 'spec', [spec_plugin(n)
                                                for n in names])
    with env.capture() as con:
        ctx = SourcesContext(site.config(),
                             spec_plugins=[spec_plugin(n)() for n in names])
        st, v = c.call(lambda: RulesDatabase(ctx))
    return st, v, con


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def h_entries(n, style):
    es = entries()

    def fn(c):
        from xylem.sources.impl import parse_source_descriptions
        size = c.choose(n + 1, 'size')
        chosen = [es[c.choose(len(es), 'entry %d' % i)] for i in range(size)]
        doc = [e for e, _ in chosen]
        ok = all(g for _, g in chosen)
        text = json.dumps(doc) if style == 'json' else yaml.safe_dump(
            doc, allow_unicode=True, default_flow_style=False)
        doc = yaml.safe_load(text)      # keys as YAML gives them
        ok = ok or all(isinstance(e, dict) and len(e) == 1 and isinstance(
            list(e)[0], str) for e in doc)
        with env.capture() as con:
            st, v = c.call(parse_source_descriptions, text, 'the-file.yaml')
        what = 'source list %r' % text
        if ok:
            c.check(st == 'ok', '%s: %r', what, v)
            c.eq(tuple(v)[0], 'the-file.yaml', what)
            c.check(same(list(v[1]), doc), '%s: parsed as %r', what, v)
            c.eq(con.stdout + con.stderr, '', what + ': messages')
        else:
            c.check(st == 'exc' and isinstance(v, ValueError),
                    '%s: %s %r', what, st, v)
        c.observe('%r %d' % (ok, size))
    return Harness('entries ' + style, fn, split=2,
                   note='all lists of up to %d of %d entries' % (n, len(es)))


def h_database(n):
    """The sources of a database are the entries of the files."""
    es = entries()
    good = [e for e in VALID]

    def fn(c):
        site = Site(c)
        os.mkdir(site.sources_dir)
        files = {}
        want = []
        ok = True
        used = 0
        for name in ['a.yaml', 'b.yaml', 'c.yaml'][:n]:
            kind = c.pick(['list', 'empty list', 'bad entry', 'bad yaml',
                           'bad list'], name)
            if kind == 'list':
                size = c.choose(2, 'size') + 1
                doc = [good[(used + i) % len(good)] for i in range(size)]
                used += size
                text = yaml.safe_dump(doc, allow_unicode=True)
                want += [(list(e.items())[0], name) for e in doc]
            elif kind == 'empty list':
                text = '[]'
            elif kind == 'bad entry':
                bad = BROKEN[c.choose(len(BROKEN), 'entry')]
                pos = c.choose(3, 'position')
                doc = [{'rules': name + '1'}, {'other': name + '2'}]
                doc.insert(pos, bad)
                text = yaml.safe_dump(doc)
                ok = False
            elif kind == 'bad yaml':
                text = c.pick(['- rules: [', '- {rules: x', '%', '\x07',
                               '- rules: x\n  - y', '- rules: 2014-02-30',
                               '&a [*a, *b]', '- !foo x', '[' * 1100],
                              'text')
            else:
                text = yaml.safe_dump(LISTS[c.choose(len(LISTS), 'document')])
                ok = False
            files[name] = (kind, text)
            with open(os.path.join(site.sources_dir, name), 'wb') as f:
                f.write(text.encode('utf-8'))
        st, v, con = database(c, site)
        what = 'sources files %r' % (files,)
        if not ok:
            c.check(st == 'exc' and isinstance(v, ValueError), '%s: %s %r',
                    what, st, v)
            c.observe('rejected')
            return
        c.check(st == 'ok', '%s: %r', what, v)
        got = [((s.spec.name, s.arguments), os.path.basename(s.origin))
               for s in v.sources]
        c.check(same(got, want), '%s: sources are %r, expected %r', what, got,
                want)
        err = env.strip_ansi(con.stderr)
        for name, (kind, _t) in files.items():
            path = os.path.join(site.sources_dir, name)
            c.eq(path in err, kind == 'bad yaml', '%s: %s is reported in %r' %
                 (what, name, err))
        c.observe('%d sources, %r' % (len(got), bool(err)))
    return Harness('files', fn, split=2,
                   note='all combinations of %d files of valid, empty, '
                   'malformed and invalid content' % n)


def h_types(n):
    """Which plugin handles an entry."""
    pool = ['rules', 'rul', 'rules2', 'Rules', 'r', '']

    def fn(c):
        from xylem.exception import XylemError
        site = Site(c)
        os.mkdir(site.sources_dir)
        left, names = list(pool), []
        for i in range(n):
            names.append(left.pop(c.choose(len(left), 'plugin %d' % i)))
        used = [c.pick(pool + ['ule'], 'type %d' % i) for i in range(2)]
        doc = [{t: 'http://x/%d' % i} for i, t in enumerate(used)]
        with open(os.path.join(site.sources_dir, 'a.yaml'), 'w') as f:
            f.write(json.dumps(doc))
        st, v, con = database(c, site, names)
        what = 'sources of types %r with plugins %r' % (used, names)
        if set(used) - set(names):
            c.check(st == 'exc' and isinstance(v, XylemError),
                    '%s: %s %r', what, st, v)
        else:
            c.check(st == 'ok', '%s: %r', what, v)
            c.eq([(s.spec.name, s.arguments) for s in v.sources],
                 [list(e.items())[0] for e in doc], what)
        c.observe('%s %r' % (st, used))
    return Harness('types', fn, split=2, note='all orders of %d of %d spec '
                   'plugins with similar names' % (n, len(pool)))


def h_kinds():
    """Which entries of the sources directory are source lists."""
    def fn(c):
        from xylem.sources.impl import load_sources_from_path
        root = c.tmp()
        d = os.path.join(root, 'sources.d')
        os.mkdir(d)
        os.mkdir(os.path.join(root, 'dir'))
        want = []
        made = []
        for name in ['m.yaml', c.pick(['n.yaml', '.n.yaml', 'n.yml', 'n',
                                       'N.YAML', 'n.yaml~', 'n.yaml.d',
                                       'n x.yaml', 'é.yaml'], 'name')]:
            kind = c.pick(['file', 'link', 'link to link', 'hard link',
                           'relative link', 'dead link', 'directory',
                           'link to directory', 'none'], name[0])
            path = os.path.join(d, name)
            text = '- rules: ' + name
            other = os.path.join(root, 'f-' + name)
            made.append((name, kind))
            if kind == 'file':
                other = path
            if kind != 'dead link':
                with open(other, 'w') as f:
                    f.write(text)
            if kind in ('link', 'dead link'):
                os.symlink(other, path)
            elif kind == 'relative link':
                os.symlink(os.path.join('..', 'f-' + name), path)
            elif kind == 'link to link':
                os.symlink(other, other + '-l')
                os.symlink(other + '-l', path)
            elif kind == 'hard link':
                os.link(other, path)
            elif kind == 'directory':
                os.mkdir(path)
            elif kind == 'link to directory':
                os.symlink(os.path.join(root, 'dir'), path)
            if name.endswith('.yaml') and name[0] != '.' and kind in (
                    'file', 'link', 'relative link', 'link to link',
                    'hard link'):
                want.append((path, [{'rules': name}]))
        with env.capture() as con:
            st, v = c.call(lambda: list(load_sources_from_path(d)))
        what = 'sources directory with %r' % (made,)
        c.check(st == 'ok', '%s: %r', what, v)
        c.eq([(f, list(x)) for f, x in v], sorted(want), what)
        c.eq(con.stderr, '', what)
        c.observe(repr(made))
    return Harness('kinds', fn, split=2, note='two entries of the sources '
                   'directory, 9 kinds each, 9 names')


def h_places():
    """Where the sources directory is and how it is named."""
    def fn(c):
        site = Site(c)
        parent = c.pick(['conf', '.conf', 'a.yaml', 'x y', 'é', '*', '#',
                         'link'], 'parent')
        name = c.pick(['sources.d', '.sources', 'x.yaml', '[a]', '~'], 'name')
        spelling = c.pick(['absolute', 'slash', 'dots'], 'spelling')
        p = os.path.join(site.root, parent)
        if parent == 'link':
            os.mkdir(os.path.join(site.root, '.there'))
            os.symlink('.there', p)
        else:
            os.mkdir(p)
        d = os.path.join(p, name)
        os.mkdir(d)
        for f in ('b.yaml', 'a.yaml', '.c.yaml'):
            with open(os.path.join(d, f), 'w') as fh:
                fh.write('- rules: ' + f)
        site.sources_dir = {'absolute': d, 'slash': d + '/', 'dots':
                            os.path.join(p, '.', name, '..', name)}[spelling]
        st, v, con = database(c, site)
        what = 'sources directory %s/%s (%s)' % (parent, name, spelling)
        c.check(st == 'ok', '%s: %r', what, v)
        c.eq([s.arguments for s in v.sources], ['a.yaml', 'b.yaml'], what)
        c.eq(con.stderr, '', what)
        c.observe(what)
    return Harness('places', fn, note='all kinds of names of the sources '
                   'directory and its parent')


TOKENS = ['- ', 'rules', ': ', 'x', '\n', '  ', '[', ']', '{', '}', ', ',
          '"', "'", '&a ', '*a', '!t ', '#', '|', '2014-02-30', 'é', '\t',
          '5', '~', '%', '---\n']


def reference(text):
    """-> list of sources, ValueError or YAMLError"""
    try:
        doc = yaml.safe_load(text)
    except yaml.YAMLError:
        return yaml.YAMLError
    except (ValueError, AttributeError, TypeError):
        return yaml.YAMLError           # impossible dates
    if doc in ('', {}) or isinstance(doc, (dict, set)) and not doc:
        return 'either'
    if not isinstance(doc, list):
        return ValueError
    for e in doc:
        if not isinstance(e, dict) or len(e) != 1 or not isinstance(
                list(e)[0], str):
            return ValueError
    return doc


def h_texts(n, tokens):
    def fn(c):
        from xylem.sources.impl import parse_source_descriptions
        head = ''.join(tokens[c.choose(len(tokens), 'token %d' % i)]
                       for i in range(n - 2))
        counts = {}
        for rest in product([''] + tokens, repeat=2):
            text = head + ''.join(rest)
            for t in (text, '- rules: x\n' + text):
                with env.capture() as con:
                    st, v = c.call(parse_source_descriptions, t, 'file-name')
                r = reference(t)
                what = 'source list %r' % t
                if r is ValueError:
                    c.check(st == 'exc' and isinstance(v, ValueError),
                            '%s: %s %r', what, st, v)
                elif r is yaml.YAMLError:
                    c.check(st == 'ok' and v == ('file-name', []),
                            '%s: %s %r', what, st, v)
                    c.check('file-name' in con.stderr, '%s: not reported',
                            what)
                elif r == 'either':
                    c.check((st == 'ok' and not v[1]) or isinstance(
                        v, ValueError), '%s: %s %r', what, st, v)
                else:
                    c.check(st == 'ok' and repr(list(v[1])) == repr(r),
                            '%s: %s %r', what, st, v)
                    c.eq(con.stderr + con.stdout, '', what)
                k = r if isinstance(r, (str, type)) else 'list'
                counts[k] = counts.get(k, 0) + 1
                c.event(t)
        c.observe(repr(sorted(map(str, counts.items()))))
    return Harness('texts', fn, split=1,
                   note='all texts of up to %d of %d tokens, alone and after '
                   'a valid entry' % (n, len(tokens)))


def h_defaults():
    """The built-in sources are valid."""
    def fn(c):
        from xylem.sources.impl import (get_default_source_descriptions,
                                        parse_source_file)
        import xylem.sources
        base = os.path.join(os.path.dirname(xylem.sources.__file__),
                            'sources.d')
        got = list(get_default_source_descriptions())
        names = sorted(os.listdir(base))
        c.eq([os.path.basename(f) for f, _ in got], names, 'default files')
        for (f, ds), name in zip(got, names):
            with open(os.path.join(base, name)) as fh:
                want = yaml.safe_load(fh)
            c.eq(list(ds), want, 'default sources in ' + name)
            c.eq(list(parse_source_file(os.path.join(base, name))[1]), want,
                 'parsed ' + name)
        c.observe(repr(names))
    return Harness('defaults', fn, note='built-in sources')


def h_sizes(tier):
    """Long lists, long texts and many files."""
    def fn(c):
        from xylem.sources.impl import parse_source_descriptions
        n = c.pick(sizes(tier), 'number')
        what = c.pick(['entries', 'characters', 'lines', 'files'], 'of')
        style = c.pick(['json', 'yaml'], 'style')
        pos = {'none': None, 'first': 0, 'last': n, 'middle': n // 2}[
            c.pick(['none', 'first', 'last', 'middle'], 'broken entry')]
        if what == 'characters':
            docs = [[{'rules': 'x' * n}, {'other': 'y'}]]
        elif what == 'lines':
            docs = [[{'rules': 'a\n' * n + 'b'},
                     {'other': {'k%d' % i: i for i in range(n)}}]]
        elif what == 'entries':
            docs = [[{('rules', 'other')[i % 2]: 'x%d' % i}
                     for i in range(n)]]
        else:
            n = min(n, 33)
            docs = [[{'rules': 'x%d' % i}] for i in range(n)]
        if pos is not None and docs:
            if what == 'files':
                docs[pos % len(docs)].append('broken')
            else:
                docs[0].insert(pos, {'rules': 'a', 'other': 'b'})
        texts = [json.dumps(d) if style == 'json' else yaml.safe_dump(
            d, default_flow_style=False) for d in docs]
        ok = pos is None or not docs
        label = '%d %s (%s), broken %r' % (n, what, style, pos)
        for text, doc in zip(texts, docs):
            fine = ok or all(isinstance(e, dict) and len(e) == 1
                             for e in doc)
            with env.capture() as con:
                st, v = c.call(parse_source_descriptions, text, 'file.yaml')
            if fine:
                c.check(st == 'ok' and same(list(v[1]), doc),
                        '%s: %r parsed as %r', label, text, v)
            else:
                c.check(st == 'exc' and isinstance(v, ValueError),
                        '%s: %r: %r', label, text, v)
        site = Site(c)
        os.mkdir(site.sources_dir)
        for i, text in enumerate(texts):
            with open(os.path.join(site.sources_dir, '%04d.yaml' % i),
                      'w') as f:
                f.write(text)
        if docs:
            st, v, con = database(c, site)
            if not ok:
                c.check(st == 'exc' and isinstance(v, ValueError),
                        '%s: sources: %r', label, v)
            else:
                c.check(st == 'ok', '%s: sources: %r', label, v)
                c.eq([(s.spec.name, s.arguments) for s in v.sources],
                     [list(e.items())[0] for d in docs for e in d],
                     label + ': sources')
        c.observe((n, what, ok))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    if tier == 'quick':
        return [h_entries(2, 'json'), h_entries(2, 'yaml'), h_database(2),
                h_texts(3, TOKENS), h_defaults(), h_kinds(), h_types(2),
                h_places(), h_sizes(tier)]
    return [h_entries(3, 'json'), h_entries(3, 'yaml'), h_database(3),
            h_texts(4, TOKENS), h_defaults(), h_kinds(), h_types(5),
            h_places(), h_sizes(tier)]
