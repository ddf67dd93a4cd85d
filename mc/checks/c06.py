"""C06: source precedence is by file name and entry order only."""

import json
import os

import yaml

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import Site, mem_database
from mc.rulesref import ref_lookup, NoDefault, clone
from mc.sizes import sizes

PROPERTY = 'C06'
LOUD = True
ASSUMPTIONS = [
    'file names are ASCII lower case, digits and punctuation, for which '
    'alphabetical order is code point order',
]

D = 'default_installer'


class Listing(object):
    """The order in which the file system lists a directory is a choice."""

    def __init__(self, c, path, order=None):
        self.c, self.path, self.order = c, path, order

    def __enter__(self):
        self.real = os.listdir, os.scandir

        def permute(names):
            names = sorted(names)
            if self.order is None:
                self.order = self.c.perm(range(len(names)), 'listing')
            return [names[i] for i in self.order]

        def listdir(path='.'):
            names = self.real[0](path)
            if os.path.abspath(path) == self.path:
                names = permute(names)
            return names

        class Scan(list):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def scandir(path='.'):
            it = self.real[1](path)
            if isinstance(path, str) and os.path.abspath(path) == self.path:
                by = {e.name: e for e in it}
                it = Scan(by[n] for n in permute(list(by)))
            return it
        os.listdir, os.scandir = listdir, scandir

    def __exit__(self, *a):
        os.listdir, os.scandir = self.real
        return False


def sources_of(c, cfg):
    from xylem.sources import SourcesContext, RulesDatabase
    with env.capture() as cap:
        got = c.call(lambda: RulesDatabase(SourcesContext(cfg)))
    return got, cap


NAMES = ['10-a.yaml', '9-b.yaml', 'z.yaml', 'a_.yaml', '10.yaml']


def ic_for(default='apt'):
    return stubs.context('ubuntu', 'v1', default)


_ic = {}


def ic(default='apt'):
    if default not in _ic:
        _ic[default] = ic_for(default)
    return _ic[default]


def h_layout(names, nsources):
    """Assignments of sources to files x listing orders, real files."""
    def fn(c):
        site = Site(c)
        files = {}
        for i in range(nsources):
            f = c.pick(names, 'file of source %d' % i)
            files.setdefault(f, []).append('s%d' % i)
        for f, srcs in files.items():
            site.write_sources(f, srcs)
        order = [s for f in sorted(files) for s in files[f]]
        for i in range(nsources):
            site.write_rules('s%d' % i, {
                'k': {'ubuntu': {'v1': {'apt': ['s%d' % i],
                                        'only%d' % i: ['x']}}}})
        cfg = site.config()
        with Listing(c, site.sources_dir):
            got, cap = sources_of(c, cfg)
            c.check(got[0] == 'ok', lambda: 'files %r: %r' % (files, got))
            db = got[1]
            c.eq([s.arguments for s in db.sources],
                 [site.url(s) for s in order], 'order of sources in %r' % files)
            c.eq([os.path.basename(s.origin) for s in db.sources],
                 [f for f in sorted(files) for _ in files[f]],
                 'origins of sources in %r' % files)
        with env.capture():
            db.load_from_source()
        rules = db.lookup('k', ic())
        want = {'only%d' % i: {'packages': ['x']} for i in range(nsources)}
        want['apt'] = {'packages': [order[0]]}
        c.eq(rules, want, 'lookup with files %r' % files)
        c.observe(order)
    return fn


def ignorable(site, kind, name):
    """Put an entry to be ignored into the sources dir."""
    path = os.path.join(site.sources_dir, name)
    if kind == 'dir':
        os.mkdir(path)
        with open(os.path.join(path, '00.yaml'), 'w') as f:
            f.write(json.dumps([{'rules': site.url('bad')}]))
    elif kind == 'source':
        with open(path, 'w') as f:
            f.write(json.dumps([{'rules': site.url('bad')}]))
    elif kind == 'broken':
        with open(path, 'w') as f:
            f.write('[')
    elif kind == 'dangling':
        os.symlink(os.path.join(site.root, 'missing'), path)
    elif kind == 'unknown':
        with open(path, 'w') as f:
            f.write(json.dumps([{'other': 'x'}]))


IGNORED = ['.hidden.yaml', '.yaml', '00.txt', '00.yaml~', '00.yml',
           '00.yaml.bak', 'yaml', '00yaml', '.#00.yaml', '00.yaml.swp',
           'README', '00.YAML', '00.Yaml', '00.yaml ', '00.yaml.YML', '00.json']


def h_ignored(c):
    site = Site(c)
    site.write_rules('a', {'k': {'ubuntu': ['a']}})
    site.write_rules('b', {'k': {'ubuntu': ['b']}})
    site.write_rules('bad', {'k': {'ubuntu': {'v1': {'apt': ['bad'],
                                                     'pip': ['bad']}}}})
    have = c.choose(3, 'real files')
    os.mkdir(site.sources_dir)
    if have:
        site.write_sources('10.yaml', ['a'])
    if have == 2:
        site.write_sources('20.yaml', ['b'])
    for i in range(2):
        kind = c.pick(['none', 'dir', 'source', 'broken', 'unknown'],
                      'ignored %d' % i)
        if kind == 'none':
            continue
        names = ['00-dir.yaml', 'sub'] if kind == 'dir' else IGNORED
        name = c.pick(names, 'name')
        if os.path.lexists(os.path.join(site.sources_dir, name)):
            c.prune()
        ignorable(site, kind, name)
    listing = sorted(os.listdir(site.sources_dir))
    cfg = site.config()
    n = len(listing)
    rotations = [list(range(n))[r:] + list(range(n))[:r] for r in range(n)]
    order = c.pick(rotations or [[]], 'listing')
    with Listing(c, site.sources_dir, order):
        got, cap = sources_of(c, cfg)
    c.check(got[0] == 'ok', lambda: 'listing %r: %r' % (listing, got))
    c.eq([s.arguments for s in got[1].sources],
         [site.url(s) for s in ('a', 'b')[:have]],
         'sources from listing %r' % listing)
    with env.capture():
        got[1].load_from_source()
    c.eq(got[1].lookup('k', ic()), {'apt': {'packages': ['a']}} if have else
         {}, 'lookup with listing %r' % listing)
    c.observe(listing)


def builtin():
    """The default sources, read independently."""
    d = os.path.join(env.REPO, 'xylem', 'sources', 'sources.d')
    out = []
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as fh:
            out += [list(e.values())[0] for e in yaml.safe_load(fh)]
    return out


def h_default(c):
    """Default sources iff the sources directory does not exist."""
    site = Site(c)
    kind = c.pick(['missing', 'empty', 'ignored only', 'empty list', 'one'],
                  'sources dir')
    missing_cache = c.flag('cache exists')
    if missing_cache:
        os.mkdir(site.cache_dir)
    site.write_rules('a', {})
    if kind != 'missing':
        os.mkdir(site.sources_dir)
    if kind == 'ignored only':
        ignorable(site, 'source', '00.txt')
    if kind == 'empty list':
        site.write_sources('10.yaml', [])
    if kind == 'one':
        site.write_sources('10.yaml', ['a'])
    got, cap = sources_of(c, site.config())
    c.check(got[0] == 'ok', lambda: '%s: %r' % (kind, got))
    want = {'missing': builtin(), 'one': [site.url('a')]}.get(kind, [])
    c.eq([s.arguments for s in got[1].sources], want, 'sources if ' + kind)
    c.observe((kind, len(want)))


def h_invalid(c):
    """Duplicate sources and unknown spec types are errors."""
    from xylem.sources.impl import UnknownSpecError
    site = Site(c)
    for s in 'abc':
        site.write_rules(s, {'k': {'ubuntu': [s]}})
    entries = []
    for i in range(3):
        entries.append((c.pick(['10.yaml', '20.yaml'], 'file'),
                        c.pick([('rules', 'a'), ('rules', 'b'),
                                ('rules', 'c'), ('nosuch', 'a')], 'entry')))
    files = {}
    for f, (spec, s) in entries:
        files.setdefault(f, []).append({spec: site.url(s)})
    os.mkdir(site.sources_dir)
    for f, e in files.items():
        with open(os.path.join(site.sources_dir, f), 'w') as fh:
            fh.write(json.dumps(e))
    got, cap = sources_of(c, site.config())
    unknown = any(e[0] == 'nosuch' for _f, e in entries)
    urls = [e[1] for _f, e in entries]
    if unknown:
        c.check(got[0] == 'exc' and isinstance(got[1], UnknownSpecError),
                lambda: 'unknown spec in %r: %r' % (files, got))
        c.observe('unknown')
    elif len(set(urls)) < len(urls):
        c.check(got[0] == 'exc', 'duplicate sources accepted in %r' % files)
        c.observe('duplicate')
    else:
        c.check(got[0] == 'ok', lambda: 'sources %r: %r' % (files, got))
        c.eq([s.arguments for s in got[1].sources],
             [e['rules'] for f in sorted(files) for e in files[f]],
             'sources in %r' % files)
        c.observe(urls)


RULES = [
    {},
    {'any_os': {'any_version': {'pip': 1}}},
    {'ubuntu': {'any_version': {D: 1}}},
    {'ubuntu': {'v1': {'apt': 1}}},
    {'ubuntu': {'v1': {D: 1, 'pip': 1}}},
    {'ubuntu': {'any_version': {'pip': 1, 'gem': 1}}, 'any_os': {
        'any_version': {'apt': 1}}},
    {'debian': {'any_version': {D: 1, 'pip': 1}}},
    {'ubuntu': {'v2': {'apt': 1, 'pip': 1}}},
]
LAYOUTS = [
    [('10.yaml', (0, 1, 2))], [('10.yaml', (2, 1, 0))],
    [('10.yaml', (1,)), ('20.yaml', (0, 2))],
    [('9.yaml', (0, 2)), ('10.yaml', (1,))],
    [('c.yaml', (0,)), ('b.yaml', (1,)), ('a.yaml', (2,))],
]


def h_overlap(shapes):
    """All overlap patterns of the rules of three sources."""
    def fn(c):
        layout = c.pick(LAYOUTS, 'layout')
        default = c.pick(['apt', None], 'default')
        dicts = []
        for s in range(3):
            osd = c.pick(shapes, 'rules of source %d' % s)
            dicts.append({'k': {o: {v: {i: {'packages': [
                's%d/%s/%s/%s' % (s, o, v, i)]} for i in ins}
                for v, ins in vs.items()} for o, vs in osd.items()}})
        order = [i for f, ix in sorted(layout) for i in ix]
        orig = clone(dicts)
        db = mem_database(dicts, layout)
        want = {}
        try:
            for i in order:
                for inst, rule in ref_lookup(orig[i], 'k', 'ubuntu', 'v1',
                                             default).items():
                    want.setdefault(inst, rule)
        except NoDefault:
            want = None
        what = 'lookup in %r with layout %r' % (orig, layout)
        for _ in range(2):        # asking twice gives the same
            got = c.call(db.lookup, 'k', ic(default))
            if want is None:
                c.check(got[0] == 'exc' and isinstance(
                    got[1], (LookupError, ValueError)),
                    lambda: '%s: %r' % (what, got))
            else:
                c.eq(got, ('ok', want), what)
        c.observe(want)
    return fn


FILES = {
    'one file': lambda i: 'a.yaml',
    'numbered': lambda i: '%d.yaml' % i,
    'padded backwards': lambda i: '%04d.yaml' % (9999 - i),
    'every third': lambda i: '%d0-x.yaml' % (i % 3),
    'tens': lambda i: '%d.yaml' % (i // 10),
}


def h_sizes(tier):
    """Many sources in one file or in many, with rules for the same key."""
    def fn(c):
        n = c.pick(sizes(tier), 'number of sources')
        name = FILES[c.pick(sorted(FILES), 'files')]
        layout = {}
        for i in range(n):
            layout.setdefault(name(i), []).append(i)
        order = [i for f in sorted(layout) for i in layout[f]]
        has = {'all': order, 'last': order[-1:], 'second half': order[n // 2:],
               }[c.pick(['all', 'last', 'second half'], 'with rules')]
        dicts = [{'k': {'ubuntu': {'v1': {
            'apt': {'packages': ['s%d' % i]},
            'only%d' % i: {'packages': ['x']}}}}} if i in has else {}
            for i in range(n)]
        db = mem_database(dicts, sorted(layout.items()))
        c.eq([s.arguments for s in db.sources], ['mem:%d' % i for i in order],
             'sources of %d' % n)
        want = {'only%d' % i: {'packages': ['x']} for i in has}
        if has:
            want['apt'] = {'packages': ['s%d' % has[0]]}
        c.eq(c.call(db.lookup, 'k', ic()), ('ok', want),
             'lookup in %d sources, rules in %r' % (n, has))
        c.eq(list(db.keys(ic())), ['k'] if has else [], 'keys of %d' % n)
        c.observe((n, sorted(layout), len(has)))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    big = tier == 'thorough'
    return [Harness('layout', h_layout(NAMES if big else NAMES[:4], 3),
                    split=3),
            Harness('ignored', h_ignored, split=3),
            Harness('default', h_default, split=1),
            Harness('invalid', h_invalid, split=2),
            Harness('overlap', h_overlap(RULES), split=3),
            h_sizes(tier)] + (
        [Harness('layout4', h_layout(NAMES, 4), split=3)] if big else [])
