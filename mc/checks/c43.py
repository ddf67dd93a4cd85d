"""C43: installing brings the system in line with the updated rules."""

import json
import os

from mc.engine import Harness
from mc import cli, env, stubs
from mc.fullstack import Site

PROPERTY = 'C43'
ASSUMPTIONS = [
    'commands of the package managers do what they say; packages are removed '
    'or added by others only between commands of xylem',
]

#  what the rules of a source can say: {key: (installer, packages)}
CONTENTS = {
    'one': [{'k1': ('a', ['p', 'q']), 'k2': ('b', ['r'])},
            {'k1': ('a', ['q', 's']), 'k2': ('b', ['r'])},
            {'k2': ('a', ['r'])},
            None,                                   # not a rules file
            {}],
    'two': [{'k1': ('b', ['t']), 'k3': ('a', ['p'])},
            {'k3': ('b', ['u', 'r']), 'k2': ('b', ['v'])}],
}
KEYS = ['k1', 'k2', 'k3']


class System(object):
    """A real installation of xylem and a model of what it does."""

    def __init__(self, c, installed=()):
        self.c = c
        self.installed = set(('%s' % i, p) for i, p in installed)
        self.ran = []
        system = self

        def make(name_):
            class Inst(stubs.make_installer(name_)):
                def filter_uninstalled(self, resolved):
                    return [r for r in resolved
                            if (name_, r.package) not in system.installed]
            return Inst

        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['a', 'b'],
                                      default='a')],
                       [make('a'), make('b')])
        env.procs.reset(self.handler)
        self.site = Site(c)
        self.xdir = os.path.join(self.site.root, 'xdir')
        os.mkdir(self.xdir)
        with open(os.path.join(self.xdir, 'config.yaml'), 'w') as f:
            json.dump({'sources_dir': self.site.sources_dir,
                       'cache_dir': self.site.cache_dir,
                       'installer_options': {
                           'a': {'as_root': False},
                           'b': {'as_root': False}}}, f)
        self.site.write_sources('10.yaml', ['one'])
        self.site.write_sources('20.yaml', ['two'])
        self.rules = {}
        self.cached = {}
        for name in CONTENTS:
            self.edit(name, 0)

    def handler(self, argv):
        self.ran.append(list(argv))
        if argv[1:2] == ['install']:
            self.installed |= {(argv[0], p) for p in argv[2:]
                               if not p.startswith('-')}
        return 0, b'', b''

    def edit(self, name, i):
        rules = CONTENTS[name][i]
        self.rules[name] = rules
        self.site.write_rules(name, '[' if rules is None else {
            k: {'ubuntu': {'any_version': {inst: {'packages': ps}}}}
            for k, (inst, ps) in rules.items()})

    def xylem(self, *args):
        self.ran = []
        r = cli.run(['--xylem-dir', self.xdir] + list(args))
        self.c.event('xylem ' + ' '.join(args))
        self.c.check(r.exc is None, 'xylem %s: %r', ' '.join(args), r)
        return r

    # -- the model ---------------------------------------------------------
    def plan(self, key):
        """{installer: packages} of the rules last updated"""
        out = {}
        for name in ('two', 'one'):
            if key in (self.cached.get(name) or {}):
                inst, ps = self.cached[name][key]
                out[inst] = ps
        return out

    def choice(self, key):
        p = self.plan(key)
        inst = 'a' if 'a' in p else 'b' if 'b' in p else None
        return inst and (inst, p[inst])

    def ready(self):
        return set(self.cached) == set(CONTENTS)


def update(s, dry=False):
    r = s.xylem('update', *(['-n'] if dry else []))
    bad = [n for n in s.rules if s.rules[n] is None]
    for n in s.rules:
        s.c.eq(s.site.url(n) in r.err, n in bad,
               'update: source %s reported (%r)' % (n, r.err))
    if not dry:
        s.cached.update({n: s.rules[n] for n in s.rules if n not in bad})


def resolve(s):
    r = s.xylem('resolve', '--show-default-installer', *KEYS)
    want = []
    if s.ready():
        for k in KEYS:
            if s.choice(k):
                want.append('%s --> %s: %s' % (
                    k, s.choice(k)[0], ', '.join(s.choice(k)[1])))
    s.c.eq([x.rstrip() for x in env.strip_ansi(r.out).splitlines()
            if '-->' in x], want, 'resolve')
    s.c.eq(r.code == 0, s.ready() and len(want) == len(KEYS),
           'resolve: succeeds, %r' % r)
    s.c.eq(s.ran, [], 'resolve runs')


def listed(s):
    if not s.ready():
        return
    r = s.xylem('resolve', '--all', 'k2')
    s.c.eq(sorted({x.split()[0] for x in env.strip_ansi(r.out).splitlines()
                   if '-->' in x}),
           sorted(k for k in KEYS if s.choice(k)), 'resolve --all')


def install(s, keys, re=False, dry=False):
    before = set(s.installed)
    r = s.xylem('install', *((['--reinstall'] if re else []) +
                             (['--dry-run'] if dry else []) + keys))
    known = s.ready() and all(s.choice(k) for k in keys)
    s.c.eq(r.code == 0, known, 'install %s: succeeds, %r' % (keys, r))
    ran = [(a[0], p) for a in s.ran for p in a[2:] if not p.startswith('-')]
    if not known or dry:
        s.c.eq(s.ran, [], 'install %s runs' % keys)
        return
    need = [(i, p) for k in dict.fromkeys(keys)
            for i, ps in [s.choice(k)] for p in ps]
    todo = [x for x in need if re or x not in before]
    s.c.eq(sorted(set(ran)), sorted(set(todo)), 'install %s installs' % keys)
    s.c.eq(list(dict.fromkeys(ran)), list(dict.fromkeys(todo)),
           'install %s: order' % keys)
    s.c.check(set(need) <= s.installed, 'install %s: %r is not installed',
              keys, sorted(set(need) - s.installed))
    s.c.eq(s.installed, before | set(need), 'install %s: installed' % keys)
    # it is done, and stays done
    r = s.xylem('install', *keys)
    s.c.eq((r.code, s.ran), (0, []), 'install %s again' % keys)


OPS = [
    ('update', update),
    ('install k1', lambda s: install(s, ['k1'])),
    ('one: 1', lambda s: s.edit('one', 1)),
    ('install k1 k2 k3', lambda s: install(s, ['k1', 'k2', 'k3'])),
    ('remove q', lambda s: s.installed.discard(('a', 'q'))),
    ('resolve', resolve),
    ('two: 1', lambda s: s.edit('two', 1)),
    ('one: invalid', lambda s: s.edit('one', 3)),
    ('one: 2', lambda s: s.edit('one', 2)),
    ('reinstall k3 k1', lambda s: install(s, ['k3', 'k1'], re=True)),
    ('update -n', lambda s: update(s, dry=True)),
    ('simulate k3', lambda s: install(s, ['k3'], dry=True)),
    ('one: empty', lambda s: s.edit('one', 4)),
    ('p by others', lambda s: s.installed.add(('a', 'p'))),
]


def h_history(depth, ops, start):
    def fn(c):
        s = System(c)
        if start:
            update(s)
        for _ in range(depth):
            k = c.choose(len(ops) + 1, 'operation')
            if k == len(ops):
                break
            ops[k][1](s)
            c.state((sorted(s.installed), sorted(s.cached.items()),
                     sorted(s.rules.items(), key=str)))
        resolve(s)
        listed(s)
        if s.ready():
            keys = [k for k in KEYS if s.choice(k)]
            install(s, keys)
        c.observe(repr((sorted(s.installed), sorted(s.cached.items()))))
    return Harness('history' if start else 'from_scratch', fn,
                   split=2)


def harnesses(tier):
    if tier == 'quick':
        return [h_history(3, OPS[:9], True), h_history(3, OPS[:6], False),
                h_named('all_operations', h_history(2, OPS, True))]
    return [h_history(5, OPS[:8], True), h_history(5, OPS[:6], False),
            h_named('all_operations', h_history(4, OPS, True))]


def h_named(name, h):
    h.name = name
    return h
