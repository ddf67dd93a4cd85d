"""C47: the program of a command does what xylem does given the command."""

import itertools
import json
import os
import pydoc
import re
import shutil
import sys

from mc.engine import Harness
from mc import cli, env
from mc.fullstack import Site, snapshot
from mc.interrupt import Interrupt

PROPERTY = 'C47'
ASSUMPTIONS = [
    'the program of a command is its main function called without arguments '
    '(xylem-update is installed that way)',
    'usage lines may differ in the name of the program and the line breaks',
]

RULES = {
    'k': {'ubuntu': {'any_version': {'apt': {'packages': ['p', 'q']}}},
          'osx': {'any_version': {'homebrew': {'packages': ['p']}}}},
    'j': {'any_os': {'any_version': {'pip': {'packages': ['jp']}}}},
}

#  options and arguments, most of them for any command
OPTIONS = [
    ['-v'], ['-d'], ['--no-color'], ['--print-config'],
    ['--os', 'osx:lion'], ['--os', 'nosuch:1'],
    ['--disable-spec-plugins', 'rules'],
    ['--core-installers', 'pip'], ['--use-additional-installers', 'no'],
    ['--sources-dir', 'ROOT/other.d'], ['--cache-dir', 'ROOT/othercache'],
    ['--user-sources', 'yes'], ['--no-user-config'],
    ['--user-sources', 'maybe'], ['--bogus'], ['extra'],
    ['--help'], ['-h'], ['--version'],
]
OWN = {
    'update': [[], ['-n'], ['--dry-run']],
    'lookup': [[], ['k'], ['j', 'k'], ['nokey'], ['k', 'nokey']],
    'resolve': [[], ['k'], ['--all'], ['j', 'nokey'],
                ['--show-default-installer', 'j', 'k']],
    'install': [[], ['k'], ['--dry-run', 'k', 'j'], ['nokey', 'k'],
                ['--reinstall', '--continue-on-error', 'nokey', 'j', 'k']],
    '_compact_rules_file': [[], ['ROOT/rules/r.yaml'],
                            ['-w', 'ROOT/rules/r.yaml'],
                            ['ROOT/rules/none.yaml'],
                            ['-w', 'ROOT/rules/broken.yaml']],
}
WORLDS = ['good', 'one broken', 'one missing', 'all missing',
          'broken list of sources', 'unknown spec', 'no sources',
          'cache is a file', 'broken configuration', 'unknown setting',
          'debug environment', 'home', 'prefix']


class Root(object):
    """Stands in for the execution context: the same place every time."""

    def __init__(self, root):
        self.root = root

    def tmp(self):
        return self.root


def build(root, world, updated):
    """The world at ``root``; the options that select it."""
    site = Site(Root(root))
    for d in ('x', 'x/sources.d', 'other.d'):
        os.mkdir(os.path.join(root, d))
    x = os.path.join(root, {'home': 'home/.config/xylem',
                            'prefix': 'pre/etc/xylem'}.get(world, 'x'))
    site.write_rules('r', RULES)
    site.write_rules('broken', 'k: [')
    site.sources_dir = os.path.join(root, 'other.d')
    site.write_sources('10.yaml', ['r'])
    site.sources_dir = os.path.join(x, 'sources.d')
    os.makedirs(site.sources_dir, exist_ok=True)
    site.write_sources('10.yaml', {
        'one broken': ['r', 'broken'], 'one missing': ['none', 'r'],
        'all missing': ['none', 'none2']}.get(world, ['r']))
    config = {'installer_options': {'apt': {'as_root': False},
                                    'pip': {'as_root': False}},
              'os_override': 'ubuntu:trusty'}
    text = None
    if world == 'broken list of sources':
        with open(os.path.join(site.sources_dir, '20.yaml'), 'w') as f:
            f.write('- rules: [')
    elif world == 'unknown spec':
        with open(os.path.join(site.sources_dir, '20.yaml'), 'w') as f:
            f.write('- norules: x\n')
    elif world == 'no sources':
        shutil.rmtree(site.sources_dir)
    elif world == 'broken configuration':
        text = 'os_override: ['
    elif world == 'unknown setting':
        config['nosuch'] = 1
    with open(os.path.join(x, 'config.yaml'), 'w') as f:
        f.write(text or json.dumps(config))
    opts = {'home': ['--user-sources', 'yes'],
            'prefix': ['--prefix', os.path.join(root, 'pre')]}.get(
                world, ['--xylem-dir', x])
    if updated:
        with open(os.path.join(x, 'config.yaml'), 'w') as f:
            f.write('{}')
        cli.run(opts + ['update'])
        with open(os.path.join(x, 'config.yaml'), 'w') as f:
            f.write(text or json.dumps(config))
    if world == 'cache is a file':
        shutil.rmtree(os.path.join(x, 'cache'), True)
        with open(os.path.join(x, 'cache'), 'w') as f:
            f.write('a file')
    return opts


class Around(object):
    """Home, working directory, environment, terminal pager."""

    def __init__(self, root, world):
        self.root, self.world = root, world

    def __enter__(self):
        self.saved = (dict(os.environ), os.getcwd(), pydoc.pager)
        self.umask = os.umask(0o22)
        env.set_home(os.path.join(self.root, 'home'))
        os.chdir(os.path.join(self.root, 'work'))
        os.environ.pop('XYLEM_DEBUG', None)
        if self.world == 'debug environment':
            os.environ['XYLEM_DEBUG'] = '1'
        pydoc.pager = lambda text: sys.stdout.write(text)

    def __exit__(self, *a):
        environ, cwd, pydoc.pager = self.saved
        os.umask(self.umask)
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(environ)
        env.set_home(environ['HOME'])


def files(root):
    """All files; contents of caches carry the time."""
    out = snapshot(root)
    for k, (kind, mode, content) in list(out.items()):
        if 'cache' in k.split(os.sep)[:-1] or 'othercache' in k:
            del out[k]
            #  an interrupt may leave a temporary file
            k = re.sub(r'\.\w+\.tmp$', '.tmp', k)
            out[k] = (kind, mode, content is not None and bool(content))
    return out


def text(s):
    s = re.sub(r'0x[0-9a-f]+', '0x', s)
    return re.sub('(\x1b\\[0m)+\\Z', '', s)


def usage(s):
    """Output without the usage paragraph and what calls the program by
    name."""
    if not re.match(r'(?s)\s*usage:', s):
        return None, s
    m = re.search(r'\S+: error: ', s)
    if m:
        return 'error', s[m.end():]
    _head, _, rest = s.partition('\n\n')
    return 'help', rest


def tracebacks(s):
    """Where code is may differ, the errors may not."""
    if 'Traceback (most recent call last)' not in s:
        return s
    return [l for l in env.strip_ansi(s).splitlines()
            if not l.startswith(' ')]


def escaped(r):
    return r.exc and r.exc.strip().splitlines()[-1]


def play(c, root, world, updated, cmd, args, own, during=None):
    env.plugins.reset()
    shutil.rmtree(root, True)
    for d in ('home', 'work'):
        os.makedirs(os.path.join(root, d))
    with Around(root, world):
        env.procs.reset(lambda argv: (0, b'', b''))
        opts = build(root, world, updated)
        before = files(root)
        del env.procs.calls[:]
        line = opts + args
        kw = {'during': during} if during else {}
        r = cli.run(line, own=cmd, **kw) if own else \
            cli.run([cmd] + line, **kw)
        out = (r.code, usage(text(r.out)), usage(text(r.err)),
               bool(r.exc), files(root), list(env.procs.calls))
        #  what another program sees of the cache
        probe = cli.run(opts + ['--os', 'ubuntu:trusty', 'resolve', '--all', 'k'])
        env.procs.reset(None)
    return r, out, (probe.code, probe.out), before


def same(c, what, one, two):
    r1, a, probe1, _ = one
    r2, b, probe2, before = two
    c.eq(escaped(r2), escaped(r1), what + ': escaped')
    c.eq(b[0], a[0], '%s: exit status (%r)' % (what, r2))
    for i, n in ((1, 'output'), (2, 'error output')):
        c.eq(b[i][0], a[i][0], '%s: kind of %s' % (what, n))
        c.eq(tracebacks(b[i][1]), tracebacks(a[i][1]), '%s: %s' % (what, n))
    if b[4] != a[4]:
        bad = sorted(k for k in set(a[4]) | set(b[4])
                     if a[4].get(k) != b[4].get(k))
        c.check(False, '%s: other files: %r', what, bad)
    c.eq(b[5], a[5], what + ': programs run')
    c.eq(probe2, probe1, what + ': resolving afterwards')


def combinations(n):
    out = []
    for k in range(n + 1):
        out += [list(x) for x in itertools.combinations(OPTIONS, k)]
    return out


def h_programs(tier):
    deep = tier != 'quick'
    combos = combinations(2)
    few = combinations(1)

    def fn(c):
        cmd = c.pick(sorted(OWN, key=lambda k: k != 'update'), 'command')
        args = OWN[cmd][c.choose(len(OWN[cmd]), 'arguments')]
        world = c.pick(WORLDS, 'world')
        updated = c.flag('updated before') if cmd != 'update' or deep \
            else False
        main = deep or (cmd == 'update' and world in ('good', 'one broken'))
        options = c.pick(combos if main else few, 'options')
        if not deep and cmd != 'update' and options and world != 'good':
            c.prune()
        front = c.flag('options first') if deep and options and args else True
        flat = [x for o in options for x in o]
        line = flat + args if front else args + flat
        root = os.path.join(c.tmp(), 'w')
        line = [a.replace('ROOT', root) for a in line]
        one = play(c, root, world, updated, cmd, line, False)
        two = play(c, root, world, updated, cmd, line, True)
        what = 'xylem-%s %s (%s, %supdated before)' % (
            cmd, ' '.join(line), world, '' if updated else 'not ')
        same(c, what, one, two)
        c.state((cmd, world, two[1][0]))
        c.observe('%s %s %r %r' % (cmd, world, two[1][0], two[1][1][1]))
    return Harness('programs', fn, split=3, note='every command on its own '
                   'and as a command of xylem, in all worlds, with up to two '
                   'options')


def h_interrupted():
    library = ['xylem/update.py', 'xylem/sources/database.py',
               'xylem/sources/impl.py', 'xylem/install.py',
               'xylem/resolve.py', 'xylem/lookup.py',
               'xylem/sources/rules_dict.py']
    lines = {'update': [], 'lookup': ['k'], 'resolve': ['k', 'j'],
             'install': ['--reinstall', 'j', 'k']}
    counts = {}

    def fn(c):
        cmd = c.pick(sorted(lines), 'command')
        root = os.path.join(c.tmp(), 'w')
        if cmd not in counts:
            i = Interrupt(library)
            play(c, root, 'good', cmd != 'update', cmd, lines[cmd], False, i)
            counts[cmd] = sorted(i.firsts.values())
        n = c.pick(counts[cmd], 'interrupted line')
        one = play(c, root, 'good', cmd != 'update', cmd, lines[cmd], False,
                   Interrupt(library, n))
        i = Interrupt(library, n)
        two = play(c, root, 'good', cmd != 'update', cmd, lines[cmd], True, i)
        what = 'xylem-%s interrupted at %s' % (cmd, i.where)
        c.event(what)
        c.check(two[0].code != 0, '%s: %r', what, two[0])
        same(c, what, one, two)
        c.observe('%s %s' % (cmd, i.where))
    return Harness('interrupted', fn, split=2, note='an interrupt at the '
                   'first execution of every line of the library')


def harnesses(tier):
    return [h_programs(tier), h_interrupted()]
