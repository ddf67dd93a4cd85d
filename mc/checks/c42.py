"""C42: asking never changes anything."""

import json
import os
import pydoc
import sys

from mc.engine import Harness
from mc import cli, env
from mc.fullstack import Site, snapshot
from mc.watch import Watch

PROPERTY = 'C42'
ASSUMPTIONS = [
    'changes that keep name, mode and content of every file (e.g. access '
    'times) are not counted as changes; listing or locating programs and '
    'asking for versions is no change',
]

RULES = {
    'k': {'ubuntu': {'any_version': {'apt': {'packages': ['p', 'q']}}},
          'osx': {'any_version': {'homebrew': {'packages': ['p']},
                                  'macports': {'packages': ['pm']}}}},
    'j': {'any_os': {'any_version': {'pip': {'packages': ['jp']}}}},
    'f': {'ubuntu': {'any_version': {'fake': {'packages': ['fp', 'fq']}}}},
}
#  words of command lines that change the system
CHANGING = {'install', 'uninstall', 'reinstall', 'update', 'upgrade', 'remove',
            'selfupdate', 'sudo', 'rm', 'mkdir', 'touch', 'mv', 'cp', 'tee',
            'link', 'purge', 'add-apt-repository', 'tap', 'curl', 'ruby'}

COMMANDS = [
    ['resolve', 'k'], ['resolve', 'k', 'missing'], ['resolve', '--all', 'j'],
    ['resolve', '--show-default-installer', 'f', 'j'],
    ['lookup', 'k'], ['lookup', 'missing'], ['lookup', 'k', 'j'],
    ['install', '--dry-run', 'k'],
    ['install', '--dry-run', '--fix-prerequisites', 'j', 'k'],
    ['install', '--dry-run', '--reinstall', 'f', 'j'],
    ['FAKE', 'resolve', 'f', 'j'], ['FAKE', 'lookup', 'f'],
    ['FAKE', 'install', '--dry-run', 'f'],
    ['FAKE', 'install', '--dry-run', '--fix-prerequisites', 'j', 'f'],
    ['install', '--dry-run', '--continue-on-error', 'missing', 'k'],
    ['install', '--dry-run', '--all', '--fix-prerequisites',
     '--continue-on-error', 'k'],
    ['update', '-n'], ['update', '--dry-run'],
    ['--print-config', 'update'], ['--print-config', 'install', 'k'],
    ['update', '-h'], ['install', '--help'], ['-h'], ['--version'],
    ['frob'], ['install'], ['install', '--dry-run', '--frob', 'k'],
    ['_compact_rules_file', 'RULES'], ['_compact_rules_file', 'MISSING'],
]


def h_commands(commands, deep):
    def fn(c):
        args = list(commands[c.choose(len(commands), 'command')])
        os_name = c.pick(['ubuntu:trusty', 'osx:lion'], 'os')
        cache = c.pick(['none', 'filled', 'corrupt', 'foreign file'], 'cache')
        where = c.pick(['xylem-dir', 'environment', 'home', 'prefix',
                        'options'], 'directories')
        sources = c.pick(['one', 'broken', 'missing'], 'sources')
        flags = c.pick([[], ['-v'], ['-d'], ['--no-color', '-v']] if deep else
                       [[], ['-v'], ['-d']], 'flags')
        progs = c.pick(['there', 'failing', 'missing'], 'programs')
        if not deep and sum((cache != 'filled', where != 'xylem-dir',
                             sources != 'one', flags != [],
                             progs != 'there')) > 2:
            c.prune()
        site = Site(c)
        root = site.root
        home = os.path.join(root, 'home')
        work = os.path.join(root, 'work')
        tmp = os.path.join(root, 'tmp')
        for d in (home, work, tmp):
            os.mkdir(d)
        env.plugins.reset()
        env.procs.reset(lambda argv: (0, b'', b''))
        saved_env = dict(os.environ)
        saved_cwd = os.getcwd()
        import tempfile
        saved_tmp = tempfile.tempdir
        saved_pager = pydoc.pager
        saved_argv = sys.argv
        try:
            env.set_home(home)
            os.chdir(work)
            os.environ['TMPDIR'] = tempfile.tempdir = tmp
            pydoc.pager = lambda text: None
            opts = {'xylem-dir': ['--xylem-dir', os.path.join(root, 'x')],
                    'environment': [], 'options': [
                        '--sources-dir', site.sources_dir,
                        '--cache-dir', site.cache_dir],
                    'home': ['--user-sources', 'yes'],
                    'prefix': ['--prefix', os.path.join(root, 'pre')]}[where]
            conf, cachedir = {
                'xylem-dir': ('x', 'x/cache'), 'environment': ('x', 'x/cache'),
                'home': ('home/.config/xylem', 'home/.config/xylem/cache'),
                'prefix': ('pre/etc/xylem', 'pre/var/cache/xylem'),
                'options': ('.', 'cache')}[where]
            if where == 'environment':
                os.environ['XYLEM_DIR'] = os.path.join(root, 'x')
            site.sources_dir = os.path.join(root, conf, 'sources.d')
            os.makedirs(site.sources_dir)
            site.write_sources('10.yaml', ['r'])
            site.write_rules('r', RULES)
            opts = opts + ['--os', os_name]
            if cache in ('filled', 'corrupt'):
                r = cli.run(opts + ['update'])
                c.check(r.code == 0 and r.exc is None and
                        not r.err.strip(), 'update: %r', r)
                d = os.path.join(root, cachedir, 'sources')
                if cache == 'corrupt':
                    for f in os.listdir(d):
                        with open(os.path.join(d, f), 'w') as fh:
                            fh.write('junk')
            elif cache == 'foreign file':
                p = os.path.join(root, cachedir)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as fh:
                    fh.write('a file in place of the cache')
            if sources == 'broken':
                site.write_rules('r', 'k: [')
            elif sources == 'missing':
                site.remove_rules('r')

            def handler(argv):
                if progs == 'missing':
                    raise OSError(2, 'No such file or directory')
                return (0 if progs == 'there' else 1), b'', b''
            env.procs.reset(handler)
            args = [site.rules_path('r') if a == 'RULES' else
                    site.rules_path('nope') if a == 'MISSING' else a
                    for a in args]
            if args[0] == 'FAKE':
                args[:1] = ['--core-installers', 'fake,pip',
                            '--installer-options', 'fake: {install_dir: %s}' %
                            os.path.join(root, 'inst')]
            line = flags + opts + args
            before = snapshot(root)
            before_env = dict(os.environ)
            with Watch() as changes:
                r = cli.run(line)
            what = 'xylem %s (cache %s, sources %s, programs %s)' % (
                ' '.join(line), cache, sources, progs)
            after = snapshot(root)
            if after != before:
                bad = sorted(k for k in set(after) | set(before)
                             if after.get(k) != before.get(k))
                c.check(False, '%s: changed %r', what, bad)
            c.eq(changes, [], what + ': operations that change files')
            c.eq(dict(os.environ), before_env, what + ': environment')
            c.eq(os.getcwd(), work, what + ': working directory')
            for argv, _shell in env.procs.calls:
                words = argv.split() if isinstance(argv, str) else list(argv)
                c.check(not CHANGING & set(os.path.basename(w)
                                           for w in words),
                        '%s: runs %r', what, argv)
            c.check(r.code is not None, what)
            c.state((r.code, bool(r.exc), args))
            c.observe('%s %s %r' % (r.code, args[:1],
                                    [a for a, _ in env.procs.calls]))
        finally:
            pydoc.pager = saved_pager
            sys.argv = saved_argv
            os.chdir(saved_cwd)
            tempfile.tempdir = saved_tmp
            os.environ.clear()
            os.environ.update(saved_env)
            env.set_home(saved_env['HOME'])
    return Harness('commands', fn, split=3, note='every command that only '
                   'asks, in all worlds that differ in %s respects from the '
                   'usual one' % ('all' if deep else 'up to two'))


def harnesses(tier):
    return [h_commands(COMMANDS, tier != 'quick')]
