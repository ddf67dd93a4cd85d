"""C31: command-line exit status reflects the outcome."""

import json
import os
import re
import shutil

from mc.engine import Harness, REPO
from mc import cli, env, stubs
from mc.checks.c26 import requests
from mc.fullstack import Site, snapshot
from mc.interrupt import Interrupt
from mc.installworld import Expected, World, KEYS, MISSING
from mc.sizes import sizes, names
from mc.watch import Watch

PROPERTY = 'C31'
ASSUMPTIONS = [
    'update itself reports but tolerates sources that cannot be loaded (its '
    'exit status then is not part of the property)',
]

_SITE = {}


class OnceTmp(object):
    """Stands in for the execution context when building a shared site."""

    def __init__(self, path):
        self.path = path

    def tmp(self):
        shutil.rmtree(self.path, True)
        os.makedirs(self.path)
        return self.path


def shared_site(name, build):
    """A site with filled cache that executions only read."""
    key = (os.getpid(), name)
    if key not in _SITE:
        site = Site(OnceTmp(os.path.join(
            env.scratch(), 'c31-%s-%d' % (name, os.getpid()))))
        site.xdir = os.path.join(site.root, 'xdir')
        os.mkdir(site.xdir)
        build(site)
        _SITE[key] = site
    return _SITE[key]


def configure(site, **cfg):
    doc = dict({'sources_dir': site.sources_dir, 'cache_dir': site.cache_dir},
               **cfg)
    with open(os.path.join(site.xdir, 'config.yaml'), 'w') as f:
        json.dump(doc, f)


def run(site, *args, **kw):
    return cli.run(['--xylem-dir', site.xdir] + list(args), **kw)


def install_site():
    def build(site):
        site.write_sources('10.yaml', ['r'])
        site.write_rules('r', {
            k: {'ubuntu': {'any_version': {i: {'packages': ps}}}}
            for k, (i, ps) in KEYS.items()})
        configure(site, installer_options={
            n: {'as_root': False} for n in 'abc'})
        r = run(site, 'update')
        assert r.code == 0 and not r.exc, r
    return shared_site('install', build)


def clean(c, r, what, loud):
    """No traceback; problems are told on stderr."""
    c.check(r.exc is None and 'Traceback (most recent' not in r.err + r.out,
            '%s: traceback: %r', what, r)
    if loud:
        c.check(env.strip_ansi(r.err).strip() != '',
                '%s: nothing on stderr: %r', what, r)


def h_install(keys, n, bound):
    reqs = [r for r in requests(keys + [MISSING], n) if r]

    def fn(c):
        req = reqs[c.choose(len(reqs), 'request')]
        cont = c.flag('continue')
        reinstall = c.flag('reinstall')
        simulate = c.flag('dry run')
        installed = c.pick([[], ['p-one', 'p-three']], 'installed')
        w = World(c, installed, 'each', outcome=lambda argv: [
            'ok', 'fail', 'noop', 'oserror', 'latekill'][
                c.deviate(5, ' '.join(argv))])
        site = install_site()
        args = (['--continue-on-error'] if cont else []) + \
            (['--reinstall'] if reinstall else []) + \
            (['--dry-run'] if simulate else [])
        r = run(site, 'install', *(args + req))
        what = 'install %s (%r installed, outcomes %r)' % (
            ' '.join(args + req), installed, w.decisions)
        e = Expected(req, installed, 'each', reinstall, True, cont,
                     w.outcomes, simulate=simulate)
        if simulate:
            # later checks of the outcome do not apply
            e.failed, e.groups_failed = set(), set()
            c.eq(w.executed, [], what + ': commands')
        else:
            c.eq(w.executed, e.commands, what + ': commands')
        bad = bool(e.resolve_errors or e.failed or e.groups_failed)
        clean(c, r, what, bad)
        c.eq(r.code != 0, bad, '%s: exit status %r, stderr %r' % (
            what, r.code, r.err))
        err = env.strip_ansi(r.err)
        for k in e.resolve_errors:
            c.check(k in err, '%s: failure of %s is not shown in %r', what, k,
                    err)
        for p in e.failed:
            c.check(p in err, '%s: failure of %s is not shown in %r', what, p,
                    err)
        c.observe('%r %r %r' % (r.code, sorted(e.failed), e.resolve_errors))
    return Harness('install', fn, split=3, bound=bound,
                   note='all request lists of up to %d keys, all options, at '
                   'most %d commands failing' % (n, bound))


def h_install_all():
    def fn(c):
        cont = c.flag('continue')
        req = c.pick([['k1'], ['k3', MISSING]], 'request')
        bad = c.pick([None, 'p-one', 'p-two', 'p-four', 'p-six'], 'failing')
        w = World(c, [], 'each', outcome=lambda argv: 'fail'
                  if bad in argv else 'ok')
        args = ['--all'] + (['--continue-on-error'] if cont else [])
        r = run(install_site(), 'install', *(args + req))
        what = 'install %s, %r fails' % (args + req, bad)
        e = Expected(list(dict.fromkeys(req + sorted(KEYS))), [], 'each',
                     cont=cont, decisions=w.outcomes)
        c.eq(w.executed, e.commands, what + ': commands')
        clean(c, r, what, r.code)
        c.eq(r.code != 0, bool(e.resolve_errors or e.failed), '%s: exit '
             'status %r' % (what, r.code))
        c.observe('%r %r' % (r.code, len(w.executed)))
    return Harness('install all', fn, note='all keys, every failing package')


RULES = {
    'first': {'ubuntu': {'any_version': {'a': {'packages': ['p-a', 'q-a']},
                                         'b': {'packages': ['p-b']}}}},
    'second': {'ubuntu': {'any_version': {'b': {'packages': ['p-b2']}}}},
    'third': {'any_os': {'c': {'packages': ['p-c']}}},
    'default': {'ubuntu': {'any_version': {
        'default_installer': {'packages': ['p-d']}}}},
    'broken': {'ubuntu': {'any_version': {'a': {'packages': []}}}},
    'noinst': {'ubuntu': {'any_version': {'z': {'packages': ['p-z']}}}},
    'other': {'fedora': {'any_version': {'a': {'packages': ['p-f']}}}},
}
PLAN = {'first': ('a', ['p-a', 'q-a']), 'second': ('b', ['p-b2']),
        'third': ('c', ['p-c']), 'default': ('a', ['p-d']),
        'broken': ('a', [])}


def query_site(c, default='a'):
    def build(site):
        site.write_sources('10.yaml', ['r'])
        site.write_rules('r', RULES)
        configure(site)
        stubs.platform([], [])
        r = run(site, 'update')
        assert r.code == 0 and not r.exc, r
    site = shared_site('query', build)
    stubs.platform([stubs.make_os('ubuntu', versions=['v1'], detected='v1',
                                  core=['a', 'b'], default=default)],
                   [stubs.make_installer(n, additional=n == 'c')
                    for n in 'abc'])
    env.procs.reset(None)
    return site


def h_resolve(n):
    reqs = [r for r in requests(sorted(RULES) + [MISSING], n) if r]

    def fn(c):
        req = reqs[c.choose(len(reqs), 'request')]
        every = c.flag('all')
        show = c.flag('show default installer')
        color = c.flag('color')
        default = c.pick(['a', 'b', None], 'default installer')
        site = query_site(c, default)
        args = (['--all'] if every else []) + (
            ['--show-default-installer'] if show else []) + (
            [] if color else ['--no-color'])
        r = run(site, 'resolve', *(args + req))
        what = 'resolve %s (default installer %r)' % (
            ' '.join(args + req), default)
        keys = list(dict.fromkeys(req + (
            sorted(set(RULES) - {'other'}) if every else [])))
        plan = dict(PLAN)
        plan['default'] = (default, ['p-d'])
        if default is None:
            del plan['default']
        lines, failed = [], []
        for k in keys:
            if k not in plan:
                failed.append(k)
                continue
            inst, ps = plan[k]
            lines.append('%s --> %s%s' % (
                k, inst + ': ' if show or inst != default else '',
                ', '.join(ps)))
        clean(c, r, what, failed)
        c.eq(r.code != 0, bool(failed), '%s: exit status %r, stderr %r' % (
            what, r.code, r.err))
        c.eq([x.rstrip() for x in env.strip_ansi(r.out).splitlines()
              if x.strip()], [x.rstrip() for x in lines], what)
        if not color:
            c.check('\033' not in r.out.rstrip() + r.err.rstrip(),
                    '%s: colors in %r', what, r)
        err = env.strip_ansi(r.err)
        for k in failed:
            c.check("'%s'" % k in err, '%s: failure of %s is not shown in %r',
                    what, k, err)
        for k in set(RULES) - set(failed):
            c.check("'%s'" % k not in err, '%s: %s is shown as failure in %r',
                    what, k, err)
        c.eq(env.procs.calls, [], what + ': commands')
        c.observe('%r %r' % (r.code, len(lines)))
    return Harness('resolve', fn, split=2,
                   note='all request lists of up to %d keys, all options' % n)


def h_lookup(n):
    from itertools import product
    keys = ['first', 'second', 'third', 'default', MISSING]
    reqs = [list(r) for m in range(1, n + 1)
            for r in product(keys, repeat=m)]

    def fn(c):
        from xylem.yaml_utils import load_yaml
        req = reqs[c.choose(len(reqs), 'request')]
        default = c.pick(['a', 'b', None], 'default installer')
        site = query_site(c, default)
        r = run(site, '--no-color', 'lookup', *req)
        what = 'lookup %s (default installer %r)' % (' '.join(req), default)
        bad = default is None and 'default' in req
        clean(c, r, what, bad)
        c.eq(r.code != 0, bad, '%s: exit status %r' % (what, r.code))
        shown = re.split('^Rules for ', r.out, flags=re.M)
        c.eq(shown[0].strip(), '', what)
        shown = shown[1:]
        ok = req[:req.index('default')] if bad else req
        if not bad:
            c.eq(len(shown), len(req), what + ': number of answers')
        for k, text in zip(ok, shown):
            head, body = text.split('\n', 1)
            c.check("'%s'" % k in head and 'ubuntu' in head and 'v1' in head,
                    '%s: %r', what, head)
            c.eq(meaning(load_yaml(body) or {}, default),
                 {i: x['packages'] for i, x in merged(k, default).items()},
                 what + ': rules of ' + k)
        if bad:
            c.check("'default'" in r.err, '%s: failing key is not shown in '
                    '%r', what, r.err)
        c.observe('%r %r' % (r.code, len(shown)))
    return Harness('lookup', fn, split=2,
                   note='all lists of up to %d keys' % n)


def merged(k, default):
    rule = RULES.get(k, {})
    out = dict(rule.get('any_os', {}))
    out.update(rule.get('ubuntu', {}).get('any_version', {}))
    if 'default_installer' in out:
        out[default] = out.pop('default_installer')
    return out


def meaning(rules, default):
    """Installer -> packages of a compact installer dict."""
    if not isinstance(rules, dict):
        rules = {default: rules}
    out = {}
    for i, x in rules.items():
        if isinstance(x, dict):
            x = x['packages']
        out[i] = x if isinstance(x, list) else [x]
    return out


USAGE = {
    'no command': [],
    'unknown command': ['frobnicate', 'k1'],
    'unknown option': ['--frob', 'resolve', 'first'],
    'unknown command option': ['resolve', '--frob', 'first'],
    'no key (resolve)': ['resolve'],
    'no key (install)': ['install'],
    'no key (lookup)': ['lookup'],
    'no value': ['resolve', 'first', '--cache-dir'],
    'extra argument': ['update', 'first'],
    'bad boolean': ['--use-additional-installers', 'maybe', None],
    'bad boolean after': [None, '--use-additional-installers', 'maybe'],
    'bad dict': ['--installer-options', '[', None],
    'bad os': ['--os', 'nonexistent:v1', None],
    'bad os version': ['--os', 'ubuntu:v7', None],
    'empty os': ['--os', '', None],
    'bad install from': ['--install-from', 'a: {b: c}', None],
}
FILES = {
    'not yaml': 'cache_dir: [',
    'no dict': '[1, 2]',
    'text': 'foo',
    'bad type': 'use_additional_installers: maybe',
    'bad nested': 'install_from: {a: {b: c}}',
    'bad utf-8': b'os_override: "\xff"',
    'bad os': 'os_override: nonexistent:v1',
    'bad option': 'installer_options: {a: {as_root: maybe}}',
    'bad options': 'installer_options: {a: 5}',
}
COMMANDS = [['resolve', 'first'], ['install', 'first'], ['lookup', 'first'],
            ['update']]


def h_errors():
    def fn(c):
        site = query_site(c)
        work = Site(c)
        work.xdir = os.path.join(work.root, 'xdir')
        os.mkdir(work.xdir)
        kind = c.pick(['usage', 'file', 'cache', 'file option'], 'error')
        before = snapshot(site.cache_dir)
        debug = []
        if kind == 'usage':
            name = c.pick(sorted(USAGE), 'usage')
            args = USAGE[name]
            if None in args:
                cmd = COMMANDS[c.choose(len(COMMANDS), 'command')]
                if cmd == ['update'] and 'os' in name:
                    c.prune()       # update does not depend on the OS
                i = args.index(None)
                args = args[:i] + cmd + args[i + 1:]
            with Watch() as changes:
                r = run(site, *args)
            what = 'xylem %s' % ' '.join(args)
        elif kind == 'cache':
            cmd = COMMANDS[c.choose(3, 'command')]
            work.write_sources('10.yaml', ['r'])
            work.write_rules('r', RULES)
            configure(work)
            with Watch() as changes:
                r = run(work, *cmd)
            what = 'xylem %s without cache' % ' '.join(cmd)
        else:
            name = c.pick(sorted(FILES), 'file')
            cmd = COMMANDS[c.choose(len(COMMANDS), 'command')]
            if cmd == ['update'] and name in ('bad os', 'bad option'):
                c.prune()
            text = FILES[name]
            if not isinstance(text, bytes):
                text = text.encode()
                if kind == 'file option' and '[' not in FILES[name] and \
                        ':' in FILES[name]:
                    text += ('\nsources_dir: %s\ncache_dir: %s\n' % (
                        site.sources_dir, site.cache_dir)).encode()
                elif kind == 'file option':
                    c.prune()
            elif kind == 'file option':
                c.prune()
            with open(os.path.join(work.xdir, 'config.yaml'), 'wb') as f:
                f.write(text)
            if kind == 'file':
                debug = ['--sources-dir', site.sources_dir, '--cache-dir',
                         site.cache_dir]
            with Watch() as changes:
                r = run(work, *(debug + cmd))
            what = 'xylem %s with config file %r' % (' '.join(debug + cmd),
                                                     text)
        c.eq(changes, [], what + ': operations that change files')
        c.eq(env.procs.calls, [], what + ': commands')
        c.check(r.code not in (0, None), '%s: exit status %r', what, r.code)
        if what == 'xylem ':
            clean(c, r, what, False)
            c.check('xylem' in r.out + r.err, '%s: no usage', what)
        else:
            clean(c, r, what, True)
        c.check(snapshot(site.cache_dir) == before, '%s: changed the cache',
                what)
        c.observe('%s %r' % (kind, r.code))
    return Harness('errors', fn, split=1,
                   note='%d kinds of invalid usage, %d invalid config files, '
                   'missing cache, for every command' % (
                       len(USAGE), len(FILES)))


def h_ok():
    """Whole sessions that succeed, and what they leave behind."""
    def fn(c):
        query_site(c)
        site = Site(c)
        site.xdir = os.path.join(site.root, 'xdir')
        os.mkdir(site.xdir)
        site.write_sources('10.yaml', ['r'])
        site.write_rules('r', {k: RULES[k] for k in PLAN if k != 'broken'})
        configure(site, installer_options={
            n: {'as_root': False} for n in 'abc'})
        steps = [['-h'], ['--version'], ['resolve', '-h'],
                 ['--print-config', 'update'], ['update', '-n'], ['update'],
                 ['update', '-v'], ['resolve', 'first'],
                 ['lookup', 'nothing'], ['install', '--dry-run', 'second'],
                 ['install', 'second'], ['-d', 'resolve', 'third']]
        env.procs.reset(lambda argv: (0, b'', b''))
        path = c.pick([[4, 5, 7], [5, 10, 11], [5, 6, 9, 7], [0], [1], [2],
                       [3, 5, 8], [5, 10, 10]], 'session')
        import pydoc
        saved, pydoc.pager = pydoc.pager, lambda text: None
        try:
            for i in path:
                r = run(site, *steps[i])
                bad = i == 10           # the package never gets installed
                c.check(r.exc is None, '%s: %r', steps[i], r)
                c.eq(r.code != 0, bad, 'xylem %s: exit status %r, %r' % (
                    ' '.join(steps[i]), r.code, r.err))
        finally:
            pydoc.pager = saved
        c.observe(repr([steps[i] for i in path]))
    return Harness('sessions', fn, note='sessions of up to 4 commands')


def h_interrupt():
    def fn(c):
        n = c.choose(3, 'interrupted command')
        exc = c.pick([KeyboardInterrupt, EOFError], 'interrupt')
        cont = c.flag('continue')
        done = []

        def outcome(argv):
            done.append(argv)
            if len(done) == n + 1:
                raise exc()
            return 'ok'
        w = World(c, [], 'each', outcome=outcome)
        args = (['--continue-on-error'] if cont else []) + ['k1', 'k2', 'k3']
        r = run(install_site(), 'install', *args)
        what = 'install %s, %s during command %d' % (
            ' '.join(args), exc.__name__, n)
        if exc is KeyboardInterrupt:
            clean(c, r, what, False)
            c.eq(len(w.executed), n + 1, what + ': commands')
        c.check(r.code != 0, '%s: exit status %r', what, r.code)
        c.observe('%d %s %r' % (n, exc.__name__, r.code))
    return Harness('interrupt', fn, note='interrupt in every command')


def library():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'xylem')):
        out += [os.path.join(d, f) for f in fs if f.endswith('.py')]
    return tuple(sorted(os.path.relpath(f, REPO) for f in out))


def h_interrupted(every):
    """Ctrl-C at every line (the first or every time) of every command."""
    files = library()
    counts = {}

    def fn(c):
        cmds = ['update', 'lookup', 'resolve', 'install']
        cmd = c.pick(cmds + ['resolve all', 'dry run'] if every else cmds,
                     'command')
        query_site(c)
        site = Site(c)
        site.xdir = os.path.join(site.root, 'xdir')
        os.mkdir(site.xdir)
        site.write_sources('10.yaml', ['r', 's'])
        for n, ks in (('r', ['first', 'third']), ('s', ['second'])):
            site.write_rules(n, {k: RULES[k] for k in ks})
        configure(site, installer_options={
            n: {'as_root': False} for n in 'abc'})
        env.procs.reset(lambda argv: (0, b'', b''))
        args = {'update': ['update'], 'lookup': ['lookup', 'first'],
                'resolve': ['resolve', 'second', 'first'],
                'resolve all': ['resolve', '--all'],
                'install': ['install', '--reinstall', 'first', 'second'],
                'dry run': ['install', '--dry-run', '--reinstall',
                            'first']}[cmd]
        if cmd != 'update':
            r = run(site, 'update')
            assert r.code == 0 and not r.exc, r

        if cmd not in counts:
            with env.capture():
                i = Interrupt(files)
                run(site, *args, during=i)
            counts[cmd] = list(range(1, 1 + i.count)) if every else \
                sorted(i.firsts.values())
        i = Interrupt(files, c.pick(counts[cmd], 'interrupted line'))
        r = run(site, *args, during=i)
        what = 'xylem %s interrupted at %s' % (' '.join(args), i.where)
        c.event(what)
        c.check(r.code != 0, '%s: exit status %r', what, r.code)
        c.observe('%s %s' % (cmd, i.where))
    return Harness('interrupted', fn, split=2, note='the user interrupts at '
                   'every line of the library, ' + (
                       'every time' if every else 'the first time') +
                   ' it is executed')


def h_own_command():
    """Commands added by other packages, however they end."""
    def fn(c):
        from xylem.exception import XylemError, XylemInternalError
        ends = [('none', None, 0), ('zero', 0, 0), ('one', 1, 1),
                ('three', 3, 3), ('interrupt', KeyboardInterrupt(), 1),
                ('eof', EOFError(), 1), ('error', XylemError('the-cause'), 1),
                ('internal', XylemInternalError('the-cause'), 1),
                ('os', OSError(5, 'the-cause'), 1),
                ('exit', SystemExit(4), 4), ('exit zero', SystemExit(0), 0),
                ('exit none', SystemExit(), 0)]
        name, end, code = ends[c.choose(len(ends), 'end')]
        debug = c.flag('debug')

        def main(args):
            if isinstance(end, BaseException):
                raise end
            return end
        World(c, [], 'each')
        site = install_site()
        env.plugins.script('xylem.commands', [('own', dict(
            title='own', description='own', main=main,
            prepare_arguments=lambda parser: parser,
            prepare_config=lambda description: None))])
        try:
            r = run(site, *((['-d'] if debug else []) + ['own']))
        finally:
            del env.plugins.groups['xylem.commands']
        what = 'command that ends with %r (debug %r)' % (end, debug)
        c.check(r.exc is None, '%s: %r', what, r)
        c.eq(bool(r.code), bool(code), what + ': exit status')
        c.eq('the-cause' in r.err, name in ('error', 'internal', 'os'),
             what + ': message in %r' % r.err)
        if not debug and name != 'internal':
            c.check('Traceback' not in r.err + r.out, '%s: traceback in %r',
                    what, r)
        c.observe('%s %r' % (name, r.code))
    return Harness('own command', fn, note='every way a command can end')


def h_sizes(tier):
    """Many keys on the command line, of which many or few fail."""
    def fn(c):
        limit = 260 if tier == 'quick' else 520
        n = c.pick(sizes(tier, limit)[1:], 'number of keys')
        bad = {'all': range(n), 'none': [], 'first': [0], 'last': [n - 1],
               'every third': range(0, n, 3)}[
                   c.pick(['all', 'none', 'first', 'last', 'every third'],
                          'failing')]
        command = c.pick(['resolve', 'install', 'continue', 'commands fail'],
                         'command')
        keys = names(n, 'key')
        rules = {k: ('ab'[i % 2 if command == 'resolve' else 0],
                     ['p' + k]) for i, k in enumerate(keys)
                 if i not in bad or command == 'commands fail'}

        def build(site):
            site.write_sources('10.yaml', ['r'])
            configure(site, installer_options={
                x: {'as_root': False} for x in 'abc'})
        site = shared_site('sizes', build)
        site.write_rules('r', {k: {'ubuntu': {'any_version': {i: {
            'packages': ps}}}} for k, (i, ps) in rules.items()})
        fails = ['p' + keys[i] for i in bad] \
            if command == 'commands fail' else []
        w = World(c, [], 'each', outcome=lambda argv: 'fail'
                  if argv[-1] in fails else 'ok')
        r = run(site, 'update')
        c.check(r.code == 0 and not r.err.strip(), 'update: %r', r)
        what = '%s of %d keys, failing %r' % (command, n, list(bad)[:3])
        args = {'resolve': ['resolve'], 'install': ['install'],
                'continue': ['install', '--continue-on-error'],
                'commands fail': ['install', '--continue-on-error']}[command]
        r = run(site, *(['--no-color'] + args + keys))
        clean(c, r, what, bad)
        c.eq(r.code != 0, bool(bad), '%s: exit status %r, stderr %r' % (
            what, r.code, r.err[:300]))
        for i in bad:
            c.check(keys[i] in r.err, '%s: failure of %s is not shown in %r',
                    what, keys[i], r.err)
        good = [k for i, k in enumerate(keys) if i not in bad]
        for k in good:
            c.check(k not in r.err, '%s: %s is shown as failure in %r', what,
                    k, r.err)
        if command == 'resolve':
            c.eq([x.split()[0] for x in r.out.splitlines() if '-->' in x],
                 good, what + ': shown')
        elif command == 'install' and bad:
            c.eq(w.executed, [], what + ': commands')
        else:
            todo = keys if command == 'commands fail' else good
            c.eq([a[-1] for a in w.executed], ['p' + k for k in todo],
                 what + ': commands')
        c.observe((n, len(bad), command))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    if tier == 'quick':
        return [h_install(['k1', 'k2', 'k3'], 2, 1), h_install_all(),
                h_resolve(2), h_lookup(2), h_errors(), h_ok(), h_interrupt(), h_own_command(),
                h_interrupted(False), h_sizes(tier)]
    return [h_install(['k1', 'k2', 'k3', 'k4'], 3, 2), h_install_all(),
            h_resolve(3), h_lookup(3), h_errors(), h_ok(), h_interrupt(), h_own_command(),
                h_interrupted(True), h_sizes(tier)]
