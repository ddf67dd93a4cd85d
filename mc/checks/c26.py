"""C26: Install runs exactly the needed commands in order."""

import os

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import mem_database
from mc.installworld import Expected, World, KEYS
from mc.sizes import names, sizes

PROPERTY = 'C26'
LOUD = ('argv', 'fake', 'names')
ASSUMPTIONS = [
    'no two requested keys resolve to the same package of one installer',
    'exit status and effect of every command are scripted; commands are '
    'recorded, not executed',
]


def requests(keys, n):
    """All sequences of up to n distinct keys."""
    out = [[]]
    for r in out:
        if len(r) < n:
            out.extend(r + [k] for k in keys if k not in r)
    return out


def packages(req):
    return [p for k in req for p in KEYS[k][1]]


def same_commands(c, w, want, what):
    c.eq(w.executed, want, what + ': commands')
    for argv, shell in env.procs.calls:
        c.check(not shell and isinstance(argv, (list, tuple)),
                '%s: %r runs in a shell', what, argv)


def h_commands(keys, n):
    reqs = requests(keys, n)

    def fn(c):
        req = reqs[c.choose(len(reqs), 'request')]
        layout = c.pick(['each', 'batch', 'two'], 'layout')
        installed = c.subset(packages(req), 'installed')
        reinstall = c.flag('reinstall')
        interactive = c.flag('not interactive') is False
        cont = c.flag('continue')
        w = World(c, installed, layout)
        st, v = w.install(req, reinstall=reinstall, interactive=interactive,
                          continue_on_error=cont)
        what = 'install(%r) with %r installed (%s, reinstall=%r)' % (
            req, installed, layout, reinstall)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        e = Expected(req, installed, layout, reinstall, interactive, cont)
        same_commands(c, w, e.commands, what)
        c.eq([len(x) for x in v], [0, 0], '%s: errors %r' % (what, v))
        c.check(not w.prompts, '%s: prompts %r', what, w.prompts)
        c.check(set(packages(req)) <= w.installed, '%s: not installed', what)
        # everything is checked before anything runs, in order
        kinds = [x[0] for x in w.calls]
        first = kinds.index('run') if 'run' in kinds else len(kinds)
        c.check('general' not in kinds[first:] and
                'prepare' not in kinds[first:] and
                'filter' not in kinds[first:], '%s: %r', what, w.calls)
        # installing again does nothing, unless reinstalling
        env.procs.reset(w.handler)
        st, v = w.install(req, reinstall=reinstall, interactive=interactive,
                          continue_on_error=cont)
        e = Expected(req, w.installed, layout, reinstall, interactive, cont)
        same_commands(c, w, e.commands, what + ', again')
        c.eq((st, [len(x) for x in v]), ('ok', [0, 0]), what + ', again')
        c.observe(repr(e.commands))
    return Harness('commands', fn, split=2,
                   note='all sequences of up to %d out of %d keys of three '
                   'installers, all sets of installed packages, command '
                   'layouts and flags; each request twice' % (n, len(keys)))


OUTCOMES = ['ok', 'fail', 'liar', 'oserror', 'latekill', 'partial', 'killed',
            'fail127', 'late']


def h_outcomes(keys, n, bound, outcomes, distinct=True):
    reqs = requests(keys, n)

    def fn(c):
        req = reqs[c.choose(len(reqs), 'request')]
        layout = c.pick(['each', 'batch', 'two'], 'layout')
        installed = [] if c.flag('none installed') else [
            p for p in packages(req) if p in ('p-one', 'p-four')]
        reinstall = c.flag('reinstall')
        cont = c.flag('continue')
        w = World(c, installed, layout, outcome=lambda argv: outcomes[
            c.deviate(len(outcomes), ' '.join(argv))])
        st, v = w.install(req, reinstall=reinstall, continue_on_error=cont)
        what = ('install(%r) with %r installed (%s, reinstall=%r, continue=%r)'
                ', outcomes %r' % (req, installed, layout, reinstall, cont,
                                   w.decisions))
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        e = Expected(req, installed, layout, reinstall, True, cont,
                     w.outcomes)
        same_commands(c, w, e.commands, what)
        c.eq(w.installed, e.installed, what + ': installed packages')
        c.event(repr(w.decisions))
        c.observe('%r %r' % (e.commands, w.decisions))
    return Harness('outcomes', fn, split=3, bound=bound,
                   note='all outcomes of the executed commands with at most '
                   '%d failing ones, with and without continue_on_error' %
                   bound)


TRICKY = ['-x', 'a b', '$(touch x)', ';reboot', '*', '"q"', "'", '@{rb}',
          '@!', '%s', '{0}', '\\', '\n', '\u65e5\u672c', '', '~', '&', '|', 't/R/p@1', 'p==1,q']


def h_argv():
    def fn(c):
        i = c.choose(len(TRICKY), 'first')
        j = c.choose(len(TRICKY), 'second')
        layout = c.pick(['each', 'batch', 'two'], 'layout')
        ps = [TRICKY[i]] + ([TRICKY[j]] if i != j else [])
        keys = {'k': ('a', ps[:1]), 'l': ('a', ps[1:])}
        w = World(c, [], layout, keys=keys)
        out = c.pick(['ok', 'fail'], 'outcome')
        w.outcome = lambda argv: out
        st, v = w.install(['k', 'l'], continue_on_error=True)
        what = 'install packages %r' % ps
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        e = Expected(['k', 'l'], [], layout, known=keys, cont=True,
                     decisions=w.outcomes)
        same_commands(c, w, e.commands, what)
        for cmd in e.commands:
            c.check(' '.join(cmd) in w.out, '%s: command %r is not shown '
                    'in %r', what, cmd, w.out)
        c.observe(repr(e.commands))
    return Harness('argv', fn, note='all pairs of package names with special '
                   'characters')


NAMES = [('pip', 'pip3', 'pi'), ('pip3', 'pip', 'PIP'), ('apt', 'Apt', 'apt'
         '-get'), ('ab', 'b', 'a'), ('e', '\xe9', 'E'), ('0', '00', '1'),
         ('None', 'none', 'True'), ('a', 'a.b', 'a-b')]


def h_names(n):
    """Installers whose names resemble each other."""
    reqs = requests(sorted(set(KEYS) - {'k0'}), n)

    def fn(c):
        names = c.pick(NAMES, 'names')
        req = c.pick(reqs, 'request')
        layout = c.pick(['each', 'batch'], 'layout')
        keys = {k: (names['abc'.index(i)], ps) for k, (i, ps) in KEYS.items()}
        w = World(c, [], layout, keys=keys, names=names)
        st, v = w.install(req)
        what = 'install(%r) with installers %r' % (req, names)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        e = Expected(req, [], layout, known=keys)
        same_commands(c, w, e.commands, what)
        c.eq([len(x) for x in v], [0, 0], '%s: errors %r' % (what, v))
        c.observe(repr(e.commands))
    return Harness('names', fn, split=2, note='installers whose names are '
                   'parts or variants of each other')


def h_fake():
    """The real fake installer in a scratch directory."""
    def fn(c):
        from xylem.installers.plugins.fake import FakeInstaller
        from xylem.installers import InstallerContext
        from xylem.install import install
        root = c.tmp()
        d = os.path.join(root, 'inst')
        os.mkdir(d)
        there = c.subset(['p', 'q', 'other'], 'installed')
        for p in there:
            open(os.path.join(d, p), 'w').close()
        stubs.platform([stubs.make_os('ubuntu', versions=['v1'],
                                      detected='v1', core=['fake', 'z'],
                                      default='fake')],
                       [FakeInstaller, stubs.make_installer('z')])
        db = mem_database([{k: {'ubuntu': {'any_version': {'fake': {
            'packages': ps}}}} for k, ps in
            [('k', ['p']), ('l', ['q', 'r'])]}])
        cfg = stubs.config(installer_options={'fake': {'install_dir': d}})
        broken = c.pick([None, 'p', 'r'], 'touch fails for')
        ran = []

        def touch(argv):
            if argv == ['touch']:       # availability check
                return 1, b'', b'usage'
            ran.append(list(argv))
            path = argv[-1]
            assert argv[0] == 'touch' and os.path.dirname(path) == d, argv
            if os.path.basename(path) == broken:
                return 1, b'', b''
            open(path, 'w').close()
            return 0, b'', b''
        req = c.pick([['k'], ['l'], ['k', 'l'], ['l', 'k']], 'request')
        re, cont = c.flag('reinstall'), c.flag('continue')
        want, good = [], set(there)
        for k in req:
            for p in {'k': ['p'], 'l': ['q', 'r']}[k]:
                if p not in there or re:
                    want.append(p)
        if broken in want and not cont:
            want = want[:want.index(broken) + 1]
        env.procs.reset(touch)
        with env.capture():
            ic = InstallerContext(config=cfg)
            st, v = c.call(install, req, config=cfg, database=db,
                           installer_context=ic, reinstall=re,
                           continue_on_error=cont)
        what = 'install(%r), %r there, %r broken' % (req, there, broken)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        c.eq(ran, [['touch', os.path.join(d, p)] for p in want], what)
        c.eq(sorted(os.listdir(d)), sorted(set(there) | {
            p for p in want if p != broken}), what + ': installed')
        c.eq(bool(v[1]), broken in want, '%s: errors %r' % (what, v))
        c.observe(repr(want))
    return Harness('fake', fn, note='the real fake installer with its '
                   'directory in a scratch directory')


def many(n, shape):
    """-> ({key: (installer, packages)}, request)"""
    ps = names(n)
    if shape == 'packages':
        return {'k': ('a', ps)}, ['k']
    keys = {'k' + p: ('abc'[i % 3] if shape == 'alternating' else
                      'ab'[2 * i >= n], [p]) for i, p in enumerate(ps)}
    return keys, list(keys)


def h_sizes(tier):
    def fn(c):
        n = c.pick(sizes(tier), 'number of packages')
        keys, req = many(n, c.pick(['packages', 'alternating', 'halves'],
                                   'shape'))
        layout = c.pick(['each', 'batch', 'two'], 'layout')
        installed = {'none': [], 'all': names(n), 'every third': names(n)[::3],
                     'all but last': names(n)[:-1]}[c.pick(
                         ['none', 'all', 'every third', 'all but last'],
                         'installed')]
        reinstall = c.flag('reinstall')
        w = World(c, installed, layout, keys=keys)
        st, v = w.install(req, reinstall=reinstall)
        what = 'installing %d packages, %d installed (%s)' % (
            n, len(installed), layout)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        e = Expected(req, installed, layout, reinstall, known=keys)
        same_commands(c, w, e.commands, what)
        c.eq([len(x) for x in v], [0, 0], '%s: errors' % what)
        c.eq(w.installed, set(names(n)), what + ': installed')
        c.observe(repr((n, len(e.commands))))
    return Harness('sizes', fn, split=1, note='every number of packages up to '
                   '%d, and around round numbers up to %d' % (
                       24 if tier == 'quick' else 130, max(sizes(tier))))


def harnesses(tier):
    if tier == 'quick':
        return [h_commands(['k1', 'k2', 'k3', 'k4'], 3),
                h_outcomes(['k1', 'k2', 'k3'], 3, 2, OUTCOMES[:6]), h_argv(),
                h_fake(), h_names(2), h_sizes(tier)]
    return [h_commands(['k1', 'k2', 'k3', 'k4', 'k5', 'k0'], 4),
            h_outcomes(['k1', 'k2', 'k3', 'k4'], 4, 3, OUTCOMES), h_argv(),
            h_fake(), h_names(4), h_sizes(tier)]
