"""C35: global options work before and after the command."""

import copy

from mc.engine import Harness
from mc import cli, env, stubs
from mc.checks import c13, c31
from mc.fullstack import Site, snapshot

PROPERTY = 'C35'
ASSUMPTIONS = [
    'an option is given on one side of the command, or a scalar option on '
    'both sides (then the one after the command counts)',
]

MERGING = ('install_from', 'installer_options')


def doc(tag):
    """A config file that sets everything."""
    return {
        'os_override': 'ubuntu:v1' if tag in 'XS' else 'deb:v1',
        'os_options': {'features': ['f' + tag]},
        'core_installers': ['core' + tag],
        'use_additional_installers': tag in 'XU',
        'install_from': {'inst' + tag: ['k' + tag], 'all': [tag]},
        'installer_options': {'inst' + tag: {'o': tag}, 'all': {'o': tag}},
        'user_sources': tag in 'YS',
        'cache_dir': '/cache/' + tag,
        'sources_dir': '/sources/' + tag,
        'disabled_plugins': {'os': ['os' + tag], 'installer': ['i' + tag],
                             'spec': ['s' + tag]},
    }


# words of the option -> what it sets
CONFIG = [
    ('--os', 'ubuntu:v1', 'os_override', 'ubuntu:v1'),
    ('--os', 'deb:v1', 'os_override', 'deb:v1'),
    ('--os-features', 'x,y', 'os_options/features', ['x', 'y']),
    ('--os-features', '', 'os_options/features', []),
    ('--core-installers', 'p', 'core_installers', ['p']),
    ('--core-installers', '', 'core_installers', []),
    ('--use-additional-installers', 'no', 'use_additional_installers', False),
    ('--use-additional-installers', 'yes', 'use_additional_installers', True),
    ('--install-from', 'n: [k]', 'install_from', {'n': ['k']}),
    ('--install-from', 'all: []', 'install_from', {'all': []}),
    ('--installer-options', 'n: {o: 1}', 'installer_options', {'n': {'o': 1}}),
    ('--user-sources', 'yes', 'user_sources', True),
    ('--user-sources', 'no', 'user_sources', False),
    ('--cache-dir', '/c', 'cache_dir', '/c'),
    ('--sources-dir', '/s', 'sources_dir', '/s'),
    ('--disable-os-plugins', 'o1,o2', 'disabled_plugins/os', ['o1', 'o2']),
    ('--disable-os-plugins', '', 'disabled_plugins/os', []),
    ('--disable-installer-plugins', 'i1', 'disabled_plugins/installer',
     ['i1']),
    ('--disable-spec-plugins', 's1', 'disabled_plugins/spec', ['s1']),
]
GLOBAL = ['-v', '--verbose', '-d', '--debug', '--no-color', '--no-user-config',
          '--xylem-dir', '--prefix', '--print-config', '-vd', '--version']
SEEN = []


def probe(args):
    from xylem.config import get_config
    from xylem import log_utils, terminal_color
    cfg = get_config()
    SEEN.append({
        'config': normal({k: copy.deepcopy(plain(cfg[k]))
                          for k in doc('X')}),
        'verbose': bool(log_utils.is_verbose()),
        'debug': bool(log_utils.is_debug()),
        'color': terminal_color.ansi('reset') != '',
        'flag': args.flag, 'value': args.value, 'keys': args.keys,
    })


def normal(cfg):
    if isinstance(cfg['os_override'], (list, tuple)):
        cfg['os_override'] = ':'.join(cfg['os_override'])
    return cfg


def plain(v):
    if hasattr(v, 'keys'):
        return {k: plain(v[k]) for k in v}
    return v


def arguments(p):
    p.add_argument('keys', nargs='*')
    p.add_argument('--flag', action='store_true')
    p.add_argument('--value', default='dflt')


PROBE = dict(title='probe', description='probe', main=probe,
             prepare_arguments=arguments, prepare_config=lambda d: None)


def setkey(d, name, value):
    parts = name.split('/')
    for p in parts[:-1]:
        d = d[p]
    if name in MERGING:
        d[parts[-1]] = dict(d[parts[-1]], **value)
    else:
        d[parts[-1]] = value


def options():
    out = []
    for opt, word, name, value in CONFIG:
        out.append((opt, word, name, value))
    for g in GLOBAL:
        out.append((g, None, None, None))
    return out


def words(d, o, form):
    opt, word = o[0], o[1]
    if opt == '--xylem-dir':
        word = d.root + '/other-x'
    elif opt == '--prefix':
        word = d.root + '/other-p'
    if word is None:
        return [opt]
    if form == 'joined':
        return [opt + '=' + word]
    return [opt, word]


def expected(mode, opts):
    """Reference: the state the command has to see."""
    names = [o[0] for o in opts]
    if mode == 'xdir' or '--xylem-dir' in names:
        layers = ['Y' if '--xylem-dir' in names else 'X']
    else:
        layers = ['T' if '--prefix' in names else 'S']
        if '--no-user-config' not in names:
            layers.insert(0, 'U')
    cfg = doc(layers[-1])
    for t in reversed(layers[:-1]):
        for k, v in doc(t).items():
            if k in MERGING:
                cfg[k] = dict(cfg[k], **v)
            else:
                cfg[k] = v
    for o in opts:
        if o[2]:
            setkey(cfg, o[2], copy.deepcopy(o[3]))
    return {'config': cfg,
            'verbose': bool({'-v', '--verbose', '-vd'} & set(names)),
            'debug': bool({'-d', '--debug', '-vd'} & set(names)),
            'color': '--no-color' not in names}


def setup(c):
    d = c13.Dirs(c)
    import os
    c13.write(d.specified(), doc('X'))
    c13.write(os.path.join(d.root, 'other-x', 'config.yaml'), doc('Y'))
    c13.write(d.system('xylem'), doc('S'))
    c13.write(os.path.join(d.root, 'other-p', 'etc', 'xylem', 'config.yaml'),
              doc('T'))
    c13.write(d.user('xylem'), doc('U'))
    return d


def h_probe(pairs):
    opts = options()
    n = len(opts)
    combos = [(i,) for i in range(-1, n)] + (
        [(i, j) for i in range(n) for j in range(n)
         if i != j and opts[i][0] != opts[j][0]] if pairs else [])
    combos = [tuple(i for i in t if i >= 0) for t in combos]

    def fn(c):
        env.plugins.script('xylem.commands', [
            ('other', dict(PROBE, title='other')), ('probe', PROBE)])
        stubs.platform([], [])
        chosen = [opts[i] for i in combos[c.choose(len(combos), 'options')]]
        mode = c.pick(['xdir', 'plain'], 'mode')
        form = c.pick(['separate', 'joined'], 'form') if not pairs else \
            'separate'
        own = c.pick([[], ['--flag', '--value', 'v', 'k1', 'k2']],
                     'own arguments') if not pairs else []
        d = setup(c)
        environ = {'XYLEM_PREFIX': d.prefix}
        if mode == 'xdir':
            environ['XYLEM_DIR'] = d.xdir
        names = [o[0] for o in chosen]
        first = None
        for mask in range(2 ** len(chosen)):
            before, after = [], []
            for i, o in enumerate(chosen):
                (after if mask >> i & 1 else before).extend(
                    words(d, o, form))
            # list options take what follows; own arguments go first or last
            argv = before + ['probe'] + own + after
            argv2 = before + ['probe'] + after + own
            for args in ([argv] if not own or not after else [argv, argv2]):
                del SEEN[:]
                with c13.Environ(environ):
                    r = cli.run(args)
                what = 'xylem %s (%s)' % (' '.join(args), mode)
                c.check(r.exc is None, '%s: %r', what, r)
                if '--version' in names or '--print-config' in names:
                    c.eq(r.code, 0, what)
                    c.eq(SEEN, [], what + ': runs')
                    got = (r.out, r.err)
                    first = first or got
                    if '-d' not in names and '--debug' not in names and \
                            '-vd' not in names:
                        c.eq(env.strip_ansi(got[0]),
                             env.strip_ansi(first[0]), what + ': output')
                    c.check(r.out.strip(), '%s: no output', what)
                    continue
                c.eq(len(SEEN), 1, what + ': runs, stderr %r' % r.err)
                c.eq(r.code, 0, what)
                want = expected(mode, chosen)
                want.update(flag=bool(own), value='v' if own else 'dflt',
                            keys=['k1', 'k2'] if own else [])
                c.eq(SEEN[0], want, what)
        c.observe('%r %s' % (names, mode))
    return Harness('options' if not pairs else 'pairs', fn,
                   split=1, note='%s options on every side of the command, '
                   'with and without specified config directory' % (
                       'all pairs of' if pairs else 'all single'))


def h_both():
    """A scalar option on both sides, and repeated ones on one side."""
    scalars = {}
    for o in CONFIG:
        if not isinstance(o[3], (list, dict)):
            scalars.setdefault(o[0], []).append(o)
    scalars['--cache-dir'].append(('--cache-dir', '/c2', 'cache_dir', '/c2'))
    scalars['--sources-dir'].append(('--sources-dir', '/s2', 'sources_dir',
                                     '/s2'))
    names = sorted(scalars)

    def fn(c):
        env.plugins.script('xylem.commands', [('probe', PROBE)])
        stubs.platform([], [])
        d = setup(c)
        kind = c.pick(['both', 'before', 'after'], 'sides')
        rep = c.flag('repeated list') if kind != 'both' else False
        if rep:
            o = c.pick([
                ('--core-installers', ['a', 'b,c'], 'core_installers',
                 ['a', 'b', 'c']),
                ('--os-features', ['a', 'a'], 'os_options/features',
                 ['a', 'a']),
                ('--install-from', ['a: [x]', 'b: [y]'], 'install_from',
                 {'a': ['x'], 'b': ['y']}),
                ('--installer-options', ['a: {x: 1}', 'b: {y: 2}'],
                 'installer_options', {'a': {'x': 1}, 'b': {'y': 2}})], 'option')
            ws = [w for v in o[1] for w in (o[0], v)]
            value, key = o[3], o[2]
            argv = ws + ['probe'] if kind == 'before' else ['probe'] + ws
        else:
            name = c.pick(names, 'option')
            a, b = scalars[name][:2]
            if c.flag('swap'):
                a, b = b, a
            wa, wb = words(d, a, ''), words(d, b, '')
            argv = {'both': wa + ['probe'] + wb, 'before': wa + wb +
                    ['probe'], 'after': ['probe'] + wa + wb}[kind]
            value, key = b[3], b[2]
        del SEEN[:]
        with c13.Environ({'XYLEM_DIR': d.xdir}):
            r = cli.run(argv)
        what = 'xylem %s' % ' '.join(argv)
        c.check(r.exc is None and r.code == 0 and len(SEEN) == 1, '%s: %r',
                what, r)
        want = expected('xdir', [('', '', key, value)])['config']
        c.eq(SEEN[0]['config'], want, what)
        c.observe('%r %r' % (kind, value))
    return Harness('repeated', fn, note='options given twice')


def h_commands():
    """Real commands do the same whatever the position of options."""
    cases = [['--os', 'deb:v1'], ['--core-installers', 'b'],
             ['--use-additional-installers', 'no'],
             ['--install-from', 'b: [first]'],
             ['--installer-options', 'a: {as_root: no}'], ['-v'],
             ['--no-color'], ['--disable-installer-plugins', 'a'],
             ['--os', 'nonsense'], ['--use-additional-installers', 'maybe'],
             ['--cache-dir', 'X'], ['--sources-dir', 'X'],
             ['--xylem-dir', 'X'], ['--print-config'],
             ['--disable-spec-plugins', 'rules'], ['--os-features', 'f']]
    cmds = [['resolve', 'first', 'third'], ['install', '--dry-run', 'first'],
            ['lookup', 'first'], ['update'], ['update', '-n'],
            ['resolve', '--all', 'nokey']]

    def fn(c):
        opt = cases[c.choose(len(cases), 'option')]
        second = c.pick([[], ['-v'], ['--use-additional-installers', 'yes']],
                        'second option')
        if second and second[0] == opt[0]:
            c.prune()
        cmd = cmds[c.choose(len(cmds), 'command')]
        stubs.platform(
            [stubs.make_os('ubuntu', versions=['v1'], detected='v1',
                           core=['a', 'b'], default='a'),
             stubs.make_os('deb', versions=['v1'], core=['b'], default='b')],
            [stubs.make_installer(n, additional=n == 'c') for n in 'abc'])
        env.procs.reset(None)
        results = []
        for places in ((0, 0), (1, 1), (0, 1), (1, 0)):
            if not second and places[0] != places[1]:
                continue
            site = Site(c)
            import os
            site.xdir = os.path.join(site.root, 'xdir')
            os.mkdir(site.xdir)
            site.write_sources('10.yaml', ['r'])
            site.write_rules('r', {k: c31.RULES[k] for k in c31.PLAN})
            c31.configure(site)
            base = ['--xylem-dir', site.xdir]
            if cmd[0] != 'update':
                with env.capture():
                    cli.run(base + ['update'])
            if opt[0] == '--xylem-dir':
                base = []
            ws = [w if w != 'X' else site.root + '/new' for w in opt]
            before = list(base)
            after = []
            (after if places[0] else before).extend(ws)
            (after if places[1] else before).extend(second)
            with c13.Environ({'XYLEM_DIR': site.root + '/nothing'}
                             if opt[0] == '--xylem-dir' else {}):
                r = cli.run(before + cmd + after)
            what = 'xylem %s' % ' '.join(before + cmd + after)
            c.check(r.exc is None, '%s: %r', what, r)
            fix = lambda t: t.replace(site.root, 'ROOT')
            tree = {p: v for p, v in snapshot(site.root).items()
                    if not p.startswith('cache/sources/')}
            tree = {p: (v[0], v[1], fix(v[2].decode('utf-8', 'replace'))
                        if v[2] is not None and v[0] == 'file' else None)
                    for p, v in tree.items()}
            cached = os.path.isdir(site.cache_dir + '/sources') and len(
                os.listdir(site.cache_dir + '/sources'))
            err = fix(r.err)
            if r.code == 2 and not r.out:
                err = 'usage'           # the usage line names the parser
            tree = {p: v for p, v in tree.items()
                    if not p.startswith('new/cache/sources/')}
            results.append((r.code, fix(r.out), err, tree, cached))
            c.eq(results[-1], results[0], what + ' as compared to options '
                 'before the command')
        c.observe('%r %r %r' % (opt[0], cmd[0], results[0][0]))
    return Harness('commands', fn, split=2,
                   note='%d options for %d command lines' % (
                       len(cases), len(cmds)))


def harnesses(tier):
    return [h_probe(False), h_probe(True), h_both(), h_commands()]
