"""C13: configuration layers override each other in the documented order."""

import argparse
import json
import os

import yaml

from mc.engine import Harness
from mc import cli, env

PROPERTY = 'C13'
LOUD = True
ASSUMPTIONS = [
    'null in a file means the option is not set there (documented)',
]

ABSENT, NULL = '<absent>', '<null>'

# kind -> values [(python value, command line words)], falsy ones included
KINDS = {
    'String': [('', ['']), ('a', ['a']), ('no', ['no'])],
    'Boolean': [(False, ['no']), (True, ['true'])],
    'List': [([], ['']), (['a'], ['a']), (['b', 'c'], ['b', 'c'])],
    'Dict': [({}, ['']), ({'a': 1, 'b': []}, ['a: 1, b: []']),
             ({'a': {'x': 2}}, ['{a: {x: 2}}'])],
    'Merging': [({}, ['']), ({'a': ['1']}, ['a: ["1"]']),
                ({'a': [], 'b': ['2']}, ['a: []', 'b: ["2"]']),
                ({'c': ['3']}, ['c: ["3"]'])],
    'MergingDicts': [({}, ['{}']), ({'a': {'x': 0}}, ['a: {x: 0}']),
                     ({'a': {'y': 1}, 'b': {}}, ['a: {y: 1}, b: {}'])],
    'Any': [(0, ['0']), (False, ['no']), ([], ['[]']), ('', ['""'])],
    'Path': [('/', ['/']), ('/p/q', ['/p/q'])],
}
NAMES = {'top': 'opt_ion', 'group': 'grp/opt', 'deep': 'g1/g2/opt'}


def types():
    from xylem.config_utils import (Any, String, Boolean, List, Dict,
                                    MergingDict, Path)
    return {'String': String, 'Boolean': Boolean, 'List': List(String),
            'Dict': Dict(Any), 'Merging': MergingDict(List(String)),
            'MergingDicts': MergingDict(Dict(Any)), 'Any': Any, 'Path': Path}


def overlay(kind, layers):
    """Reference: effective value of ``layers`` in order of priority."""
    if kind.startswith('Merging'):
        out = {}
        for v in reversed(layers):
            if v not in (ABSENT, NULL):
                out.update(v)
        return out
    for v in layers:
        if not (isinstance(v, str) and v in (ABSENT, NULL)):
            return v
    return None


def put(doc, name, value):
    if value == ABSENT and isinstance(value, str):
        return
    parts = name.split('/')
    if len(parts) > 1:
        doc = doc.setdefault('/'.join(parts[:-1]), {})
    doc[parts[-1]] = None if (isinstance(value, str) and value == NULL) \
        else value


def write(path, doc, how='yaml'):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(doc if isinstance(doc, str) else json.dumps(doc))


class Dirs(object):
    def __init__(self, c):
        self.root = os.path.realpath(c.tmp())
        self.home = os.path.join(self.root, 'home')
        os.mkdir(self.home)
        env.set_home(self.home)
        self.prefix = os.path.join(self.root, 'pre')
        self.xdir = os.path.join(self.root, 'xdir')

    def user(self, tool):
        return os.path.join(self.home, '.config', tool, 'config.yaml')

    def system(self, tool):
        return os.path.join(self.prefix, 'etc', tool, 'config.yaml')

    def specified(self):
        return os.path.join(self.xdir, 'config.yaml')


def route(c, d, tool, modes):
    """-> (argv, env, layer files used)"""
    argv, environ, files = [], {}, []
    mode = c.pick(modes, 'mode')
    if mode.startswith('dir'):
        files = [d.specified()]
        if mode == 'dir option':
            argv += ['--%s-dir' % tool, d.xdir]
        elif mode == 'dir option over env':
            environ[tool.upper() + '_DIR'] = os.path.join(d.root, 'other')
            argv += ['--%s-dir' % tool, d.xdir]
        else:
            environ[tool.upper() + '_DIR'] = d.xdir
        argv += ['--prefix', d.prefix]
        if mode == 'dir no user':
            argv += ['--no-user-config']
    else:
        if mode == 'prefix env':
            environ[tool.upper() + '_PREFIX'] = d.prefix
        elif mode == 'prefix option over env':
            environ[tool.upper() + '_PREFIX'] = os.path.join(d.root, 'other')
            argv += ['--prefix', d.prefix]
        else:
            argv += ['--prefix', d.prefix]
        if mode != 'no user':
            files = [d.user(tool)]
        else:
            argv += ['--no-user-config']
        files.append(d.system(tool))
    return mode, argv, environ, files


class Environ(object):
    def __init__(self, values):
        self.values = values

    def __enter__(self):
        os.environ.update(self.values)

    def __exit__(self, *a):
        for k in self.values:
            del os.environ[k]
        return False


MODES = ['plain', 'no user', 'dir option', 'dir env', 'prefix env',
         'dir no user', 'prefix option over env', 'dir option over env']


def load(description, argv, tool='tool'):
    from xylem.config_utils import (add_global_config_arguments,
                                    handle_global_config_arguments,
                                    load_config)
    parser = argparse.ArgumentParser()
    description.add_arguments(parser)
    add_global_config_arguments(parser, tool)
    args = parser.parse_args(argv)
    handle_global_config_arguments(args, tool)
    return load_config(args, description, tool)


def cmdline(name, words):
    return ['--' + name.replace('/', '-').replace('_', '-') + '=' + w
            for w in words]


def h_single(kinds, places, modes, defaults=True):
    """One option, every layer."""
    def fn(c):
        from xylem.config_utils import ConfigDescription
        kind = c.pick(kinds, 'kind')
        name = NAMES[c.pick(places, 'place')]
        values = [v for v, _ in KINDS[kind]]
        d = Dirs(c)
        mode, argv, environ, files = route(c, d, 'tool', modes)
        description = ConfigDescription('config.yaml')
        kw = {}
        default = ABSENT
        if defaults:
            default = c.pick([ABSENT] + values, 'default')
            if default != ABSENT or not isinstance(default, str):
                kw['default'] = json.loads(json.dumps(default))
        description.add(name, type=types()[kind], command_line=True, **kw)
        description.add('zz', type=types()['String'], default='other')
        layers = []
        words = c.pick([ABSENT] + [w for _v, w in KINDS[kind]], 'command line')
        if words == ABSENT:
            layers.append(ABSENT)
        else:
            argv = argv + cmdline(name, words)
            layers.append([v for v, w in KINDS[kind] if w is words][0])
        for f in files:
            v = c.pick([ABSENT, NULL] + values, os.path.basename(
                os.path.dirname(os.path.dirname(f))) + ' file')
            layers.append(v)
            doc = {}
            put(doc, name, v)
            if doc:
                write(f, doc)
            elif c.flag('empty file'):
                write(f, '')
        # files of unused layers must not have any influence
        for f in (d.user('tool'), d.system('tool'), d.specified(),
                  os.path.join(d.root, 'other', 'config.yaml'),
                  os.path.join(d.root, 'other', 'etc', 'tool',
                               'config.yaml')):
            if f not in files:
                doc = {'zz': 'unused'}
                put(doc, name, values[-1])
                write(f, doc)
        layers.append(default)
        with Environ(environ):
            got = load(description, argv)
        want = overlay(kind, layers)
        parts = name.split('/')
        g = got['/'.join(parts[:-1])] if len(parts) > 1 else got
        what = '%s %s (%s), layers %r' % (kind, name, mode, layers)
        c.eq(g[parts[-1]], want, what)
        c.check(type(g[parts[-1]]) is type(want), '%s: type %s', what,
                type(g[parts[-1]]))
        c.eq(got['zz'], 'other', what + ': other option')
        c.eq(getattr(got, 'zz'), 'other', what + ': attribute')
        c.eq(sorted(got), sorted(['/'.join(parts[:-1]) or name, 'zz']),
             what + ': entries')
        c.observe('%s %s %r' % (kind, mode, want))
    return fn


def h_pair(k1, k2):
    """Two options of one group or two groups do not influence each other."""
    def fn(c):
        from xylem.config_utils import ConfigDescription
        names = c.pick([('grp/a', 'grp/b'), ('a', 'b'), ('grp/a', 'a'),
                        ('a', 'b/a')], 'names')
        d = Dirs(c)
        argv = ['--prefix', d.prefix]
        description = ConfigDescription('config.yaml')
        docs = [{}, {}]
        want = []
        kinds = (k1, k2)
        for name, kind in zip(names, kinds):
            values = KINDS[kind]
            description.add(name, type=types()[kind], command_line=True,
                            default=json.loads(json.dumps(values[-1][0])))
            layers = []
            if c.flag('command line ' + name):
                argv = argv + cmdline(name, values[0][1])
                layers.append(values[0][0])
            for i, doc in enumerate(docs):
                v = c.pick([ABSENT, values[0][0], values[1][0]],
                           'file %d %s' % (i, name))
                put(doc, name, v)
                layers.append(v)
            layers.append(values[-1][0])
            want.append(overlay(kind, layers))
        write(d.user('tool'), docs[0])
        write(d.system('tool'), docs[1])
        got = load(description, argv)
        for name, kind, w in zip(names, kinds, want):
            parts = name.split('/')
            g = got[parts[0]][parts[1]] if len(parts) > 1 else got[name]
            c.eq(g, w, '%s of %r with files %r and arguments %r' % (
                name, names, docs, argv[2:]))
        c.observe(repr(want))
    return fn


def h_dict(kinds, places):
    """Configurations given as dictionaries, with defaults filled in."""
    def fn(c):
        from xylem.config_utils import (
            ConfigDescription, config_from_parsed_yaml, merge_configs,
            merge_with_defaults, config_from_defaults)
        kind = c.pick(kinds, 'kind')
        name = NAMES[c.pick(places, 'place')]
        values = [v for v, _ in KINDS[kind]]
        how = c.pick(['at once', 'afterwards', 'several', 'as one more'],
                     'how')
        description = ConfigDescription('config.yaml')
        kw = {}
        default = c.pick([ABSENT] + values, 'default')
        if default != ABSENT or not isinstance(default, str):
            kw['default'] = json.loads(json.dumps(default))
        description.add(name, type=types()[kind], **kw)
        description.add('zz', type=types()['String'], default='other')
        description.add('yy', type=types()['List'], default=['x'])
        layers, docs = [], []
        for _ in range(1 if how in ('at once', 'afterwards') else 2):
            v = c.pick([ABSENT, NULL] + values, 'value')
            layers.append(v)
            doc = {'yy': []}
            put(doc, name, v)
            docs.append(doc)
        layers.append(default)
        given = json.dumps(docs)
        if how == 'at once':
            got = config_from_parsed_yaml(docs[0], description,
                                          use_defaults=True)
        else:
            parsed = [config_from_parsed_yaml(doc, description)
                      for doc in docs]
            if how == 'as one more':
                parsed.append(config_from_defaults(description))
                got = merge_configs(description, *parsed)
            else:
                got = parsed[0]
                if len(parsed) > 1:
                    got = merge_configs(description, *parsed)
                got = merge_with_defaults(description, got)
        want = overlay(kind, layers)
        parts = name.split('/')
        g = got['/'.join(parts[:-1])] if len(parts) > 1 else got
        what = '%s %s (%s), layers %r' % (kind, name, how, layers)
        c.eq(g[parts[-1]], want, what)
        c.check(type(g[parts[-1]]) is type(want), '%s: type %s', what,
                type(g[parts[-1]]))
        c.eq((got['zz'], got['yy']), ('other', []), what + ': other options')
        c.eq(json.dumps(docs), given, what + ': given dictionaries')
        c.observe('%s %s %r' % (kind, how, want))
    return fn


def h_rewritten(kinds):
    """Files may be rewritten between two loads within one process."""
    def fn(c):
        from xylem.config_utils import ConfigDescription
        kind = c.pick(kinds, 'kind')
        name = NAMES[c.pick(['top', 'group'], 'place')]
        values = [ABSENT] + [v for v, _ in KINDS[kind]]
        d = Dirs(c)
        description = ConfigDescription('config.yaml')
        description.add(name, type=types()[kind], command_line=True)
        which = c.pick(['user', 'system', 'specified'], 'file')
        f = {'user': d.user('tool'), 'system': d.system('tool'),
             'specified': d.specified()}[which]
        argv = ['--prefix', d.prefix] + (
            ['--tool-dir', d.xdir] if which == 'specified' else [])
        stamp = c.flag('same size and time stamps')
        got = None
        for step in range(2):
            v = c.pick(values, 'value %d' % step)
            if v == ABSENT and isinstance(v, str) and c.flag('remove'):
                if os.path.exists(f):
                    os.remove(f)
            else:
                doc = {'pad': ''}
                put(doc, name, v)
                text = json.dumps(doc)
                write(f, text + ' ' * (200 - len(text)) if stamp else text)
                if stamp:
                    os.utime(f, (10 ** 9, 10 ** 9))
            if got is not None and c.flag('change what was loaded'):
                got[name.split('/')[0]] = 'changed'
            got = load(description, argv)
            want = overlay(kind, [v])
            g = got['grp']['opt'] if '/' in name else got[name]
            c.eq(g, want, '%s %s in the %s file, load %d' % (
                kind, name, which, step))
        c.observe('%s %r' % (kind, want))
    return fn


# options of xylem itself, checked through `xylem --print-config`
OPTIONS = {
    'use_additional_installers': (
        'Boolean', '--use-additional-installers', True,
        [(False, ['no']), (True, ['yes'])]),
    'core_installers': (
        'List', '--core-installers', None,
        [([], ['']), (['apt', 'pip'], ['apt,pip']), (['x'], ['x'])]),
    'install_from': (
        'Merging', '--install-from', {},
        [({}, ['']), ({'pip': ['a', 'b']}, ['pip: [a, b]']),
         ({'pip': [], 'apt': ['c']}, ['pip: []', 'apt: [c]'])]),
    'disabled_plugins/os': (
        'List', '--disable-os-plugins', [],
        [([], ['']), (['debian'], ['debian'])]),
    'os_options/features': (
        'List', '--os-features', None,
        [([], ['']), (['f', 'g'], ['f, g'])]),
    'user_sources': (
        'Boolean', '--user-sources', False,
        [(False, ['false']), (True, ['yes'])]),
    'cache_dir': (
        'Path', '--cache-dir', None,
        [('/nowhere/c', ['/nowhere/c']), ('/', ['/x/..'])]),
    'installer_options': (
        'MergingDicts', None, {},
        [({}, ['']), ({'pip': {'o': 0}}, None),
         ({'pip': {'p': False}, 'q': {}}, None)]),
}


def h_xylem(option, modes):
    def fn(c):
        kind, arg, default, values = OPTIONS[option]
        d = Dirs(c)
        mode, argv, environ, files = route(c, d, 'xylem', modes)
        if kind == 'Path':
            default = (d.xdir + '/cache') if mode.startswith('dir') else \
                d.prefix + '/var/cache/xylem'
        layers = []
        words = ABSENT
        if arg:
            words = c.pick([ABSENT] + [w for _v, w in values],
                           'command line')
        if words == ABSENT:
            layers.append(ABSENT)
        else:
            argv = argv + [arg + '=' + w for w in words]
            layers.append([v for v, w in values if w is words][0])
        for f in files:
            v = c.pick([ABSENT, NULL] + [v for v, _w in values], 'file')
            layers.append(v)
            doc = {'unknown': 1}
            put(doc, option, v)
            write(f, doc)
        for f in (d.user('xylem'), d.system('xylem'), d.specified()):
            if f not in files:
                doc = {}
                put(doc, option, values[-1][0])
                write(f, doc)
        layers.append(default)
        cmd = c.pick([['update'], ['lookup', 'k'], ['install', 'k']][:1 if len(
            files) > 1 else 3], 'command')
        with Environ(environ):
            r = cli.run(argv + ['--print-config', '--no-color'] + cmd)
        what = '%s (%s), layers %r, %r' % (option, mode, layers, cmd)
        c.check(r.code == 0 and not r.exc, '%s: %r', what, r)
        got = yaml.safe_load(r.out)
        parts = option.split('/')
        g = got[parts[0]][parts[1]] if len(parts) > 1 else got[option]
        want = overlay(kind, layers)
        c.eq(g, want, what)
        c.observe('%s %s %r' % (option, mode, want if kind != 'Path'
                                else len(want)))
    return fn


def harnesses(tier):
    t = tier == 'thorough'
    simple = ['String', 'Boolean', 'List', 'Dict', 'Any', 'Path']
    hs = [
        Harness('one-option',
                h_single(list(KINDS), ['top'], MODES[:2]), split=3,
                note='every value of every layer, user and system files'),
        Harness('specified-file',
                h_single(list(KINDS), ['top', 'group'], MODES[2:4] +
                         MODES[5:6] + MODES[7:]), split=3),
        Harness('grouped',
                h_single(list(KINDS), ['group', 'deep'],
                         ['plain', 'no user', 'prefix env',
                          'prefix option over env'] if t else
                         ['prefix env', 'prefix option over env'],
                         defaults=t), split=3),
    ]
    hs.append(Harness('dictionaries', h_dict(list(KINDS), list(NAMES)),
                      split=2, note='given to the API'))
    hs.append(Harness('rewritten', h_rewritten(list(KINDS)), split=2,
                      note='files that change within one process'))
    for k1, k2 in [('List', 'Boolean'), ('Merging', 'MergingDicts')] + (
            [(a, b) for a in simple for b in simple] if t else []):
        hs.append(Harness('pair-%s-%s' % (k1, k2), h_pair(k1, k2), split=3))
    for o in OPTIONS:
        hs.append(Harness('xylem-' + o.replace('/', '-'), h_xylem(
            o, MODES if t else ['plain', 'no user', 'dir option', 'dir env']),
            split=3, note='through the command line tool'))
    return hs
