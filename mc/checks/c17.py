"""C17: configurations are isolated from each other (operation histories)."""

import argparse
import copy

from mc.engine import Harness
from mc import cli, env, stubs

PROPERTY = 'C17'
ASSUMPTIONS = [
    'values of untyped options (Any) belong to the document they come from',
    'after merge_configs or ceorce_config_dict, which are documented to share '
    'structure, lists and dicts are not changed in place (but assigned, or '
    'entries added to merged dictionaries)',
]


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


# name -> path of a mutation, applied to the real config and to the model
def m_scalar(c):
    c['flag'] = not c['flag']


def m_list(c):
    c['names'].append('new')


def m_dict(c):
    c['opts']['k'] = ['v']


def m_nested(c):
    c['opts'].setdefault('l', []).append('deep')


def m_merging(c):
    c['map'].setdefault('a', []).append('x')


def m_merging_add(c):
    c['map']['new'] = ['y']


def m_group(c):
    c['grp']['names'].append('g')


def m_group_set(c):
    c['grp']['text'] = 'changed'


def m_clear(c):
    del c['names'][:]
    c['map'].clear()


MUTATIONS = [m_scalar, m_list, m_dict, m_nested, m_merging, m_merging_add,
             m_group, m_group_set, m_clear]
SHALLOW = [m_scalar, m_group_set, m_merging_add]

DEFAULT = {'flag': False, 'names': ['d'], 'opts': {'l': ['d']},
           'map': {'a': ['d'], 'b': []},
           'grp': {'names': ['g'], 'text': 't'}}
DOCS = [{}, {'names': ['n'], 'map': {'a': ['m']}, 'grp': {'names': []}},
        {'opts': {'l': ['o'], 'k': ['w']}, 'flag': True, 'grp': None}]
UNSET = {'flag': None, 'names': None, 'opts': None, 'map': {},
         'grp': {'names': None, 'text': None}}


def description():
    from xylem.config_utils import (ConfigDescription, String, List, Dict,
                                    MergingDict, Boolean)
    d = ConfigDescription('config.yaml')
    # elements of any type and of a declared type
    defaults = copy.deepcopy(DEFAULT)
    d.add('flag', type=Boolean, default=defaults['flag'], command_line=True)
    d.add('names', type=List(String), default=defaults['names'],
          command_line=True)
    d.add('opts', type=Dict(List(String)), default=defaults['opts'],
          command_line=True)
    d.add('map', type=MergingDict(List(String)), default=defaults['map'],
          command_line=True)
    d.add('grp/names', type=List, default=defaults['grp']['names'],
          command_line=True)
    d.add('grp/text', type=String, default=defaults['grp']['text'],
          command_line=True)
    return d, defaults


def model_doc(doc):
    out = copy.deepcopy(UNSET)
    for k, v in doc.items():
        if v is None:
            continue
        if isinstance(v, dict) and k == 'grp':
            out[k].update(copy.deepcopy(v))
        else:
            out[k] = copy.deepcopy(v)
    return out


def model_merge(top, bottom):
    out = {}
    for k in UNSET:
        if k == 'grp':
            out[k] = {s: top[k][s] if top[k][s] is not None else bottom[k][s]
                      for s in UNSET[k]}
        elif k == 'map':
            out[k] = dict(bottom[k], **top[k])
        else:
            out[k] = top[k] if top[k] is not None else bottom[k]
    return copy.deepcopy(out)


def h_description(depth, limit):
    def fn(c):
        from xylem.config_utils import (
            config_from_defaults, config_from_parsed_yaml, merge_configs,
            merge_with_defaults, copy_to_dict, ceorce_config_dict,
            load_config, add_global_config_arguments,
            handle_global_config_arguments, ConfigDict)
        desc, defaults = description()
        docs = copy.deepcopy(DOCS)
        live = []         # [real, model, complete, may be changed in place]
        trace = []

        def create(how):
            if how[0] == 'defaults':
                return config_from_defaults(desc), \
                    copy.deepcopy(DEFAULT), True, True
            if how[0] == 'doc':
                return config_from_parsed_yaml(docs[how[1]], desc), \
                    model_doc(DOCS[how[1]]), False, True
            if how[0] == 'doc+defaults':
                return config_from_parsed_yaml(docs[how[1]], desc, True), \
                    model_merge(model_doc(DOCS[how[1]]), DEFAULT), True, True
            if how[0] == 'args':
                p = argparse.ArgumentParser()
                desc.add_arguments(p)
                add_global_config_arguments(p, 'tool')
                a = p.parse_args(['--prefix', '/nonexistent',
                                  '--no-user-config', '--names', 'cmd',
                                  '--map=q: []'])
                handle_global_config_arguments(a, 'tool')
                m = model_merge(model_doc({'names': ['cmd'],
                                           'map': {'q': []}}), DEFAULT)
                return load_config(a, desc, 'tool'), m, True, True
            src = live[how[1]]
            if how[0] == 'copy':
                return ceorce_config_dict(src[0], copy=True), \
                    copy.deepcopy(src[1]), src[2], False
            if how[0] == 'plain':
                return copy_to_dict(src[0]), copy.deepcopy(src[1]), \
                    src[2], True
            if how[0] == 'wrap':
                return ceorce_config_dict(copy_to_dict(src[0])), \
                    copy.deepcopy(src[1]), src[2], True
            if how[0] == 'fill':
                return merge_with_defaults(desc, src[0]), \
                    model_merge(src[1], DEFAULT), True, False
            other = live[how[2]]
            return merge_configs(desc, src[0], other[0]), \
                model_merge(src[1], other[1]), src[2] or other[2], False

        for step in range(depth):
            ops = []
            if len(live) < limit:
                ops += [('defaults',), ('args',)]
                ops += [(k, i) for k in ('doc', 'doc+defaults')
                        for i in range(1, len(DOCS))]
                for i, l in enumerate(live):
                    isconf = isinstance(l[0], ConfigDict)
                    if isconf:
                        ops += [('plain', i), ('wrap', i)]
                    ops += [('copy', i), ('fill', i)] if isconf else []
                    ops += [('merge', i, j) for j in range(len(live))
                            if isconf and j != i and
                            isinstance(live[j][0], ConfigDict)]
            for i, l in enumerate(live):
                ops += [('change', i, m) for m in (
                    MUTATIONS if l[3] else SHALLOW)
                    if l[2] or m in SHALLOW]
            op = c.pick(ops, 'step %d' % step)
            trace.append((op[0],) + tuple(
                x.__name__ if callable(x) else x for x in op[1:]))
            c.event(repr(trace[-1]))
            if op[0] == 'change':
                op[2](live[op[1]][0])
                op[2](live[op[1]][1])
            else:
                real, model, complete, deep = create(op)
                live.append([real, model, complete, deep])
                if op[0] in ('copy', 'fill', 'merge'):
                    # documented as shallow: values are shared from now on
                    for i in op[1:]:
                        live[i][3] = False
            if not c.fresh():
                continue
            for i, (real, model, _c, _d) in enumerate(live):
                c.eq(plain(real), model, 'config %d after %r' % (i, trace))
                if isinstance(real, ConfigDict):
                    for k in real:
                        c.check(getattr(real, k) is real[k], 'attribute %s '
                                'of config %d after %r', k, i, trace)
                    c.check(isinstance(real['grp'], ConfigDict),
                            'group of config %d after %r', i, trace)
            c.eq(defaults, DEFAULT, 'the default values after %r' % (trace,))
            c.eq(docs, DOCS, 'the parsed documents after %r' % (trace,))
            c.eq(plain(config_from_defaults(desc)), DEFAULT,
                 'new default config after %r' % (trace,))
            c.state([l[1] for l in live])
    return fn


# --------------------------------------------------------------------------

X_DOCS = [{'core_installers': ['apt'], 'install_from': {'pip': ['a']},
           'disabled_plugins': {'os': ['x']}},
          {'os_override': 'ubuntu:trusty&f', 'installer_options':
           {'pip': {'o': 1}}, 'os_options': {'features': ['g']}}]


def x_list(cfg):
    cfg['disabled_plugins']['os'].append('debian')


def x_inst(cfg):
    cfg['install_from']['new'] = ['k']


def x_inst2(cfg):
    cfg['install_from'].setdefault('pip', []).append('k')


def x_opt(cfg):
    cfg['installer_options'].setdefault('pip', {})['o'] = 2


def x_core(cfg):
    cfg['core_installers'] = (cfg['core_installers'] or []) + ['z']


def x_feat(cfg):
    cfg['os_options']['features'] = ['changed']


def x_dis(cfg):
    cfg['disabled_plugins']['spec'].append('rules')


X_MUT = [x_list, x_inst, x_inst2, x_opt, x_core, x_feat, x_dis]


def h_xylem(depth, limit):
    """The configurations of xylem itself, including the global one."""
    def fn(c):
        from xylem import config as xc
        docs = copy.deepcopy(X_DOCS)
        cli.reset()
        base = plain(xc.get_default_config())
        want_doc = []
        for d in X_DOCS:
            w = copy.deepcopy(base)
            for k, v in d.items():
                if k == 'os_override':
                    w[k] = ('ubuntu', 'trusty')
                elif isinstance(v, dict) and k in ('disabled_plugins',
                                                   'os_options'):
                    w[k].update(copy.deepcopy(v))
                else:
                    w[k] = copy.deepcopy(v)
            if 'os_override' in d:
                w['os_options']['features'] = ['f']
            want_doc.append(w)
        live = [[xc.get_config(), copy.deepcopy(base)]]
        current = 0
        trace = []
        try:
            for step in range(depth):
                ops = []
                if len(live) < limit:
                    ops += [('default',), ('doc', 0), ('doc', 1)]
                for i in range(len(live)):
                    ops += [('change', i, m) for m in X_MUT]
                    if i != current:
                        ops.append(('set', i))
                op = c.pick(ops, 'step %d' % step)
                trace.append((op[0],) + tuple(
                    x.__name__ if callable(x) else x for x in op[1:]))
                c.event(repr(trace[-1]))
                if op[0] == 'change':
                    op[2](live[op[1]][0])
                    op[2](live[op[1]][1])
                elif op[0] == 'set':
                    xc.set_config(live[op[1]][0])
                    current = op[1]
                elif op[0] == 'default':
                    live.append([xc.get_default_config(),
                                 copy.deepcopy(base)])
                else:
                    live.append([xc.ensure_config(docs[op[1]]),
                                 copy.deepcopy(want_doc[op[1]])])
                if not c.fresh():
                    continue
                for i, (real, model) in enumerate(live):
                    c.eq(plain(real), model, 'config %d after %r' % (i,
                                                                     trace))
                c.check(xc.get_config() is live[current][0] and
                        xc.ensure_config(None) is live[current][0] and
                        xc.ensure_config(live[0][0]) is live[0][0],
                        'current config after %r', trace)
                c.eq(docs, X_DOCS, 'the input dicts after %r' % (trace,))
                c.eq(plain(xc.get_default_config()), base,
                     'new default config after %r' % (trace,))
                c.state([l[1] for l in live])
        finally:
            cli.reset()
    return fn


def h_options(depth):
    """Options of OS and installer plugins are isolated from the config."""
    def fn(c):
        from xylem.installers import InstallerContext
        from xylem.config_utils import List, String, MergingDict
        inst = stubs.make_installer('apt', options={
            'l': dict(type=List(String), default=['d']),
            'm': dict(type=MergingDict(List(String)), default={'a': ['d']}),
        })
        stubs.platform([stubs.make_os('ubuntu', detected='v1',
                                      core=['apt'])], [inst])
        given = {'apt': c.pick([{}, {'l': ['x']}, {'m': {'b': ['y']}}],
                               'options')}
        cfg = stubs.config(installer_options=copy.deepcopy(given),
                           os_options={'features': ['f']})
        before = plain(cfg)
        want0 = {'l': given['apt'].get('l', ['d']),
                 'm': dict({'a': ['d']}, **given['apt'].get('m', {}))}
        live = []
        trace = []
        for step in range(depth):
            ops = [('new',)] if len(live) < 3 else []
            for i in range(len(live)):
                ops += [(o, i) for o in ('l', 'm', 'ma', 'f', 'assign',
                                         'setup')]
            op = c.pick(ops, 'step %d' % step)
            trace.append(op)
            c.event(repr(op))
            if op[0] == 'new':
                ic = InstallerContext(cfg)
                live.append([ic, copy.deepcopy(want0), ['f']])
            else:
                ic, m, _ = live[op[1]]
                o = ic.lookup_installer('apt').options
                if op[0] == 'l':
                    o['l'].append('n')
                    m['l'].append('n')
                elif op[0] == 'm':
                    o['m']['n'] = []
                    m['m']['n'] = []
                elif op[0] == 'ma':
                    o['m']['a'].append('n')
                    m['m']['a'].append('n')
                elif op[0] == 'f':
                    ic.get_os().options.features.append('n')
                    live[op[1]][2].append('n')
                elif op[0] == 'setup':
                    ic.setup_installers()
                    live[op[1]][1] = copy.deepcopy(want0)
                else:
                    ic.lookup_installer('apt').options = {'l': ['s']}
                    live[op[1]][1] = {'l': ['s'], 'm': {'a': ['d']}}
            if not c.fresh():
                continue
            for i, (ic, m, f) in enumerate(live):
                o = plain(ic.lookup_installer('apt').options)
                c.eq({k: o[k] for k in m}, m,
                     'installer options %d after %r' % (i, trace))
                c.eq(plain(ic.get_os().options), {'features': f},
                     'os options %d after %r' % (i, trace))
            c.eq(plain(cfg), before, 'config after %r' % (trace,))
            c.state([l[1:] for l in live])
    return fn


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('histories', h_description(5 if t else 4, 3), split=2,
                note='all operation sequences up to the depth'),
        Harness('xylem-config', h_xylem(5 if t else 4, 3), split=2),
        Harness('plugin-options', h_options(6 if t else 5), split=2),
    ]
