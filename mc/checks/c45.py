"""C45: every described option is set by exactly its own name and argument."""

import argparse
import json
import os

from mc.engine import Harness
from mc import env

PROPERTY = 'C45'
ASSUMPTIONS = [
    'names have at most one group; explicitly given argument names are '
    'lower-case letters and dashes; nothing is claimed about a description '
    'after it has rejected an option',
]

NAMES = ['a', 'b', 'a_b', 'a-b', 'g/a', 'g/b', 'g', 'a/b', 'g/a_b', 'ga']
ARGS = [None, True, 'b', '--a-b', 'z']
KINDS = ['string', 'bool', 'list', 'dict', 'merging']


def argument(name, arg):
    if not arg:
        return None
    if arg is True:
        return name.replace('_', '-').replace('/', '-')
    return arg[2:] if arg.startswith('--') else arg


def values(kind, n):
    """-> (default, value in a file, command line, value, config type)"""
    from xylem.config_utils import String, Boolean, List, Dict, MergingDict
    return {
        'string': ('d%d' % n, 'f%d' % n, ['c%d' % n], 'c%d' % n, String),
        'bool': (True, False, ['yes'], True, Boolean),
        'list': (['d%d' % n], ['f%d' % n], ['c%d, x' % n, 'y'],
                 ['c%d' % n, 'x', 'y'], List(String)),
        'dict': ({'d%d' % n: 1}, {'f': n}, ['c: %d' % n, '{e: 1}'],
                 {'c': n, 'e': 1}, Dict()),
        'merging': ({'d': n}, {'f': n}, ['c: %d' % n], {'c': n},
                    MergingDict()),
    }[kind]


def conflict(name, arg, seen):
    """Whether the option conflicts with those described before."""
    group = name.split('/')[0] if '/' in name else None
    for n, a, _ in seen:
        g = n.split('/')[0] if '/' in n else None
        if name == n or name == g or group == n:
            return True
        if arg is not None and arg == a:
            return True
    return False


def flat(conf, seen):
    out = {}
    for n, _, _ in seen:
        v = conf
        for part in n.split('/'):
            v = v[part]
        out[n] = v
    return out


def h_describe(n, names, args, kinds):
    def fn(c):
        from xylem import config_utils as cu
        seen = []
        d = cu.ConfigDescription('conf.yaml')
        for i in range(n):
            name = names[c.choose(len(names), 'name')]
            arg = args[c.choose(len(args), 'argument')]
            kind = kinds[i % len(kinds)] if n > 2 else c.pick(kinds, 'type')
            with_default = c.flag('default') if n < 3 else i == 1
            default, _, _, _, type_ = values(kind, i)
            kw = {'type': type_}
            if arg is True:
                kw['command_line'] = True
            elif arg:
                kw['command_line_argument'] = arg
            if with_default:
                kw['default'] = default
            what = 'description %r, adding %r %r' % (
                [(x, y) for x, y, _ in seen], name, kw)
            st, v = c.call(d.add, name, **kw)
            a = argument(name, arg)
            if conflict(name, a, seen):
                c.check(st == 'exc' and isinstance(
                    v, cu.ConfigDescriptionError), '%s: %s %r', what, st, v)
                c.observe('rejected')
                return
            c.check(st == 'ok', '%s: %s %r', what, st, v)
            seen.append((name, a, (kind, i, with_default)))
        what = 'description %r' % ([(x, y, z[0]) for x, y, z in seen],)
        unset = {'merging': {}}
        defaults = {x: values(k, i)[0] if w else unset.get(k)
                    for x, _, (k, i, w) in seen}

        def layout(conf, label):
            """Exactly the described options, groups accessible both ways."""
            c.eq(flat(conf, seen), label[1], '%s: %s' % (what, label[0]))
            tops = {x.split('/')[0] for x, _, _ in seen}
            c.eq(set(conf), tops, '%s: %s: entries' % (what, label[0]))
            for t in tops:
                c.check(getattr(conf, t.replace('-', '-')) == conf[t],
                        '%s: %s: attribute %s', what, label[0], t)
                subs = {x.split('/')[1] for x, _, _ in seen
                        if x.startswith(t + '/')}
                if subs:
                    c.eq(set(conf[t]), subs, '%s: %s: group %s' % (
                        what, label[0], t))
        layout(cu.config_from_defaults(d), ('defaults', defaults))
        # files set exactly the options they name
        for x, _, (k, i, w) in seen:
            doc = {'unknown': 1, 'b/a': 2}
            val = values(k, i)[1]
            if '/' in x:
                doc[x.split('/')[0]] = {x.split('/')[1]: val, 'unknown': 3}
            else:
                doc[x] = val
            if any(y.split('/')[0] == 'unknown' for y, _, _ in seen):
                continue
            want = dict(defaults)
            want[x] = dict(defaults[x], **val) if k == 'merging' else val
            layout(cu.config_from_parsed_yaml(doc, d, use_defaults=True),
                   ('file with %r' % (doc,), want))
        # and so does the command line
        cmds = [(x, a) for x, a, _ in seen]
        for chosen in range(1 << len(cmds)):
            line, want = [], dict(defaults)
            for j, (x, a, (k, i, w)) in enumerate(seen):
                if not chosen >> j & 1 or a is None:
                    continue
                _, _, words, val, _ = values(k, i)
                for word in words:
                    line += ['--' + a, word]
                want[x] = dict(defaults[x], **val) if k == 'merging' else val
            parser = argparse.ArgumentParser(
                prog='p', formatter_class=cu.ConfigHelpFormatter,
                add_help=False)
            d.add_arguments(parser)
            cu.add_global_config_arguments(parser, 'tool')
            with env.capture():
                st, ns = c.call(parser.parse_args, line)
            c.check(st == 'ok', '%s: %r: %r', what, line, ns)
            ns.config_dir = '/none'
            layout(cu.load_config(ns, d, 'tool'),
                   ('command line %r' % (line,), want))
        helptext = parser.format_help()
        for x, a, _ in seen:
            c.check(a is None or '--' + a in helptext,
                    '%s: --%s is not in the help', what, a)
        with env.capture():
            st, v = c.call(parser.parse_args, ['--nothing', 'x'])
        c.eq(st, 'exit', what + ': unknown option')
        c.observe(repr(sorted((x, y) for x, y, _ in seen)))
    return Harness('options_%d' % n, fn, split=3)


def harnesses(tier):
    if tier == 'quick':
        return [h_describe(1, NAMES, ARGS, KINDS),
                h_describe(2, NAMES, ARGS, ['string', 'merging']),
                h_describe(3, ['a', 'a_b', 'g/a', 'g/b', 'a/b', 'g'],
                           [None, True, 'b'], ['list', 'string', 'dict'])]
    return [h_describe(1, NAMES, ARGS, KINDS),
            h_describe(2, NAMES, ARGS, KINDS),
            h_describe(3, NAMES, ARGS[:4], ['list', 'string', 'merging'])]
