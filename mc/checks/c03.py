"""C03: compacting rules preserves every lookup."""

import io
import json
import os

from mc.engine import Harness
from mc import cli, env, stubs
from mc.rulesref import ref_lookup, NoDefault, clone, share

PROPERTY = 'C03'
ASSUMPTIONS = [
    'rules below any_os are listed below any_version (as written by rules '
    'expansion)',
]

D = 'default_installer'
SHAPES = [{'packages': []}, {'packages': ['p']}, {'packages': ['p', 'q']},
          {'packages': ['p'], 'depends': ['d']}, {}, {'option': 1}]
DEFAULTS = [{'ubuntu': 'apt', 'debian': None}, {'ubuntu': None},
            {'ubuntu': 'pip', 'debian': 'apt'}]


SAME = 'keys-with-the-same-rules-object'


class Ambiguous(Exception):
    pass


def table(rules, defaults, keys=('k', 'z')):
    """All lookups on all platforms of the alphabet."""
    out = {}
    for key in keys:
        for osn in ('ubuntu', 'debian', 'osx'):
            for ver in ('v1', 'v2', 'v9'):
                try:
                    out[key, osn, ver] = ref_lookup(
                        rules, key, osn, ver, defaults.get(osn) or '?' + osn)
                except NoDefault:
                    out[key, osn, ver] = 'no default'
    return out


def ambiguous(rules, defaults):
    return any(D in ins and defaults.get(osn) in ins
               for osd in rules.values() for osn, vs in osd.items()
               if osn != 'any_os' and defaults.get(osn)
               for ins in vs.values())


def judge(c, rules, defaults, shared=False):
    from xylem.specs.plugins.rules import compact_rules, expand_rules
    what = 'compacting %r for %r' % (rules, defaults)
    given = share(rules) if shared else clone(rules)
    # Known finding: the rules of a key are compacted in place, and then once
    # more for another key that has the very same object
    same_keys = shared and len({id(o) for o in given.values()}) < len(given)
    with env.capture():
        got = c.call(compact_rules, given, dict(defaults))
    if same_keys and not ambiguous(rules, defaults):
        c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got),
                finding=SAME if isinstance(got[1], (
                    AttributeError, KeyError, TypeError)) else None)
    if ambiguous(rules, defaults):
        c.check(got[0] == 'exc' and isinstance(got[1], ValueError),
                lambda: what + ': one of two rules dropped: %r' % (got,))
        c.observe('ambiguous')
        return
    c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
    compacted = clone(got[1])
    again = expand_rules(clone(compacted))
    c.eq(table(again, defaults), table(rules, defaults), what + ' gave %r, '
         'lookups' % (compacted,))
    with env.capture():
        twice = c.call(compact_rules, clone(again), dict(defaults))
    if twice != ('ok', compacted):
        # Known finding: if all other versions are dropped as equal to
        # any_version, the remaining dict is only compacted the second time.
        short = {key: {o: v['any_version'] if isinstance(v, dict) and
                       list(v) == ['any_version'] and not isinstance(
                           v['any_version'], dict) else v
                       for o, v in osd.items()}
                 for key, osd in compacted.items()}
        c.eq(twice, ('ok', compacted), what + ' twice',
             finding='only-any-version-remains'
             if twice == ('ok', short) else None)
    c.observe(json.dumps(compacted))


def h_installer_dicts(c):
    """Installer dicts of every shape at any_version and two versions."""
    defaults = c.pick(DEFAULTS, 'defaults')
    vs = {}
    for ver, shapes in (('any_version', SHAPES[:4]), ('v1', SHAPES),
                        ('v2', SHAPES[1:2])):
        if not c.flag('has ' + ver):
            continue
        vs[ver] = {}
        for inst in c.pick([(), (D,), ('apt',), ('pip',), (D, 'pip'),
                            ('apt', 'pip'), (D, 'apt')], ver):
            vs[ver][inst] = clone(c.pick(shapes, ver + ' ' + inst)) \
                if inst == D or len(vs[ver]) == 0 else {'packages': ['p']}
    if c.flag('reverse'):
        vs = dict(reversed(list(vs.items())))
    judge(c, {'k': {'ubuntu': vs}}, defaults)


VDICTS = [
    None, {},
    {'any_version': {D: {'packages': ['p']}}},
    {'any_version': {D: {'packages': []}}},
    {'v1': {D: {'packages': ['p']}}},
    {'v1': {D: {'packages': ['p']}}, 'any_version': {D: {'packages': ['p']}}},
    {'v1': {'apt': {'packages': ['p']}}, 'any_version': {D: {
        'packages': ['p']}}},
    {'v1': {D: {'packages': ['x']}}, 'v2': {D: {'packages': ['p']}},
     'any_version': {D: {'packages': ['p']}}},
    {'any_version': {'pip': {'packages': ['p']}}},
    {'v1': {}, 'any_version': {D: {'packages': ['p']}}},
]
ANY = [None, {}, {'pip': {'packages': ['p']}}, {'pip': {'packages': []}},
       {'apt': {'packages': ['p'], 'depends': ['d']}, 'pip': {}}]


def h_documents(c):
    defaults = c.pick(DEFAULTS, 'defaults')
    rules = {}
    for key, oses in (('k', ('ubuntu', 'debian')), ('z', ('ubuntu',))):
        osd = {}
        for o in oses:
            v = c.pick(VDICTS, key + ' ' + o)
            if v is not None:
                osd[o] = clone(v)
        a = c.pick(ANY if key == 'k' else ANY[:3:2], key + ' any_os')
        if a is not None:
            osd['any_os'] = {'any_version': clone(a)}
        if osd or key == 'k':
            rules[key] = osd
    judge(c, rules, defaults)


SHARED = [
    None, {'any_version': {D: {'packages': ['p']}}},
    {'v1': {D: {'packages': ['p']}}, 'any_version': {D: {'packages': ['p']}}},
    {'v1': {'pip': {'packages': []}}, 'any_version': {D: {'packages': []}}},
    {'v1': {'pip': {'packages': ['p'], 'x': ['p']}},
     'v2': {'pip': {'packages': ['p'], 'x': ['p']}}},
    {'v1': {'apt': {'packages': ['p']}}, 'any_version': {'apt': {
        'packages': ['p']}}}]


def h_aliases(c):
    """Equal parts of the rules are the same object, as with YAML aliases."""
    defaults = c.pick(DEFAULTS, 'defaults')
    rules = {}
    for key, oses in (('k', ('ubuntu', 'debian')), ('z', ('ubuntu', 'osx'))):
        rules[key] = {}
        for o in oses:
            v = c.pick(SHARED if key == 'k' else SHARED[:4], key + ' ' + o)
            if v is not None:
                rules[key][o] = clone(v)
    if c.flag('any_os'):
        rules['k']['any_os'] = {'any_version': {'pip': {'packages': []}}}
    if c.flag('same rules'):
        rules['z'] = clone(rules['k'])
    judge(c, rules, defaults, True)


def h_command(c):
    """The maintenance command on real files."""
    import yaml
    from xylem.specs.plugins.rules import expand_rules
    stubs.platform([stubs.make_os('ubuntu', default='apt', detected='v1',
                                  parents=['debian', 'unix']),
                    stubs.make_os('debian', default=None, parents=['unix'])])
    text = c.pick([
        '', '{}', 'k: {ubuntu: p}', 'k: {ubuntu: [p, q], debian: {v1: x}}',
        'k:\n  ubuntu:\n    v1: {apt: {packages: [p]}}\n'
        '    any_version: {apt: [p], pip: [x]}\n  any_os: {pip: [p]}\n',
        'k: {ubuntu: {v1: {apt: {packages: [p], depends: [d, e]}}}}',
        'k: {any_os: {pip: {packages: p, extra: "yes"}}}',
        'k: {ubuntu: "a@b"}', 'k: {ubuntu: ["@!x@|", "@{redf}", "@@"]}',
        '\u00fcber: {ubuntu: ["\u00e4", "1.0", "null", "on"]}',
        'k: {ubuntu: {"14.04": ["2014-02-30", "5", "a: b", " x "]}}',
        'k: {ubuntu: {v1: null, any_version: p}}',
        'k: {ubuntu: &u {v1: {apt: [p]}, any_version: &i {pip: [q, r]}}, '
        'debian: *u, any_os: *i}',
        'k: {ubuntu: &u [p, q]}\nz: {ubuntu: *u, debian: {v1: *u}}',
        'k: &k {ubuntu: p, debian: {v1: {apt: [x]}}}\nz: *k\n',
        # rejected
        'k: [', '[]', 'k: p', 'k: {any_os: p}', 'k: {"a b": p}',
        'k: {ubuntu: {v1: {apt: a, default_installer: b}}}'], 'file')
    write = c.pick([None, '-w', '--write'], 'write')
    defaults = {'ubuntu': 'apt', 'debian': None}
    bad = text in ('k: [', '[]', 'k: p', 'k: {any_os: p}', 'k: {"a b": p}',
                   'k: {ubuntu: {v1: {apt: a, default_installer: b}}}')
    path = os.path.join(c.tmp(), 'r.yaml')
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    res = cli.run(['--no-color', '_compact_rules_file', path] +
                  ([write] if write else []))
    with io.open(path, encoding='utf-8') as f:
        after = f.read()
    what = 'compact command %r on %r' % (write, text)
    if bad:
        c.check(res.code != 0, lambda: '%s: %r' % (what, res))
        c.eq(after, text, what + ': file content')
        c.observe('rejected')
        return
    c.check(res.code == 0 and not res.exc, lambda: '%s: %r' % (what, res))
    if write:
        result = after
    else:
        c.eq(after, text, what + ': file content')
        result = res.out
    before = expand_rules(yaml.safe_load(text))
    loaded = c.call(lambda: expand_rules(yaml.safe_load(result)))
    c.check(loaded[0] == 'ok', lambda: '%s wrote %r: %r' %
            (what, result, loaded))
    keys = sorted(set(before) | set(loaded[1])) or ['k']
    for ver in ('v1', '14.04'):
        for key in keys:
            for osn in ('ubuntu', 'debian', 'osx'):
                c.eq(ref_lookup(loaded[1], key, osn, ver,
                                defaults.get(osn) or '?'),
                     ref_lookup(before, key, osn, ver,
                                defaults.get(osn) or '?'),
                     '%s wrote %r, lookup of %s' % (what, result, key))
    c.observe(result)


def harnesses(tier):
    return [Harness('installer_dicts', h_installer_dicts, split=4),
            Harness('aliases', h_aliases, split=3),
            Harness('documents', h_documents, split=3),
            Harness('command', h_command, split=2)]
