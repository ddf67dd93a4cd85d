"""C02: shorthand rules mean exactly their documented long form."""

import io
import json
import os

from mc.engine import Harness
from mc.rulesref import expand_doc, doc_ok, clone, Bad

PROPERTY = 'C02'
ASSUMPTIONS = [
    'documents are values a YAML file can contain (dict, list, text, number, '
    'boolean, null); the same object may occur twice at the same level (YAML '
    'aliases)',
]

PKG = [None, 'p', [], ['p'], ['p', 'q'], 5]
DEP = ['absent', None, 'd', [], ['d', 'e'], ['bad key'], 5, {'x': 1}]


def rule(c, full):
    if not full:
        return c.pick([['r'], {'packages': 'r', 'depends': 'd'}, 5], 'rule')
    kind = c.pick(['null', 'str', 'list', 'dict', 'num', 'bool'], 'rule kind')
    if kind == 'null':
        return None
    if kind == 'str':
        return c.pick(['p', ''], 'rule str')
    if kind == 'list':
        return c.pick([[], ['p'], ['p', 'q']], 'rule list')
    if kind == 'num':
        return c.pick([5, 1.5], 'num')
    if kind == 'bool':
        return c.flag('bool')
    d = {}
    p = c.pick(['absent'] + PKG, 'packages')
    if p != 'absent':
        d['packages'] = clone(p)
    e = c.pick(DEP, 'depends')
    if e != 'absent':
        d['depends'] = clone(e)
    if c.flag('extra option'):
        d['option'] = {'x': None}
    return d


def installers(c, full, names=('default_installer', 'apt')):
    kind = c.pick(['dict', 'null', 'str', 'list', 'num'], 'installer kind')
    if kind == 'null':
        return None
    if kind == 'str':
        return 'p'
    if kind == 'list':
        return c.pick([[], ['p', 'q']], 'installer list')
    if kind == 'num':
        return 7
    d = {}
    for k, n in enumerate(names):
        if c.flag('has ' + n):
            d[n] = rule(c, full and k == 0)
    return d


def versions(c, full):
    kind = c.pick(['dict', 'null', 'str', 'list', 'num', 'bool'],
                  'version kind')
    if kind == 'null':
        return None
    if kind == 'str':
        return 'p'
    if kind == 'list':
        return c.pick([[], ['p', 'q']], 'version list')
    if kind == 'num':
        return 0
    if kind == 'bool':
        return False
    d = {}
    which = c.pick([('v1',), ('any_version',), ('any_version', 'v1'), ()],
                   'versions')
    for k, v in enumerate(which):
        d[v] = installers(c, full and k == 0)
    return d


def any_os(c, full):
    kind = c.pick(['any_version', 'direct', 'both', 'str', 'null', 'num'],
                  'any_os kind')
    if kind == 'any_version':
        return {'any_version': installers(c, full, ('pip', 'apt'))}
    if kind == 'direct':
        return {i: rule(c, full and i == 'pip') for i in
                c.pick([(), ('pip',), ('pip', 'apt')], 'direct installers')}
    if kind == 'both':
        return {'any_version': {'pip': ['p']}, 'v1': {'pip': ['q']}}
    return {'str': 'p', 'null': None, 'num': 3}[kind]


def verdict(c, doc):
    """What the documentation says about ``doc``."""
    try:
        want = expand_doc(clone(doc))
    except Bad:
        return None
    return want if doc_ok(want) else None


CTOR = 'spec-parsing-error-constructor'


def rejected_properly(c, got, kinds, what):
    """Rejected with one of ``kinds``.

    Known finding: SpecParsingError cannot be constructed, its constructor
    fails with a TypeError (still a rejection, but with the wrong error).
    """
    e = got[1]
    ctor = type(e) is TypeError and 'SpecParsingError' in str(e)
    c.check(isinstance(e, kinds), lambda: '%s: unexpected %r' % (what, got),
            finding=CTOR if ctor else None)


def judge(c, doc, what=None, shared=False):
    from xylem.specs.plugins.rules import expand_rules, RulesSpec
    from xylem.specs.plugins.rules import SpecParsingError
    spec = RulesSpec()

    def pipeline(d):
        d = expand_rules(d)
        spec.verify_data(d, 'url')
        return d
    want = verdict(c, doc)
    what = 'expanding %r' % (what or clone(doc),)
    got = c.call(pipeline, doc if shared else clone(doc))
    if want is None:
        c.check(got[0] == 'exc', lambda: '%s: invalid rules accepted: %r' %
                (what, got))
        rejected_properly(c, got, (SpecParsingError, ValueError), what)
        c.check(str(got[1]).strip(), what + ': error without message')
        c.observe('rejected: ' + type(got[1]).__name__)
        return
    c.check(got[0] == 'ok', lambda: '%s: valid rules rejected: %r' %
            (what, got))
    c.eq(got[1], want, what)
    c.eq(expand_rules(clone(got[1])), want, what + ' twice')
    c.observe(json.dumps(want))


def h_named(c):
    judge(c, {'k': {'ubuntu': versions(c, True)}})


def h_any_os(c):
    d = {'any_os': any_os(c, True)}
    if c.flag('with ubuntu'):
        d['ubuntu'] = {'v1': ['u']}
    judge(c, {'k': d})


SIBLINGS = [
    None, 'p', [], ['p'], {'v1': 'p'}, {'v1': None, 'any_version': ['q']},
    {'v1': {'apt': 'p'}}, {'any_version': {'default_installer': 'p',
                                           'pip': {'packages': 'x'}}}, 5]


def h_siblings(c):
    """Two keys, two OSs each: entries are expanded independently."""
    def osd():
        return {o: clone(c.pick(SIBLINGS, o)) for o in ('ubuntu', 'debian')}
    doc = {'k': osd(), 'z': osd()}
    if c.flag('reverse'):
        doc = dict(reversed(list(doc.items())))
    judge(c, doc)


def h_aliases(c):
    """YAML aliases: the same object at several places of one level."""
    x = clone(c.pick(SIBLINGS[:-1] + [{'v1': {'apt': {'packages': None,
                                                      'depends': 'd'}}}], 'x'))
    kind = c.choose(4, 'where')
    if kind == 0:
        doc = {'k': {'ubuntu': x, 'debian': x}}
    elif kind == 1:
        o = {'ubuntu': x}
        doc = {'k': o, 'z': o}
    elif kind == 2:
        i = clone(c.pick([{'pip': 'p'}, {'pip': ['p'], 'apt': None}], 'i'))
        doc = {'k': {'ubuntu': {'v1': i, 'any_version': i}, 'any_os': i}}
    else:
        r = clone(c.pick(['p', {'packages': 'p'}, {'depends': []}], 'r'))
        doc = {'k': {'ubuntu': {'v1': {'apt': r, 'pip': r}}}}
    judge(c, doc, what=clone(doc), shared=True)


def h_document(c):
    """Documents that are not dicts of dicts, through a real file."""
    from xylem.specs.plugins.rules import RulesSpec, SpecParsingError
    import yaml
    texts = [('', {}), ('null', {}), ('{}', {}), ('# comment\n', {}),
             ('[]', None), ('foo', None), ('5', None), ('k: null', None),
             ('k: p', None), ('k: [p]', None), ('k: {}', {'k': {}}),
             ('k: {ubuntu: p}', {'k': {'ubuntu': {'any_version': {
                 'default_installer': {'packages': ['p']}}}}}),
             ('k:\n  ubuntu:\n    "14.04": [a]\n', {'k': {'ubuntu': {'14.04': {
                 'default_installer': {'packages': ['a']}}}}}),
             ('k:\n  ubuntu:\n    14.04: [a]\n', None),
             ('5: {ubuntu: p}', None), ('k: {5: p}', None),
             ('k: {ubuntu: {v1: {5: p}}}', None),
             ('k: {ubuntu: {v1: {apt: {5: p}}}}', None),
             ('k: {any_os: p}', None), ('k: {any_os: {pip: p}}', {
                 'k': {'any_os': {'any_version': {'pip': {
                     'packages': ['p']}}}}}),
             ('k: [', None), ('k: {ubuntu: 2014-02-30}', None),
             ('k: {ubuntu: 2014-02-03}', None), ('k: {ubuntu: !!bool x}', None),
             ('\u00fcber: {ubuntu: \u00e4}', {'\u00fcber': {'ubuntu': {
                 'any_version': {'default_installer': {
                     'packages': ['\u00e4']}}}}}),
             ('k: {any_os: {any_version: {pip: p}, v1: q}}', None)]
    text, want = c.pick(texts, 'text')
    path = os.path.join(c.tmp(), 'r.yaml')
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    spec = RulesSpec()

    def load():
        d = spec.load_data('file://' + path)
        spec.verify_data(d, 'file://' + path)
        return d
    got = c.call(load)
    if want is None:
        c.check(got[0] == 'exc', lambda: 'loading %r accepted: %r' %
                (text, got))
        rejected_properly(c, got, (SpecParsingError, ValueError,
                                   yaml.YAMLError), 'loading %r' % text)
    else:
        c.eq(got, ('ok', want), 'loading %r' % text)
    c.observe(repr(want))


def harnesses(tier):
    hs = [Harness('named_os', h_named, split=3),
          Harness('any_os', h_any_os, split=3),
          Harness('siblings', h_siblings, split=2),
          Harness('aliases', h_aliases, split=1),
          Harness('documents', h_document, split=1)]
    return hs
