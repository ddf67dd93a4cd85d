"""C04: rules verification accepts exactly the well-formed rules."""

import json

from mc.engine import Harness
from mc import env
from mc.fullstack import Site
from mc.rulesref import (clone, doc_ok, installers_ok, ident_ok, expand_doc,
                         Bad)

PROPERTY = 'C04'
ASSUMPTIONS = [
    'versions listed below any_os other than any_version are outside the '
    'explored space',
]

D = 'default_installer'
IDENTS = ['a', 'A-b_c.d+1', '\u00fcn\u00ef', '\u4e2d', '5', '-', 'mountain lion', 'x\u2019y',
          'any', 'any_os', 'any_version', D, 'unset_installers', 'any_key',
          'ANY_OS', '', ' ', 'a b', 'a\n', '\na', 'a/b', 'a:b', 'a@b',
          "a'b", 'Mountain Lion', 'mountain lion ', 'a\tb', '\u00a0', 5, 1.5, None,
          True, b'b', ('t',)]
VALUES = [None, True, 5, 1.5, 'x', '', [], ['x'], {}, {'packages': []}, {'a': {}}]


class Skip(Exception):
    pass


def base():
    return {
        'k': {
            'ubuntu': {
                'v1': {'apt': {'packages': ['p'], 'depends': ['d', 'e']},
                       D: {'packages': []}},
                'any_version': {'pip': {'packages': ['q'], 'x': {'y': 1}}}},
            'any_os': {'any_version': {'pip': {'packages': ['p']}}}},
        'z': {'debian': {}}}


# paths to dict keys (rename) and values (replace)
KEYS = [('k',), ('k', 'ubuntu'), ('k', 'any_os'), ('k', 'ubuntu', 'v1'),
        ('k', 'ubuntu', 'any_version'), ('k', 'ubuntu', 'v1', 'apt'),
        ('k', 'ubuntu', 'v1', D), ('k', 'any_os', 'any_version', 'pip'),
        ('k', 'ubuntu', 'v1', 'apt', 'packages'),
        ('k', 'ubuntu', 'v1', 'apt', 'depends'),
        ('k', 'ubuntu', 'any_version', 'pip', 'x'), ('z',), ('z', 'debian')]
VALS = [(), ('k',), ('k', 'ubuntu'), ('k', 'any_os'), ('k', 'ubuntu', 'v1'),
        ('k', 'ubuntu', 'any_version'), ('k', 'any_os', 'any_version'),
        ('k', 'ubuntu', 'v1', 'apt'), ('k', 'ubuntu', 'v1', D),
        ('k', 'any_os', 'any_version', 'pip'),
        ('k', 'ubuntu', 'v1', 'apt', 'packages'),
        ('k', 'ubuntu', 'v1', 'apt', 'depends'),
        ('k', 'ubuntu', 'any_version', 'pip', 'x'), ('z', 'debian')]


def mutate(c, doc, n):
    what = c.choose(len(KEYS) + len(VALS) + 1, 'mutation %d' % n)
    if what < len(KEYS):
        path = KEYS[what]
        ident = c.pick(IDENTS, 'identifier for %r' % (path,))
        d = doc
        for p in path[:-1]:
            if not isinstance(d, dict) or p not in d:
                c.prune()
            d = d[p]
        if not isinstance(d, dict) or path[-1] not in d or ident in d:
            c.prune()
        items = [(ident if k == path[-1] else k, v) for k, v in d.items()]
        d.clear()
        d.update(items)
        return doc
    if what < len(KEYS) + len(VALS):
        path = VALS[what - len(KEYS)]
        v = clone(c.pick(VALUES, 'value for %r' % (path,)))
        if not path:
            return v
        d = doc
        for p in path[:-1]:
            if not isinstance(d, dict) or p not in d:
                c.prune()
            d = d[p]
        if not isinstance(d, dict) or path[-1] not in d:
            c.prune()
        d[path[-1]] = v
        return doc
    ident = c.pick(IDENTS, 'dependency')
    try:
        d = doc['k']['ubuntu']['v1']['apt']['depends']
        d[c.choose(2, 'which')] = ident
    except (KeyError, TypeError, IndexError):
        c.prune()
    return doc


def odd_any_os(doc):
    try:
        return any('any_os' in o and (
            not isinstance(o['any_os'], dict) or
            set(o['any_os']) - {'any_version'}) for o in doc.values())
    except (AttributeError, TypeError):
        return False


def judge(c, doc):
    from xylem.sources.rules_dict import verify_rules_dict
    from xylem.specs.plugins.rules import RulesSpec
    orig = clone(doc)
    out = []
    for allow in (True, False):
        if odd_any_os(doc) and doc_ok(doc, allow):
            continue
        got = c.call(verify_rules_dict, doc, allow_default_installer=allow)
        expect(c, got, doc_ok(doc, allow),
               'verification (placeholder allowed: %r) of %r' % (allow, doc))
        out.append(doc_ok(doc, allow))
        if allow:
            got = c.call(RulesSpec().verify_data, doc, 'url')
            expect(c, got, doc_ok(doc, True), 'verification of %r' % (doc,))
    c.eq(doc, orig, 'rules after verification')
    c.observe('%r %r' % (out, doc))


def expect(c, got, ok, what):
    if ok:
        c.check(got[0] == 'ok', lambda: '%s: rejected: %r' % (what, got))
    else:
        c.check(got[0] == 'exc', '%s: accepted' % what)
        c.check(isinstance(got[1], ValueError),
                lambda: '%s: unexpected exception %r' % (what, got))


def h_mutations(depth):
    def fn(c):
        doc = base()
        for n in range(depth):
            doc = mutate(c, doc, n)
        judge(c, doc)
    return fn


def h_aliases(c):
    """The same object at two places, as with YAML aliases."""
    doc = base()
    if c.flag('placeholder everywhere'):
        doc['k']['ubuntu']['any_version'] = {D: {'packages': ['q']}}
        del doc['k']['ubuntu']['v1']
    if c.flag('any_os first'):
        osd = doc['k']
        doc['k'] = dict(reversed(list(osd.items())))
    src = c.pick(VALS[1:], 'source')
    dst = c.pick(VALS[1:], 'alias')
    if src == dst[:len(src)]:
        c.prune()

    def at(path):
        d = doc
        for p in path:
            if not isinstance(d, dict) or p not in d:
                c.prune()
            d = d[p]
        return d
    x = at(src)
    at(dst)
    at(dst[:-1])[dst[-1]] = x
    if c.flag('also for another key'):
        doc = {'a': doc['k'], 'k': doc['k'], 'z': doc['z']}
    judge(c, doc)


def h_installer_dict(c):
    from xylem.sources.rules_dict import verify_installer_dict
    kind = c.choose(4, 'kind')
    d = {'apt': {'packages': ['p'], 'depends': ['d']},
         'pip': {'packages': []}}
    if kind == 0:
        d[c.pick(IDENTS, 'installer')] = {'packages': []}
    elif kind == 1:
        d = clone(c.pick(VALUES, 'installer dict'))
    elif kind == 2:
        d['apt'] = clone(c.pick(VALUES, 'rule'))
    else:
        d['apt'][c.pick(['packages', 'depends', 'other', 5],
                        'key')] = clone(c.pick(VALUES, 'value'))
    for allow in (True, False):
        got = c.call(verify_installer_dict, d, allow_default_installer=allow)
        expect(c, got, installers_ok(d, allow),
               'verification of installer dict %r (placeholder allowed: %r)' %
               (d, allow))
    c.observe(repr(d))


ALPHABET = ['a', '0', '.', '-', '_', '+', '\u2019', '\u00fc', ' ', '\n', ':', '/', '@',
            '\x00', "'"]


def h_identifiers(n):
    """Every identifier over the alphabet up to length n, as xylem key."""
    from xylem.sources.rules_dict import verify_rules_dict

    def fn(c):
        s = ''
        for i in range(n):
            k = c.choose(len(ALPHABET) + 1, 'char')
            if k == len(ALPHABET):
                break
            s += ALPHABET[k]
        for doc in ({s: {}}, {'k': {s: {}}}, {'k': {'ubuntu': {s: {}}}},
                    {'k': {'ubuntu': {'v1': {s: {}}}}},
                    {'k': {'ubuntu': {'v1': {'apt': {'depends': [s]}}}}}):
            got = c.call(verify_rules_dict, doc)
            expect(c, got, doc_ok(doc), 'verification of %r' % (doc,))
        c.observe('%r %r' % (s, ident_ok(s)))
    return fn


def h_update(c):
    """Invalid rules never reach the cache."""
    from xylem.update import update
    doc = mutate(c, base(), 0)
    try:
        text = json.dumps(doc)
        back = json.loads(text)
    except TypeError:
        c.prune()
    if back != doc and doc_ok(doc):
        c.prune()
    try:
        want = expand_doc(clone(back))
    except Bad:
        want = None
    if want is not None and odd_any_os(want):
        c.prune()
    valid = want is not None and doc_ok(want)
    site = Site(c)
    site.write_rules('a', text)
    site.write_sources('10.yaml', ['a'])
    with env.capture() as cap:
        got = c.call(update, config=site.config())
    what = 'update with rules %s' % text
    c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
    c.eq(bool(cap.stderr.strip()), not valid, what + ': error reported')
    if valid:
        c.eq(len(site.cache_files() or []), 1, what + ': cached sources')
    else:
        c.eq(site.cache_files() or [], [], what + ': cached sources')
    c.observe(repr(valid) + text)


def harnesses(tier):
    hs = [Harness('mutations_1', h_mutations(1), split=2),
          Harness('aliases', h_aliases, split=3),
          Harness('installer_dict', h_installer_dict, split=2),
          Harness('identifiers', h_identifiers(4 if tier == 'thorough' else 3),
                  split=2),
          Harness('update', h_update, split=2)]
    hs.append(Harness('mutations_2', h_mutations(2), split=2))
    return hs
