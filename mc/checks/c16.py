"""C16: OS override text is parsed and applied exactly."""

import itertools
import json
import os

from mc.engine import Harness
from mc import cli, env, stubs
from mc.checks import c13
from mc.sizes import sizes, names

PROPERTY = 'C16'
LOUD = True
ASSUMPTIONS = [
    'white space around the parts of an override is not significant',
]

TOKENS = ['ubuntu', 'deb', 'v1', 'v 2', 'f', ':', '&', ',', ' ']
KNOWN = {'ubuntu': ['v1', 'v 2', 'v1:f'], 'deb': ['v1']}


def texts(n):
    seen = {}
    for k in range(n + 1):
        for t in itertools.product(TOKENS, repeat=k):
            seen.setdefault(''.join(t))
    return list(seen)


FIXED = ['ubuntu:v1&f,g', 'ubuntu:v1&', 'ubuntu&f', 'ubuntu:v 2 & f , g ',
         'ubuntu:v1:v1', 'ubuntu: v1:f', 'ubuntu:v1:f&f', 'ubuntu:V1', 'Ubuntu:v1', 'ubuntu;v1', 'ubuntu=v1',
         'deb:v 2', 'ubuntu:v1&f&g', 'ubuntu&f:v1', 'deb:v1&,f',
         '\tubuntu:\tv1', 'ubuntu\n', 'ubuntu:v1\n', 'ubuntu/v1',
         'ubuntu:None', 'None', 'any_os', 'ubuntu:any_version', '~', '{}',
         '[]', 'ubuntu: v1', '"ubuntu:v1"', 'ub\xfcntu:v1', 'ubuntu:v1 v 2']


def parse(text):
    """Reference reading -> (name, version or None, features or None)"""
    head, amp, tail = text.partition('&')
    features = None
    if amp:
        features = [x.strip() for x in tail.split(',')] if tail.strip() else []
    name, colon, version = head.partition(':')
    return name.strip(), version.strip() if colon else None, features


def expected(text, detected):
    name, version, features = parse(text)
    if name not in KNOWN:
        return 'error', None, None
    if version is None:
        if detected.get(name) is None:
            return 'error', None, None
        return 'ok', (name, detected[name]), features
    if version not in KNOWN[name]:
        return 'error', None, None
    return 'ok', (name, version), features


def setup(detected):
    stubs.platform([stubs.make_os(n, versions=KNOWN[n], default='apt-' + n,
                                  core=['apt-' + n], detected=detected.get(n))
                    for n in ('deb', 'ubuntu')],
                   [stubs.make_installer('apt-' + n) for n in KNOWN])


DETECT = [{'ubuntu': 'v1'}, {'ubuntu': 'v9'}, {'deb': 'v1'}, {}]
SEEN = []


def probe(args):
    from xylem.config import get_config
    from xylem.installers import InstallerContext
    SEEN.append(describe(InstallerContext(config=get_config())))


def describe(ic):
    o = ic.get_os()
    return (ic.get_os_tuple(), o.name, o.get_version(), ic.get_os_string(),
            list(o.options.features), ic.get_default_installer_name(),
            ic.core_installer_names)


PROBE = dict(title='probe', description='probe', main=probe,
             prepare_arguments=lambda p: p, prepare_config=lambda d: None)


def ask(c, route, text, cfg_features):
    """-> ('ok', description) | ('error', None)"""
    from xylem.exception import XylemError
    from xylem.config import ensure_config
    from xylem.installers import InstallerContext
    if route == 'api':
        cfg = {'os_override': text}
        if cfg_features is not None:
            cfg['os_options'] = {'features': cfg_features}
        with env.capture():
            st, v = c.call(lambda: describe(InstallerContext(
                config=ensure_config(cfg))))
        if st == 'ok':
            return v
        c.check(isinstance(v, XylemError) and str(v).strip(),
                'override %r: raised %s: %s', text, type(v).__name__, v)
        return None
    env.plugins.script('xylem.commands', [('probe', PROBE)])
    d = c13.Dirs(c)
    del SEEN[:]
    argv = ['--xylem-dir', d.xdir, '--no-color', 'probe']
    doc = {}
    if cfg_features is not None:
        doc['os_options'] = {'features': cfg_features}
    if route == 'file':
        doc['os_override'] = text
    elif route == 'option before':
        argv = ['--os=' + text] + argv
    elif route == 'option after':
        argv += ['--os', text] if not text.startswith('-') else \
            ['--os=' + text]
    if route != 'file' and doc is not None:
        doc['os_override'] = 'deb:v1&other'      # is overridden
        if cfg_features is None and '&' not in text:
            doc['os_override'] = 'nonsense'
    c13.write(d.specified(), doc)
    r = cli.run(argv)
    c.check(not r.exc, 'override %r by %s: %r', text, route, r)
    if r.code == 0:
        c.eq(len(SEEN), 1, 'runs of the command')
        return SEEN[0]
    c.eq(r.code, 1, 'override %r by %s: exit status' % (text, route))
    c.check(r.err.strip(), 'override %r by %s: no error message', text, route)
    return None


def h_text(pool, routes, detect, features):
    def fn(c):
        text = c.pick(pool, 'text')
        detected = c.pick(detect, 'detected')
        route = c.pick(routes, 'route')
        cfg_features = c.pick(features, 'features')
        setup(detected)
        st, tup, feats = expected(text, detected)
        got = ask(c, route, text, cfg_features)
        what = 'override %r by %s, running on %r' % (text, route, detected)
        if st == 'error':
            c.check(got is None, '%s: accepted as %r', what, got)
            c.observe('error')
            return
        if feats is None:
            feats = cfg_features or []
        want = (tup, tup[0], tup[1], '%s:%s' % tup, feats, 'apt-' + tup[0],
                ['apt-' + tup[0]])
        c.check(got is not None, '%s: rejected', what)
        c.eq(got, want, what)
        c.observe(repr(want))
    return fn


def h_none():
    """Without an override the OS is detected."""
    def fn(c):
        detected = c.pick(DETECT, 'detected')
        setup(detected)
        route = c.pick(['api', 'api null', 'file null', 'file', 'command'],
                       'route')
        env.plugins.script('xylem.commands', [('probe', PROBE)])
        from xylem.config import ensure_config
        from xylem.installers import InstallerContext
        from xylem.os_support import UnsupportedOSError
        if route.startswith('api'):
            cfg = ensure_config({'os_override': None} if 'null' in route
                                else {})
            st, v = c.call(lambda: describe(InstallerContext(config=cfg)))
            if st == 'exc':
                c.check(isinstance(v, UnsupportedOSError), 'raised %r', v)
                v = None
        else:
            d = c13.Dirs(c)
            del SEEN[:]
            if route != 'command':
                c13.write(d.specified(), {'os_override': None}
                          if 'null' in route else {})
            r = cli.run(['--xylem-dir', d.xdir, 'probe'])
            c.check(not r.exc, '%r', r)
            v = SEEN[0] if r.code == 0 else None
        if not detected:
            c.eq(v, None, 'unsupported OS via ' + route)
        else:
            c.check(v is not None, 'detection failed via %s', route)
            c.eq(v[0], list(detected.items())[0], 'detected OS')
        c.observe(repr(v))
    return fn


def h_sizes(tier):
    """Overrides with many features, and long names and versions."""
    def fn(c):
        n = c.pick(sizes(tier), 'number')
        what = c.pick(['features', 'long', 'configured', 'known'], 'of')
        setup(DETECT[0])
        features, cfg, tup = None, None, ('ubuntu', 'v1')
        if what == 'features':
            features = names(n, 'f')
            text = 'ubuntu:v1&' + c.pick([',', ' , '], 'separator').join(
                features)
        elif what == 'long':
            text, features = 'ubuntu:v1&' + 'f' * n, ['f' * n] * (n > 0)
        elif what == 'configured':
            text, cfg = 'ubuntu:v1', names(n, 'f')
        else:
            versions = names(n + 1, 'v')
            stubs.platform([stubs.make_os(
                x, versions=versions, default='apt-' + x,
                core=['apt-' + x]) for x in names(n, 'os') + ['ubuntu']])
            tup = 'ubuntu', versions[-1]
            text = ':'.join(tup)
        route = c.pick(['api', 'file', 'option before', 'option after'],
                       'route')
        got = ask(c, route, text, cfg)
        if features is None:
            features = cfg or []
        c.check(got is not None, '%s: %r rejected', route, text)
        c.eq(got[:5], (tup, tup[0], tup[1], '%s:%s' % tup, features),
             '%s: %r' % (route, text))
        c.observe((what, n, route))
    return Harness('sizes', fn, split=1)


def harnesses(tier):
    t = tier == 'thorough'
    return [
        Harness('texts-api', h_text(texts(5 if t else 4), ['api'],
                                    DETECT[:1] if t else DETECT[:2], [None]),
                split=1,
                note='every override text up to the length bound'),
        Harness('texts-command-line', h_text(
            texts(4 if t else 3), ['file', 'option before', 'option after'],
            DETECT[:1], [None]), split=1),
        Harness('fixed', h_text(
            FIXED + texts(2), ['api', 'file', 'option before',
                               'option after'],
            DETECT, [None, [], ['x', 'f']]), split=1),
        Harness('no-override', h_none()),
        h_sizes(tier),
    ]
