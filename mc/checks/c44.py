"""C44: results do not depend on the order of entries or on hash seeds."""

import itertools
import json
import os
import subprocess
import sys

from mc.engine import Harness
from mc import cli, env, stubs
from mc.fullstack import Site

PROPERTY = 'C44'
ASSUMPTIONS = []

#  roles, to be played by names in every way
KEYS = ['alpha', 'beta', 'gamma', 'delta']
NAMES = ['apt', 'zzz', 'pip']


def rules(k, i, order):
    """Rules with entries in one of the orders; k, i: names by role."""
    def pk(*ps):
        return {'packages': list(ps)}
    any_os = {'any_version': {i[2]: pk('any')}}
    ubuntu = [('any_version', [(i[0], pk('u-any')), (i[1], pk('u-other'))]),
              ('v1', [(i[1], pk('u-v1'))]),
              ('v2', [(i[0], pk('never'))])]
    doc = [(k[0], [('ubuntu', ubuntu), ('debian', [('v1', [
        (i[0], pk('never'))])]), ('any_os', any_os)]),
        (k[1], [('any_os', any_os), ('ubuntu', [('any_version', [
            (i[1], pk('b', 'a')), (i[0], pk('z', 'y', 'x'))])])]),
        (k[2], [('ubuntu', [('v1', [(i[2], pk('g2', 'g1'))])])]),
        (k[3], [('ubuntu', [('any_version', [
            (i[2], pk('d2')), (i[1], pk('d1')), (i[0], [
                ('zeta', 1), ('packages', ['d0', 'c0']), ('eta', 2),
                ('depends', ['x', 'a'])])])])]),
        ('nowhere', [('ubuntu', [('any_version', [
            ('nope', pk('n')), ('never', pk('n'))])])])]

    def build(node):
        if isinstance(node, list) and node and isinstance(node[0], tuple):
            ps = list(node)
            return {a: build(b) for a, b in order(ps)}
        return node
    return build(doc)


def reordered(kind):
    if kind == 'same':
        return lambda ps: ps
    if kind == 'reversed':
        return lambda ps: ps[::-1]
    if kind == 'rotated':
        return lambda ps: ps[1:] + ps[:1]
    if kind == 'swapped':
        return lambda ps: ps[1::-1] + ps[2:]
    if kind == 'sorted':
        return lambda ps: sorted(ps, key=lambda p: p[0])
    return lambda ps: sorted(ps, key=lambda p: p[0])[::-1]


ORDERS = ['same', 'reversed', 'rotated', 'swapped', 'sorted', 'sorted down']


def platform(i):
    installed = set()

    def make(name_, additional):
        class Inst(stubs.make_installer(name_, additional=additional)):
            def filter_uninstalled(self, resolved):
                return [r for r in resolved if r.package not in installed]
        return Inst
    stubs.platform(
        [stubs.make_os('ubuntu', versions=['v1', 'v2'], core=i[:2],
                       default=i[0], detected='v1'),
         stubs.make_os('debian', versions=['v1'], core=i[:1], default=i[0])],
        [make(i[2], True), make(i[1], False), make(i[0], False)])

    def handler(argv):
        if installed & {'broken'}:
            return 1, b'', b''
        installed.update(a for a in argv[2:] if a[0] != '-')
        return 0, b'', b''
    env.procs.reset(handler)
    return installed


def session(root, k, i, order, config_order):
    """Everything a session shows and does, with names replaced by roles."""
    class C(object):
        def tmp(self):
            return root
    installed = platform(i)
    site = Site(C())
    xdir = os.path.join(site.root, 'x')
    os.mkdir(xdir)
    o, co = reordered(order), reordered(config_order)
    site.write_sources('10.yaml', ['r'])
    site.write_rules('r', rules(k, i, o))
    with open(os.path.join(xdir, 'config.yaml'), 'w') as f:
        json.dump(dict(co([
            ('sources_dir', site.sources_dir), ('cache_dir', site.cache_dir),
            ('install_from', dict(co([(i[0], [k[0]]), (i[1], [k[1]]),
                                      (i[2], [])]))),
            ('installer_options', dict(co([
                (n, dict(co([('as_root', False), ('odd', 1), ('even', 2),
                             ('none', 0)]))) for n in i])))])), f)

    def run(*args):
        env.procs.calls[:] = []
        r = cli.run(['--xylem-dir', xdir] + list(args))
        return [r.code, env.strip_ansi(r.out), env.strip_ansi(r.err), r.exc,
                [list(a) for a, _ in env.procs.calls]]
    out = [run('update'),
           run('resolve', '--show-default-installer', k[1], k[0], k[2]),
           run('resolve', k[2], 'missing', k[3], k[0], 'nowhere'),
           sorted(run('resolve', '--all', k[2])[1].splitlines()),
           run('install', '--dry-run', k[2], k[0], k[3], k[1]),
           run('install', k[1], k[3], k[2], k[0]),
           run('install', '--all', '--continue-on-error', '--reinstall',
               k[0])]
    if order == config_order:
        out.append([run('lookup', x) for x in k])
        out.append(run('_compact_rules_file', site.rules_path('r')))
    from xylem.installers import InstallerContext
    with env.capture():
        ic = InstallerContext(stubs.config())
    out.append([ic.core_installer_names, ic.additional_installer_names])
    # everything that can fail, several times
    installed.clear()
    installed.add('broken')
    out.append(run('install', '--continue-on-error', k[3], 'no2', k[0], 'no1',
                   k[1], 'nowhere', k[2], 'no3'))
    site.write_sources('20.yaml', ['bad%d' % n for n in (2, 1, 3)])
    for n in (1, 2):
        site.write_rules('bad%d' % n, {'k%d' % j: {'ubuntu': {'v%d' % j: {
            'a b': n, 'c d': j}}} for j in range(n)})
    out.append(run('update'))
    return out


def rename(x, names):
    if isinstance(x, (list, tuple)):
        return [rename(y, names) for y in x]
    if isinstance(x, str):
        for a, b in names.items():
            x = x.replace(a, '<%s>' % b)
    return x


_REFERENCE = {}


def reference(c, k, i):
    key = (tuple(k), tuple(i))
    if key not in _REFERENCE:
        root = c.tmp()
        _REFERENCE[key] = rename(session(root, k, i, 'same', 'same'),
                                 {root: 'root'})
    return _REFERENCE[key]


def want(k, i):
    """The commands of installing the second, third and first key."""
    return [[i[1], 'install', p] for p in ['b', 'a']] + \
        [[i[0], 'install', p] for p in ['d0', 'c0']] + \
        [[i[2], 'install', p] for p in ['g2', 'g1']] + \
        [[i[0], 'install', 'u-any']]


def h_entries(nperm):
    kperms = list(itertools.permutations(KEYS))
    iperms = list(itertools.permutations(NAMES))

    def fn(c):
        k = list(kperms[c.choose(nperm, 'keys')])
        i = list(iperms[c.choose(min(nperm, 6), 'installers')])
        order = ORDERS[c.choose(len(ORDERS), 'order of rules')]
        co = order if c.flag('config ordered alike') else \
            ORDERS[c.choose(2, 'order of config')]
        what = 'keys %s, installers %s, rules %s, config %s' % (
            k, i, order, co)
        ref = reference(c, k, i)
        root = c.tmp()
        out = rename(session(root, k, i, order, co), {root: 'root'})
        short = ref if order == co else ref[:7] + ref[9:]
        c.eq(len(out), len(short), what)
        for a, b in zip(out, short):
            c.eq(a, b, what)
        c.eq(out[5][4], want(k, i), what + ': commands')
        c.eq(sorted(out[3]), sorted(set(out[3])), what + ': resolve --all')
        c.eq(len(out[3]), 4, what + ': resolve --all')
        c.observe(repr(out[1][1]))
    return Harness('entries', fn, split=2)


SCENARIO = r'''
import json, sys, tempfile
sys.path.insert(0, %r)
from mc import env
env.boot()
from mc.checks import c44
out = []
for d in range(2):
    root = tempfile.mkdtemp(dir=%r)
    names = list(c44.NAMES), list(c44.KEYS)
    if d:
        names = names[0][::-1], names[1][::-1]
    out.append(c44.rename(c44.session(root, names[1], names[0], 'same',
                                      'same'), {root: 'root'}))
s = [list({'a', 'b', 'c', 'd'}), list(set(c44.KEYS)), list(set(c44.NAMES))]
sys.__stdout__.write(json.dumps([out, s]))
'''


def h_seeds(n):
    root = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))

    def fn(c):
        seed = c.choose(n, 'hash seed') + 1

        def run(s):
            e = dict(os.environ, PYTHONHASHSEED=str(s))
            e.pop('LD_PRELOAD', None)
            p = env.procs.real([sys.executable, '-c',
                                SCENARIO % (root, c.tmp())], env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            o, err = p.communicate()
            c.check(p.returncode == 0, 'session fails: %s',
                    err.decode('utf-8', 'replace')[-600:])
            return json.loads(o.decode('utf-8'))
        if 'seed 0' not in _REFERENCE:
            _REFERENCE['seed 0'] = run(0)
        ref, (out, orders) = _REFERENCE['seed 0'][0], run(seed)
        for x, y in zip(out, ref):
            for a, b in zip(x, y):
                c.eq(a, b, 'PYTHONHASHSEED=%d' % seed)
        c.observe(repr(orders))
    return Harness('hash_seeds', fn, split=1)


def harnesses(tier):
    if tier == 'quick':
        return [h_entries(3), h_seeds(24)]
    return [h_entries(24), h_seeds(200)]
