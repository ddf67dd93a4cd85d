"""C15: sources and cache directories resolve as documented."""

import json
import os

import yaml

from mc.engine import Harness
from mc import cli, env
from mc.checks import c13
from mc.fullstack import snapshot

PROPERTY = 'C15'
LOUD = True
ASSUMPTIONS = [
    'paths in config files are relative to the working directory, as on the '
    'command line',
]


class Cwd(object):
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.path)

    def __exit__(self, *a):
        os.chdir(self.old)
        return False


SPELL = {
    'absolute': lambda d, p: p,
    'relative': lambda d, p: os.path.relpath(p, os.path.join(d.root, 'cwd')),
    'home': lambda d, p: '~/' + os.path.relpath(p, d.home),
    'dots': lambda d, p: p + '/x/../.',
    'slash': lambda d, p: p + '/',
}


ODD = '$HOME ${HOME}~%s%%{0}*'


class Case(object):
    """One combination of the settings that determine the directories."""

    def __init__(self, c, spells, bases, prefixes, users, places,
                 mixed=False):
        d = self.d = c13.Dirs(c)
        self.cwd = os.path.join(d.root, 'cwd')
        os.mkdir(self.cwd)
        self.argv, self.environ, docs = [], {}, {'u': {}, 's': {}, 'x': {}}
        log = self.log = []

        common = c.pick(spells, 'spelling')
        log.append('spelling ' + common)

        def spelled(path, label):
            s = common
            if mixed:
                s = c.pick(spells, label + ' spelling')
                log.append('%s %s' % (label, s))
            return SPELL[s](d, path)

        # base directory
        base = c.pick(bases, 'base dir')
        log.append('base dir ' + base)
        if 'env' in base:
            self.environ['XYLEM_DIR'] = spelled(
                d.xdir if 'option' not in base else d.root + '/wrong',
                'XYLEM_DIR')
        if 'option' in base:
            self.argv += ['--xylem-dir', spelled(d.xdir, '--xylem-dir')]
        # prefix
        prefix = c.pick(prefixes, 'prefix')
        log.append('prefix ' + prefix)
        self.prefix = d.prefix
        if 'env' in prefix:
            self.environ['XYLEM_PREFIX'] = spelled(
                d.prefix if 'option' not in prefix else d.root + '/wrong2',
                'XYLEM_PREFIX')
        if 'option' in prefix:
            self.argv += ['--prefix', spelled(d.prefix, '--prefix')]
        if prefix == 'none':
            self.prefix = '/'
        # user sources
        user = c.pick(users, 'user sources')
        log.append('user sources ' + user)
        have_user = True
        if 'no-user-config' in user:
            self.argv.append('--no-user-config')
            have_user = False
        used = ['x'] if base != 'none' else (
            ['u', 's'] if have_user else ['s'])
        if prefix == 'none' and 's' in used:
            used.remove('s')       # nothing there
        wants_user = False
        if 'arg yes' in user:
            self.argv += ['--user-sources', 'yes']
            wants_user = True
        elif 'arg no' in user:
            self.argv += ['--user-sources=no']
            for k in docs:
                docs[k]['user_sources'] = True
        elif 'file' in user:
            for k in docs:
                docs[k]['user_sources'] = k in ('u', 'x')
            wants_user = bool(used) and used[0] in ('u', 'x')
        self.user = wants_user
        # explicit directories
        self.explicit = {}
        for what in ('cache', 'sources'):
            opt = what + '_dir'
            place = c.pick(places, what)
            # names are taken literally
            odd = ODD if what == 'cache' else ''
            log.append('%s dir %s' % (what, place))
            if place == 'none':
                continue
            if place in ('file', 'arg over file', 'both files'):
                p = d.root + '/home/f-' + odd + what
                v = spelled(p, opt + ' in file')
                for k in docs:
                    docs[k][opt] = v if k in used[:1] or \
                        place != 'both files' else '/wrong'
                if used:
                    self.explicit[what] = p
            if place in ('arg', 'arg over file'):
                p = d.root + '/home/a-' + odd + what
                self.argv += ['--%s-dir' % what, spelled(p, '--%s-dir' %
                                                         what)]
                self.explicit[what] = p
        for k, f in (('u', d.user('xylem')), ('s', d.system('xylem')),
                     ('x', d.specified())):
            c13.write(f, docs[k])
        if base != 'none':
            self.cache = d.xdir + '/cache'
            self.sources = d.xdir + '/sources.d'
        elif wants_user:
            self.cache = d.home + '/.config/xylem/cache'
            self.sources = d.home + '/.config/xylem/sources.d'
        else:
            self.cache = os.path.join(self.prefix, 'var/cache/xylem')
            self.sources = os.path.join(self.prefix, 'etc/xylem/sources.d')
        self.cache = self.explicit.get('cache', self.cache)
        self.sources = self.explicit.get('sources', self.sources)

    def run(self, args):
        with c13.Environ(self.environ), Cwd(self.cwd):
            return cli.run(self.argv + ['--no-color'] + args)


BASES = ['none', 'option', 'env', 'option over env']
PREFIXES = ['option', 'env', 'option over env', 'none']
USERS = ['unset', 'arg yes', 'arg no', 'file', 'arg yes no-user-config',
         'file no-user-config']
PLACES = ['none', 'arg', 'file', 'arg over file', 'both files']


def h_print(spells, bases, prefixes, users, places, mixed=False):
    def fn(c):
        k = Case(c, spells, bases, prefixes, users, places, mixed)
        r = k.run(['--print-config', 'update'])
        c.check(r.code == 0 and not r.exc, '%r: %r', k.log, r)
        got = yaml.safe_load(r.out)
        c.eq(got['cache_dir'], k.cache, 'cache dir for %r' % (k.log,))
        c.eq(got['sources_dir'], k.sources, 'sources dir for %r' % (k.log,))
        c.observe('%s %s' % (os.path.relpath(k.cache, k.d.root),
                             os.path.relpath(k.sources, k.d.root)))
    return fn


RULES = 'k: {ubuntu: {trusty: {apt: [%s]}}}'


def h_effects(spells, bases, users, places):
    """update writes and lookup reads where the configuration says."""
    def fn(c):
        k = Case(c, spells, bases, ['option'], users, places)
        d = k.d
        rules = os.path.join(d.root, 'rules.yaml')
        # every place that could be mistaken has sources of its own
        others = [d.prefix + '/etc/xylem/sources.d',
                  d.home + '/.config/xylem/sources.d', d.xdir + '/sources.d',
                  d.root + '/home/f-sources', d.root + '/home/a-sources',
                  k.cwd + '/sources.d']
        for i, p in enumerate(sorted(set(others) | {k.sources})):
            os.makedirs(p, exist_ok=True)
            f = rules if p == k.sources else rules + str(i)
            with open(os.path.join(p, '10.yaml'), 'w') as fh:
                fh.write(json.dumps([{'rules': 'file://' + f}]))
            with open(f, 'w') as fh:
                fh.write(RULES % ('right' if p == k.sources else 'wrong'))
        before = snapshot(d.root)
        r = k.run(['update'])
        c.check(r.code == 0 and not r.exc, 'update with %r: %r', k.log, r)
        after = snapshot(d.root)
        rel = os.path.relpath(k.cache, d.root)
        changed = [p for p in after if after[p] != before.get(p)] + \
            [p for p in before if p not in after]
        for p in changed:
            c.check(p == rel or p.startswith(rel + os.sep) or
                    (rel.startswith(p + os.sep) and p not in before),
                    'update with %r changed %s, cache dir %s', k.log, p, rel)
        c.check(any(p.startswith(rel + os.sep) and after[p][0] == 'file'
                    for p in changed), 'update with %r wrote nothing below '
                'the cache dir %s', k.log, rel)
        # the lookup uses the cache only
        for p in set(others) | {k.sources}:
            for f in os.listdir(d.root):
                if f.startswith('rules.yaml'):
                    with open(os.path.join(d.root, f), 'w') as fh:
                        fh.write(RULES % 'later')
        before = snapshot(d.root)
        r = k.run(['lookup', '--os', 'ubuntu:trusty', 'k'])
        c.check(r.code == 0 and 'right' in r.out and 'wrong' not in r.out and
                'later' not in r.out, 'lookup with %r: %r', k.log, r)
        c.check(snapshot(d.root) == before, 'lookup with %r wrote something',
                k.log)
        c.observe('%s %s' % (rel, os.path.relpath(k.sources, d.root)))
    return fn


def harnesses(tier):
    t = tier == 'thorough'
    spell3 = ['absolute', 'relative', 'home']
    return [
        Harness('combinations', h_print(['home'], BASES, PREFIXES, USERS,
                                        PLACES), split=3,
                note='all combinations of where the directories are given'),
        Harness('spellings', h_print(
            list(SPELL), BASES, PREFIXES[:3] if t else PREFIXES[:1],
            USERS if t else USERS[:2], PLACES), split=3),
    ] + ([
        Harness('mixed-spellings', h_print(
            ['absolute', 'relative', 'home'], ['none', 'env', 'option'],
            ['option'], ['unset'], ['none', 'arg', 'file'], True), split=4),
    ] if t else []) + [
        Harness('effects', h_effects(spell3 if t else ['absolute'],
                                     BASES if t else BASES[:3],
                                     USERS if t else USERS[:4],
                                     PLACES[:3] if not t else PLACES),
                split=3, note='real update and lookup, file tree compared'),
    ]
