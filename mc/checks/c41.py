"""C41: the API respects the configuration however it is passed."""

import copy
import json
import locale
import os
import signal
import sys

from mc.engine import Harness
from mc import cli, env, stubs
from mc.checks.c31 import OnceTmp
from mc.fullstack import Site

PROPERTY = 'C41'
LOUD = True
ASSUMPTIONS = [
    'contexts and databases are created from complete configurations',
]

SITES = ['g', 'c', 's', 'd']   # of global config, config, context, database
OSES = ['ubuntu', 'debian', 'fedora']
_SITES = {}


def sites():
    """Four sites with different rules for the same keys, all updated."""
    if os.getpid() not in _SITES:
        out = {}
        platform()
        for n in SITES:
            s = Site(OnceTmp(os.path.join(
                env.scratch(), 'c41-%s-%d' % (n, os.getpid()))))
            s.write_sources('10.yaml', ['r'])
            s.write_rules('r', rules(n, 'old'))
            with env.capture():
                from xylem.sources import SourcesContext, RulesDatabase
                ctx = SourcesContext(s.config())
                ctx.ensure_cache_dir()
                db = RulesDatabase(ctx)
                db.update()
            out[n] = s
        _SITES[os.getpid()] = out
    return _SITES[os.getpid()]


def rules(n, tag):
    return {k: {o: {'any_version': {i: {'packages': [
        '%s-%s-%s-%s-%s' % (tag, n, k, o, i)]} for i in 'ab'}}
        for o in OSES} for k in ('k', 'l')}


def process():
    """What of the process may be changed by mistake."""
    mask = os.umask(0o22)
    os.umask(mask)
    return (mask, os.getcwd(), hash(frozenset(os.environ.items())),
            hash(tuple(sys.path)), sys.argv[:],
            sys.stdout, sys.stderr, locale.setlocale(locale.LC_ALL),
            sys.excepthook, signal.getsignal(signal.SIGINT))


def platform():
    installed = set()

    def make(name_):
        class Inst(stubs.make_installer(name_)):
            def filter_uninstalled(self, resolved):
                return [r for r in resolved if r.package not in installed]
        return Inst
    stubs.platform(
        [stubs.make_os(o, versions=['v1'], core=['a', 'b'], default='a',
                       detected='v1' if o == 'ubuntu' else None)
         for o in OSES],
        [make('a'), make('b')])

    def handler(argv):
        installed.update(argv[2:])
        return 0, b'', b''
    env.procs.reset(handler)


def settings(site, os_name, install_from, kind):
    doc = {'sources_dir': site.sources_dir, 'cache_dir': site.cache_dir}
    if install_from:
        doc['install_from'] = {'b': [install_from]}
    if os_name:
        doc['os_override'] = os_name + ':v1'
    root = {'as_root': False}
    doc['installer_options'] = {'a': dict(root), 'b': dict(root)}
    return doc if kind == 'dict' else complete(doc)


def complete(doc):
    from xylem.config import get_config_description, process_config
    from xylem.config_utils import config_from_parsed_yaml
    import argparse
    conf = config_from_parsed_yaml(doc, get_config_description(),
                                   use_defaults=True)
    process_config(conf, argparse.Namespace(config_dir=None, prefix='/none'))
    return conf


def h_api():
    def fn(c):
        from xylem import config as config_module
        from xylem.lookup import lookup
        from xylem.resolve import resolve
        from xylem.install import install
        from xylem.sources import SourcesContext, RulesDatabase
        from xylem.installers import InstallerContext
        ss = sites()
        platform()
        call = c.pick(['lookup', 'lookup compact', 'resolve', 'resolve all',
                       'simulate', 'install'], 'call')
        how = c.pick(['global', 'config', 'dict'], 'config')
        with_s = c.flag('sources context')
        with_d = call[:6] != 'lookup' and c.flag('database')
        with_i = c.flag('installer context')
        g_os = c.pick([None, 'debian'], 'os of the global config')
        c_os = c.pick([None, 'fedora'], 'os of the config') \
            if how != 'global' else None
        i_os = c.pick([None, 'debian'], 'os of the context') \
            if with_i else None
        g_from = c.pick([None, 'k'], 'global install_from')
        c_from = c.pick([None, 'k', 'l'], 'install_from of the config') \
            if how != 'global' else None
        with env.capture() as con:
            glob = settings(ss['g'], g_os, g_from, 'config')
            kw = {}
            if how != 'global':
                kw['config'] = settings(ss['c'], c_os, c_from, how)
            if with_s:
                kw['sources_context'] = SourcesContext(ss['s'].config())
            if with_d:
                kw['database'] = RulesDatabase(SourcesContext(
                    ss['d'].config()))
                kw['database'].load_from_cache()
            if with_i:
                kw['installer_context'] = InstallerContext(
                    settings(ss['g'], i_os, None, 'config'))
            given = copy.deepcopy(kw.get('config'))
            was = copy.deepcopy(glob)
            saved = config_module.get_config()
            config_module.set_config(glob)
            env.procs.calls[:] = []
            around = process()
            try:
                if call.startswith('lookup'):
                    st, v = c.call(lookup, 'k',
                                   compact=call == 'lookup compact', **kw)
                elif call.startswith('resolve'):
                    st, v = c.call(resolve, ['l'] if call == 'resolve all'
                                   else ['k', 'l'],
                                   all_keys=call == 'resolve all', **kw)
                else:
                    st, v = c.call(install, ['k', 'l'], interactive=False,
                                   simulate=call == 'simulate', **kw)
                now = config_module.get_config()
                c.eq(process(), around, call + ': process')
            finally:
                config_module.set_config(saved)
        site = 'd' if with_d else 's' if with_s else \
            'c' if how != 'global' else 'g'
        os_name = (i_os if with_i else c_os if how != 'global' else g_os) \
            or 'ubuntu'
        from_ = c_from if how != 'global' else g_from
        what = '%s with %s' % (call, dict(
            how=how, contexts=sorted(kw), g_os=g_os, c_os=c_os, i_os=i_os,
            g_from=g_from, c_from=c_from))
        c.check(st == 'ok', '%s: %s %r', what, st, v)

        def pkg(k, i):
            return 'old-%s-%s-%s-%s' % (site, k, os_name, i)
        plan = [(k, 'b' if k == from_ else 'a') for k in
                (['l', 'k'] if call == 'resolve all' else ['k', 'l'])]
        if call == 'lookup':
            c.eq(v, {i: {'packages': [pkg('k', i)]} for i in 'ab'}, what)
        elif call == 'lookup compact':
            c.check(pkg('k', 'a') in json.dumps(v) and
                    pkg('k', 'b') in json.dumps(v), '%s: %r', what, v)
        elif call.startswith('resolve'):
            res, err = v
            c.eq(err, [], what + ': errors')
            c.eq([(k, i, [r.package for r in rs]) for k, (i, rs) in res],
                 [(k, i, [pkg(k, i)]) for k, i in plan], what)
        else:
            c.eq(v, ([], []), what)
            ran = [list(a) for a, _ in env.procs.calls]
            c.eq([[a[0], a[-1]] for a in ran],
                 [] if call == 'simulate' else
                 [[i, pkg(k, i)] for k, i in plan], what + ': commands')
            if call == 'simulate':
                for k, i in plan:
                    c.check(pkg(k, i) in con.stdout, '%s: %s is not shown',
                            what, pkg(k, i))
        # nothing that was passed in has changed
        c.check(now is glob, '%s: global config replaced', what)
        c.eq(now, was, what + ': global config')
        c.eq(kw.get('config'), given, what + ': config')
        c.observe('%s %s %s' % (site, os_name, plan))
        c.state((call, site, os_name, from_))
    return Harness('queries', fn, split=3)


def h_empty():
    """What is passed is used even if there is nothing in it."""
    def fn(c):
        from xylem import config as config_module
        from xylem.lookup import lookup
        from xylem.resolve import resolve
        from xylem.install import install
        from xylem.update import update
        from xylem.sources import SourcesContext, RulesDatabase
        from xylem.installers import InstallerContext
        ss = sites()
        platform()
        call = c.pick(['lookup', 'resolve', 'install', 'update'], 'call')
        how = c.pick(['global', 'config', 'dict'], 'config')
        passed = c.pick({'lookup': ['sources', 'installers'],
                         'update': ['sources']}.get(
            call, ['sources', 'database', 'installers']), 'passed')
        empty = Site(c)
        os.mkdir(empty.sources_dir)
        with env.capture():
            glob = settings(ss['g'], None, None, 'config')
            kw = {}
            if how != 'global':
                kw['config'] = settings(ss['c'], None, None, how)
            ctx = SourcesContext(empty.config())
            if passed == 'sources':
                kw['sources_context'] = ctx
            elif passed == 'database':
                kw['database'] = RulesDatabase(ctx)
                if c.flag('loaded'):
                    kw['database'].load_from_cache()
            else:
                doc = settings(ss['g'], None, None, 'dict')
                doc['core_installers'] = []
                kw['installer_context'] = InstallerContext(complete(doc))
            trees = [ss[n].tree() for n in sorted(ss)]
            saved = config_module.get_config()
            config_module.set_config(glob)
            env.procs.calls[:] = []
            try:
                st, v = c.call({'lookup': lambda: lookup('k', **kw),
                                'resolve': lambda: resolve(['k', 'l'], **kw),
                                'install': lambda: install(
                                    ['k', 'l'], interactive=False, **kw),
                                'update': lambda: update(**kw)}[call])
            finally:
                config_module.set_config(saved)
        what = '%s with %s config and empty %s' % (call, how, passed)
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        if call == 'lookup':
            site = 'c' if how != 'global' else 'g'
            c.eq(v or {}, {} if passed == 'sources' else {
                i: {'packages': ['old-%s-k-ubuntu-%s' % (site, i)]}
                for i in 'ab'}, what)
        elif call == 'resolve':
            c.eq((v[0], [k for k, _ in v[1]]), ([], ['k', 'l']), what)
        elif call == 'install':
            c.eq(([k for k, _ in v[0]], v[1]), (['k', 'l'], []), what)
        c.eq(env.procs.calls, [], what + ': commands')
        c.eq([ss[n].tree() for n in sorted(ss)], trees, what + ': files')
        c.observe(what)
    return Harness('empty', fn, note='contexts without sources or installers '
                   'and databases without rules')


def h_reused():
    """A dictionary that is changed between two calls."""
    def fn(c):
        from xylem.lookup import lookup
        from xylem.resolve import resolve
        from xylem.install import install
        from xylem.update import update
        ss = sites()
        platform()
        calls = [c.pick(['lookup', 'resolve', 'install', 'update'], 'call')
                 for _ in range(2)]
        same = c.flag('same dictionary')
        doc, seen = {}, []
        for n, call in enumerate(calls):
            site = c.pick(['c', 's'], 'site')
            os_name = c.pick([None, 'debian'], 'os')
            if not same:
                doc = {}
            doc.clear()
            doc.update(settings(ss[site], os_name, c.pick(
                [None, 'k'], 'install_from'), 'dict'))
            given = copy.deepcopy(doc)
            inst = 'b' if doc.get('install_from') else 'a'
            env.procs.calls[:] = []
            with env.capture() as con:
                st, v = c.call({
                    'lookup': lambda: lookup('k', config=doc),
                    'resolve': lambda: resolve(['k'], config=doc),
                    'install': lambda: install(['k'], interactive=False,
                                               simulate=True, config=doc),
                    'update': lambda: update(dry_run=True, config=doc)}[call])
            what = '%s with %r (call %d of %r)' % (call, doc, n, calls)
            c.check(st == 'ok', '%s: %s %r', what, st, v)
            c.eq(doc, given, what + ': config')
            pkg = 'old-%s-k-%s-%s' % (site, os_name or 'ubuntu', inst)
            if call == 'update':
                c.check(ss[site].sources_dir in con.stdout,
                        '%s: %r', what, con.stdout)
            elif call == 'install':
                c.check(pkg in con.stdout, '%s: %r', what, con.stdout)
            else:
                c.check(pkg in repr(v), '%s: %r is not in %r', what, pkg, v)
            seen.append(pkg)
        c.observe('%s %s' % (calls, seen))
    return Harness('reused', fn, split=2)


def h_update():
    """Updates write the cache that belongs to the configuration."""
    def fn(c):
        from xylem import config as config_module
        from xylem.update import update
        from xylem.sources import SourcesContext
        platform()
        ss = {}
        for n in 'gcs':
            ss[n] = Site(c)
            ss[n].write_sources('10.yaml', ['r'])
            ss[n].write_rules('r', rules(n, 'new'))
        how = c.pick(['global', 'config', 'dict'], 'config')
        with_s = c.flag('sources context')
        dry = c.flag('dry run')
        mask = os.umask(c.pick([0o22, 0o77, 0], 'umask'))
        c.at_close(lambda: os.umask(mask))
        with env.capture() as con:
            glob = settings(ss['g'], None, None, 'config')
            kw = {}
            if how != 'global':
                kw['config'] = settings(ss['c'], None, None, how)
            if with_s:
                kw['sources_context'] = SourcesContext(ss['s'].config())
            given = copy.deepcopy(kw.get('config'))
            was = copy.deepcopy(glob)
            saved = config_module.get_config()
            config_module.set_config(glob)
            around = process()
            try:
                st, v = c.call(update, dry_run=dry, **kw)
                c.eq(process(), around, 'update: process')
                now = config_module.get_config()
            finally:
                config_module.set_config(saved)
        site = 's' if with_s else 'c' if how != 'global' else 'g'
        what = 'update(dry_run=%r) with %s config%s' % (
            dry, how, ' and sources context' if with_s else '')
        c.check(st == 'ok', '%s: %s %r', what, st, v)
        c.eq({n: bool(s.cache_files()) for n, s in ss.items()},
             {n: n == site and not dry for n in ss}, what + ': caches')
        c.check(ss[site].url('r') in con.stdout + con.stderr,
                '%s: source not named in %r', what, con.stdout)
        c.check(now is glob, '%s: global config replaced', what)
        c.eq(now, was, what + ': global config')
        c.eq(kw.get('config'), given, what + ': config')
        c.observe(what)
    return Harness('update', fn)


def h_invalid():
    """Things that are no configuration are rejected, without effect."""
    def fn(c):
        from xylem import config as config_module
        from xylem.lookup import lookup
        from xylem.resolve import resolve
        from xylem.install import install
        from xylem.update import update
        from xylem.config_utils import ConfigValueError
        ss = sites()
        platform()
        call, args = c.pick([(lookup, ['k']), (resolve, [['k']]),
                             (install, [['k']]), (update, [])], 'call')
        g = {'sources_dir': ss['g'].sources_dir,
             'cache_dir': ss['g'].cache_dir}
        bad, types = c.pick([
            ('config.yaml', ValueError), (7, ValueError), ([g], ValueError),
            (False, ValueError), ('', ValueError), (0, ValueError),
            (dict(g, user_sources='maybe'), ConfigValueError),
            (dict(g, core_installers='a'), ConfigValueError),
            (dict(g, install_from=['a']), ConfigValueError),
            (dict(g, disabled_plugins=3), ConfigValueError),
            (dict(g, cache_dir=['x']), ConfigValueError)], 'config')
        before = ss['g'].tree()
        saved = config_module.get_config()
        config_module.set_config(settings(ss['g'], None, None, 'config'))
        env.procs.calls[:] = []
        try:
            with env.capture():
                st, v = c.call(call, *args, config=bad)
        finally:
            config_module.set_config(saved)
        what = '%s with config %r' % (call.__name__, bad)
        c.check(st == 'exc' and isinstance(v, types), '%s: %s %r', what, st, v)
        c.eq(ss['g'].tree(), before, what + ': files')
        c.eq(env.procs.calls, [], what + ': commands')
        c.observe(type(v).__name__)
    return Harness('invalid', fn)


def h_cli():
    """The command line and the API give the same answers."""
    def fn(c):
        from xylem.resolve import resolve
        ss = sites()
        platform()
        site = ss[c.pick(SITES, 'site')]
        os_name = c.pick([None] + OSES, 'os')
        from_ = c.pick([None, 'k', 'l'], 'install_from')
        keys = c.pick([['k'], ['l', 'k'], ['k', 'nope']], 'keys')
        core = c.pick([None, ['b'], ['b', 'a']], 'core installers')
        doc = settings(site, os_name, from_, 'dict')
        line = ['--sources-dir', site.sources_dir, '--cache-dir',
                site.cache_dir]
        if os_name:
            line += ['--os', os_name + ':v1']
        if from_:
            line += ['--install-from', 'b: [%s]' % from_]
        if core:
            doc['core_installers'] = core
            line += ['--core-installers', ','.join(core)]
        r = cli.run(line + ['resolve', '--show-default-installer'] + keys)
        platform()
        with env.capture():
            st, v = c.call(resolve, keys, config=doc)
        what = 'xylem %s' % ' '.join(line)
        c.check(st == 'ok', '%s: API: %s %r', what, st, v)
        res, err = v
        c.eq([x.rstrip() for x in env.strip_ansi(r.out).splitlines()
              if '-->' in x],
             ['%s --> %s: %s' % (k, i, ', '.join(str(x) for x in rs))
              for k, (i, rs) in res], what)
        c.eq(r.code != 0, bool(err), what + ': exit status')
        c.eq([k for k, _ in res], [k for k in keys if k != 'nope'],
             what + ': keys')
        c.observe(repr([(k, i) for k, (i, _) in res]))
    return Harness('command_line', fn)


def h_settings():
    """Every setting counts and is left alone, also by repeated calls."""
    def fn(c):
        from xylem import config as config_module
        from xylem.lookup import lookup
        from xylem.resolve import resolve
        from xylem.install import install
        from xylem.update import update
        ss = sites()
        platform()
        how = c.pick(['global', 'config', 'dict'], 'config')
        core = c.pick([None, ['zz', 'b', 'a'], ['b', 'zz'], ['b', 'a'],
                       ['a', 'b', 'zz']], 'core installers')
        disabled = c.pick([None, ['a'], ['z', 'b'], ['z', 'y']],
                          'disabled installers')
        from_ = c.pick([None, {'b': ['l', 'm', 'l']},
                        {'a': ['l'], 'b': ['k']}], 'install_from')
        calls = [c.pick(['lookup', 'resolve', 'simulate', 'update'], 'call')
                 for _ in range(2)]
        with env.capture():
            if how == 'global':
                doc = settings(ss['c'], None, None, 'dict')
            else:
                doc = settings(ss['c'], 'fedora', None, 'dict')
            if core:
                doc['core_installers'] = list(core)
            if disabled:
                doc['disabled_plugins'] = {'installer': list(disabled)}
            if from_:
                doc['install_from'] = copy.deepcopy(from_)
            conf = doc
            if how != 'dict':
                conf = complete(doc)
            glob = conf if how == 'global' else settings(
                ss['g'], 'debian', None, 'config')
        kw = {} if how == 'global' else {'config': conf}
        given, was = copy.deepcopy(conf), copy.deepcopy(glob)
        os_name = 'ubuntu' if how == 'global' else 'fedora'
        what = '%s with %s core %s disabled %s from %s' % (
            calls, how, core, disabled, from_)
        have = [i for i in core or ['a', 'b']
                if i in 'ab' and i not in (disabled or [])]
        plan = []
        for k in 'kl':
            if from_ and [i for i in from_ if k in from_[i]]:
                i = [i for i in from_ if k in from_[i]][0]
                if i in (disabled or []):
                    i = None
            else:
                i = (have + [None])[0]
            if i:
                plan.append((k, i))
        saved = config_module.get_config()
        config_module.set_config(glob)
        try:
            for call in calls:
                with env.capture() as con:
                    if call == 'lookup':
                        st, v = c.call(lookup, 'k', **kw)
                    elif call == 'resolve':
                        st, v = c.call(resolve, ['k', 'l'], **kw)
                    elif call == 'simulate':
                        st, v = c.call(install, ['k', 'l'],
                                       interactive=False, simulate=True,
                                       continue_on_error=True, **kw)
                    else:
                        st, v = c.call(update, dry_run=True, **kw)
                c.check(st == 'ok', '%s: %s: %s %r', what, call, st, v)

                def pkg(k, i):
                    return 'old-c-%s-%s-%s' % (k, os_name, i)
                if call == 'lookup':
                    c.eq(v, {i: {'packages': [pkg('k', i)]} for i in 'ab'},
                         what + ': lookup')
                elif call == 'resolve':
                    c.eq([(k, i, [r.package for r in rs])
                          for k, (i, rs) in v[0]],
                         [(k, i, [pkg(k, i)]) for k, i in plan],
                         what + ': resolve')
                    c.eq([k for k, _ in v[1]],
                         [k for k in 'kl' if k not in dict(plan)],
                         what + ': unresolved')
                elif call == 'simulate':
                    c.eq({(k, i) for k in 'kl' for i in 'ab'
                          if pkg(k, i) in con.stdout}, set(plan),
                         what + ': simulate')
                c.check(config_module.get_config() is glob,
                        '%s: global config replaced', what)
                c.eq(glob, was, what + ': global config after ' + call)
                c.eq(conf, given, what + ': config after ' + call)
        finally:
            config_module.set_config(saved)
        c.observe(plan)
        c.state((core, disabled, from_))
    return Harness('settings', fn, split=3)


def harnesses(tier):
    return [h_api(), h_empty(), h_reused(), h_update(), h_invalid(), h_cli(), h_settings()]
