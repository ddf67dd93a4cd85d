"""C11: a dry-run update changes nothing on disk."""

import os

from mc.engine import Harness
from mc import cli, env, stubs
from mc.fullstack import Site, snapshot
from mc.watch import Watch

PROPERTY = 'C11'
LOUD = True
ASSUMPTIONS = ['changes that keep name, mode and content of every file '
               '(e.g. access times) are not counted as changes']

TEXTS = {
    'good': 'k: {ubuntu: {v1: {apt: [new]}}}',
    'empty': '',
    'yaml': 'k: [',
    'expand': 'k: {ubuntu: 5}',
    'invalid': 'k: {"a b": p}',
    'missing': None,
}
OLD = 'k: {ubuntu: {v1: {apt: [old]}}}'


def h_update(routes, nsources, kinds):
    def fn(c):
        from xylem.update import update
        from xylem.sources import SourcesContext, RulesDatabase
        site = Site(c)
        names = ['a', 'b'][:nsources]
        layout = c.pick(['one file', 'two files', 'no sources dir',
                         'empty sources dir'][:4 if nsources == 1 else 2],
                        'sources')
        home = os.environ['HOME']
        cache = c.pick(['missing', 'deep', 'empty', 'cached', 'corrupt'],
                       'cache')
        if cache == 'deep':
            site.cache_dir = os.path.join(site.root, 'x', 'y', 'cache')
        if layout == 'one file':
            site.write_sources('10.yaml', names)
        elif layout == 'two files':
            for n in names:
                site.write_sources(n + '.yaml', [n])
        elif layout == 'empty sources dir':
            os.mkdir(site.sources_dir)
        cfg = site.config()
        for n in names:
            site.write_rules(n, OLD)
        if layout == 'no sources dir':
            # the default sources cannot be reached
            if cache in ('cached', 'corrupt'):
                c.prune()
        if cache == 'empty':
            os.makedirs(site.cache_dir)
        elif cache in ('cached', 'corrupt'):
            with env.capture():
                update(config=cfg)
            if cache == 'corrupt':
                d = os.path.join(site.cache_dir, 'sources')
                for f in os.listdir(d)[:1]:
                    with open(os.path.join(d, f), 'wb') as fh:
                        fh.write(b'junk')
                    os.chmod(os.path.join(d, f), 0o600)
        state = []
        for n in names:
            k = c.pick(kinds, 'content of ' + n)
            state.append(k)
            if TEXTS[k] is None:
                site.remove_rules(n)
            else:
                site.write_rules(n, TEXTS[k])
        route = c.pick(routes, 'route')
        what = 'dry run via %s (cache %s, %s, contents %r)' % (
            route, cache, layout, state)
        before = snapshot(site.root), snapshot(home)
        offline = NoNet() if layout == 'no sources dir' else None
        if offline:
            offline.start()
        try:
            with Watch() as changes:
                dry = run(c, route, site, cfg, True, update)
            c.eq(changes, [], what + ': operations that change files')
            after = snapshot(site.root), snapshot(home)
            c.check(after == before, lambda: '%s changed files: %r' %
                    (what, sorted(set(after[0].items()) ^
                                  set(before[0].items()))[:6]))
            again = run(c, route, site, cfg, True, update)
            c.eq(again, dry, what + ' twice')
            real = run(c, route, site, cfg, False, update)
        finally:
            if offline:
                offline.stop()
        c.eq(dry[1], real[1], what + ': reported problems')
        c.eq(dry[0], real[0], what + ': outcome')
        for n, k in zip(names, state):
            if layout in ('no sources dir', 'empty sources dir'):
                continue
            reported = 'file://' + site.rules_path(n) in dry[1]
            c.eq(reported, k not in ('good', 'empty'),
                 '%s: problem with %s reported' % (what, n))
        # the real update has had its usual effect
        with env.capture():
            db = RulesDatabase(SourcesContext(cfg))
        for s in db.sources:
            for n, k in zip(names, state):
                if s.arguments == site.url(n) and k in ('good', 'empty'):
                    s.load_from_cache()
                    c.eq(s.data, {} if k == 'empty' else {
                        'k': {'ubuntu': {'v1': {'apt': {
                            'packages': ['new']}}}}}, what + ', update')
        c.observe((route, cache, layout, state, bool(dry[1])))
    return fn


class NoNet(object):
    """URLs other than file: fail at once."""

    def start(self):
        import six.moves.urllib.request as r
        import six.moves.urllib.error as e
        self.r = r

        class Handler(r.BaseHandler):
            handler_order = 1

            def default_open(self, req):
                raise e.URLError('no network')
        r.install_opener(r.build_opener(Handler()))

    def stop(self):
        self.r.install_opener(None)


def run(c, route, site, cfg, dry, update):
    """-> (outcome, reported problems)"""
    if route == 'api':
        with env.capture() as cap:
            got = c.call(update, dry_run=dry, config=cfg)
        return got[0], cap.stderr
    if route == 'context':
        from xylem.sources import SourcesContext
        with env.capture() as cap:
            got = c.call(update, dry, None, SourcesContext(cfg))
        return got[0], cap.stderr
    args = ['--no-color', '--sources-dir', site.sources_dir, '--cache-dir',
            site.cache_dir, 'update']
    if dry:
        args.append('-n' if route == 'cli -n' else '--dry-run')
    res = cli.run(args)
    return res.code, res.err


def harnesses(tier):
    kinds = sorted(TEXTS)
    return [
        Harness('one_source', h_update(['api', 'context', 'cli -n',
                                        'cli --dry-run'], 1, kinds), split=3),
        Harness('two_sources', h_update(
            ['api', 'cli -n'], 2,
            kinds if tier == 'thorough' else ['good', 'invalid', 'missing']),
            split=3)]
