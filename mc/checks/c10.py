"""C10: concurrent updates and lookups never see a broken cache."""

import os

from mc.engine import Harness
from mc import env
from mc.checks import c08, c09
from mc.checks.c08 import World, UPSTREAM, C
from mc.osched import Proc, schedule

PROPERTY = 'C10'
ASSUMPTIONS = [
    'one process runs at a time between its file operations (as on one CPU); '
    'single file operations are atomic',
]


def updater(w, content):
    from xylem.update import update

    def fn():
        for i in w.ids:
            UPSTREAM[i] = content
        with env.capture() as cap:
            update(config=w.cfg, sources_context=w.context())
        return cap.stderr
    return fn


def reader(w, times=1):
    """Loads the cache; returns what each source got."""
    def fn():
        out = []
        for _ in range(times):
            db = w.database()
            for s in db.sources:
                try:
                    s.load_from_cache()
                    out.append((s.arguments['id'], 'ok', s.data,
                                s.time_data_loaded))
                except EnvironmentError as e:
                    out.append((s.arguments['id'], 'none', e.errno, None))
                except BaseException as e:
                    out.append((s.arguments['id'], 'exc', repr(e), None))
        return out
    return fn


def cleaner(w):
    """Clears the cache of the first source."""
    def fn():
        with env.capture():
            w.source(w.ids[0]).clear_cache()
    return fn


def h_race(ids, roles, initial):
    """roles: 'u:<content>' or 'r' or 'rr'"""
    def fn(c):
        w = World(c, tuple(ids))
        start = c.pick(initial, 'initially')
        contents = []
        times = {}

        def version(i, data, time, what):
            # every version has been loaded at one time
            k = (i, contents.index(data))
            c.check(times.setdefault(k, time) == time,
                    '%s: version %d of %s was loaded at another time', what,
                    k[1], i)
        if start == 'cached':
            for i in w.ids:
                w.slot[i]['up'] = 'old'
            w.write()
            c08.apply(c, w, ('update',), 'preparation')
            contents.append(C['old'])
            for i in w.ids:
                s = w.source(i)
                s.load_from_cache()
                version(i, s.data, s.time_data_loaded, 'initially')
        elif start == 'dir':
            os.makedirs(w.context().cache_dir)
        procs = []
        try:
            for n, r in enumerate(roles):
                if r.startswith('u:'):
                    f = updater(w, r[2:])
                    contents.append(C[r[2:]])
                else:
                    f = reader(w, len(r))
                procs.append(Proc('%s%d' % (r, n), f, w.site.cache_dir))
        except BaseException:
            for p in procs:
                p.dispose()
            raise
        schedule(c, procs)
        what = '%r starting with %s' % (list(roles), start)
        seen = []
        for p, r in zip(procs, roles):
            c.check(p.result is not None and p.result[0] == 'ok',
                    lambda: '%s: process %s failed: %r' %
                    (what, p.name, p.result))
            if r.startswith('u:'):
                c.check(not p.result[1].strip(), lambda: '%s: %s reported %r' %
                        (what, p.name, p.result[1]))
                continue
            last = {}
            for i, kind, data, time in p.result[1]:
                if kind == 'none' and start != 'cached' and i not in last:
                    seen.append('none')
                    continue
                c.check(kind == 'ok' and data in contents,
                        lambda: '%s: %s read from cache of %s: %r %r' %
                        (what, p.name, i, kind, data))
                last[i] = data
                version(i, data, time, what)
                seen.append(contents.index(data))
        final = []
        for i in w.ids:
            s = w.source(i)
            got = c.call(s.load_from_cache)
            new = contents[1:] if start == 'cached' else contents
            c.check(got[0] == 'ok' and s.data in new,
                    lambda: '%s: final cache of %s: %r %r' %
                    (what, i, got, s.data))
            final.append(contents.index(s.data))
            version(i, s.data, s.time_data_loaded, what)
        c.observe((start, seen, final))
    return fn


def harnesses(tier):
    b = 1 if tier == 'thorough' else 0
    return [
        Harness('two_updaters', h_race('a', ['u:c1', 'u:c2'],
                                       ['cached', 'none', 'dir']),
                bound=2 + b, split=4),
        Harness('updater_reader', h_race('ab', ['u:c1', 'rr'],
                                         ['cached', 'none']),
                bound=2 + b, split=4),
        Harness('updaters_reader', h_race('a', ['u:c1', 'u:c2', 'r'],
                                          ['cached', 'none']),
                bound=2 + b, split=4),
        Harness('big_data', h_race('a', ['u:big', 'u:c2', 'r'],
                                   ['cached']), bound=1 + b, split=4),
        Harness('two_sources', h_race('ab', ['u:c1', 'u:c2'],
                                      ['cached', 'none']),
                bound=1 + b, split=4),
    ] + ([Harness('three_updaters', h_race('a', ['u:c1', 'u:c2', 'u:empty'],
                                           ['cached', 'none']),
                  bound=2, split=4)] if b else [])
