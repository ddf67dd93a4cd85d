"""C09: an interrupted update leaves every source cache old or new."""

import errno
import os

from mc.engine import Harness
from mc import env
from mc.checks import c08
from mc.checks.c08 import World, UPSTREAM
from mc.interrupt import Interrupt, choose
from mc.osched import Proc

PROPERTY = 'C09'
LOUD = True
LEVEL = 'fault_enumeration'
RULE = ('one execution per fault point and kind (all combinations up to the '
        'deviation bound); distinct by the resulting cache states and '
        'reports')
ASSUMPTIONS = [
    'power loss: metadata operations persist in order, file data that was not '
    'fsynced is lost, half written or zeroed',
    'the file system implements rename atomically',
]

c08.C['big'] = {'k%d' % i: {'ubuntu': {'v1': {'apt': {'packages': [
    'x' * 200]}}}} for i in range(60)}
c08.C['old'] = {'k': {'ubuntu': {'v1': {'apt': {'packages': ['old']}}}}}


def contents(d):
    out = {}
    for dp, _dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fh:
                out[p] = (os.stat(p).st_ino, fh.read())
    return out


class Disk(object):
    """What would survive a power loss."""

    def __init__(self, d):
        self.d = d
        self.durable = {ino: data for ino, data in contents(d).values()}

    def synced(self, ino):
        for i, data in contents(self.d).values():
            if i == ino:
                self.durable[ino] = data

    def dirty(self):
        return [p for p, (ino, data) in contents(self.d).items()
                if self.durable.get(ino) != data]

    def lose(self, how):
        for p, (ino, data) in contents(self.d).items():
            dur = self.durable.get(ino)
            if dur == data:
                continue
            new = {'lost': dur or b'', 'half': data[:len(data) // 2],
                   'zeros': b'\0' * len(data)}[how]
            with open(p, 'wb') as f:
                f.write(new)


NAMES = {'a': 'source-one', 'b': 'source-two'}
POWER = ['lost', 'half', 'zeros']


def options(op, disk):
    """Departures from 'the operation succeeds'."""
    out = []
    if op.mutates:
        out.append('k')
    if op.name in ('write', 'writev'):
        n = op.len
        torn = sorted({1, n // 2, n - 1} - {0, n})
        out += ['w%d' % k for k in torn if op.name == 'write']
        out += ['s%d' % k for k in torn if op.name == 'write']
        out += ['e%d' % errno.ENOSPC, 'e%d' % errno.EIO]
    elif op.name in ('fsync', 'truncate', 'read'):
        out += ['e%d' % errno.EIO]
    elif op.name == 'close':
        out += ['e%d' % errno.EIO]
    elif op.name in ('open', 'mkdir', 'link', 'symlink', 'rename'):
        out += ['e%d' % e for e in (errno.EACCES, errno.ENOSPC)
                if op.mutates or e == errno.EACCES]
    elif op.name in ('unlink', 'chmod', 'rmdir'):
        out += ['e%d' % errno.EPERM]
    if op.mutates and disk.dirty():
        out += ['power ' + h for h in POWER]
    return out


def run_update(w, c, disk, faults):
    from xylem.update import update

    def fn():
        with env.capture() as cap:
            try:
                update(config=w.cfg, sources_context=w.context())
            finally:
                pass
        return cap.stderr
    p = Proc('update', fn, w.site.cache_dir)
    power = None
    try:
        while not p.done:
            op = p.op
            opts = options(op, disk)
            k = c.deviate(1 + len(opts), op.name)
            v = 'g' if k == 0 else opts[k - 1]
            c.event('%s %s' % (op.name, v))
            if k:
                faults.append((op.name, v, os.path.basename(op.path)))
            if v.startswith('power'):
                power = v.split()[1]
                v = 'k'
            p.verdict(v)
            if op.name == 'fsync' and v == 'g':
                disk.synced(op.ino)
        if not p.killed and disk.dirty():
            k = c.deviate(1 + len(POWER), 'power loss at the end')
            if k:
                power = POWER[k - 1]
                faults.append(('end', 'power', power))
    finally:
        p.dispose()
    if power:
        disk.lose(power)
    return p


def h_faults(ids, new, scenarios, down=()):
    """``down``: sources that cannot be loaded by the update"""
    ids = tuple(NAMES[i] for i in ids)
    down = tuple(NAMES[i] for i in down)

    def fn(c):
        first = c.pick(scenarios, 'scenario')
        w = World(c, tuple(ids) + ('by',))
        # a source that is not updated
        for i in w.ids:
            w.slot[i]['up'] = 'old'
        w.slot['by']['up'] = 'c2'
        if first == 'first':
            os.mkdir(w.site.cache_dir) if c.flag('cache dir exists') else None
            old = {i: None for i in ids}
            w.ids = tuple(ids)
            w.write()
        else:
            w.write()
            c08.apply(c, w, ('update',), 'preparation')
            old = {i: w.entry(i) for i in ids}
            by = w.cache['by']
            if first == 'some':      # one of them was never updated
                c08.apply(c, w, ('clear', ids[0]), 'preparation')
                old[ids[0]] = None
            w.ids = tuple(ids)
        for i in ids:
            w.slot[i]['up'] = 'down' if i in down else new
        w.write()
        faults = []
        disk = Disk(w.site.cache_dir)
        p = run_update(w, c, disk, faults)
        what = 'update (%s) with %r' % (first, faults)
        seen = []
        for i in ids:
            s = w.source(i)
            if not s.is_cache_available():
                c.check(old[i] is None, '%s: cache of %s lost' % (what, i))
                seen.append('none')
                continue
            got = c.call(s.load_from_cache)
            c.check(got[0] == 'ok', lambda: '%s: cache of %s is broken: %r' %
                    (what, i, got))
            if i not in down and s.data == w.entry(i)['data']:
                seen.append('new')
            else:
                c.check(old[i] is not None and s.data == old[i]['data'],
                        lambda: '%s: cache of %s is neither old nor new: %r' %
                        (what, i, s.data))
                seen.append('old')
            same = w.entry(i) if i not in down else old[i]
            c.eq((s.arguments, s.origin),
                 (same['arguments'], same['origin']),
                 what + ': cache entry of ' + i)
        if not p.killed:
            c.check(p.result is not None, what + ': no result')
            if not faults:
                c.check(p.result[0] == 'ok', lambda: what + ': %r' %
                        (p.result,))
                c.eq([x == 'new' for x in seen],
                     [i not in down for i in ids], what + ': caches')
            if set(seen) != {'new'} and p.result[0] == 'ok' and \
                    not any(f[0] == 'end' for f in faults):
                for i, x in zip(ids, seen):
                    c.check(x == 'new' or i in p.result[1],
                            lambda: '%s: caches %r but not reported: %r' %
                            (what, seen, p.result[1]))
            if len(faults) == 1 and first != 'first' and faults[0][2] not in \
                    ('', os.path.basename(w.site.cache_dir), 'power',
                     'lost', 'half', 'zeros'):
                # an error with the cache of one source
                c.check(p.result[0] == 'ok', lambda: '%s: stopped: %r' %
                        (what, p.result))
            if len(faults) == 1 and first == 'again' and \
                    faults[0][0] != 'end' and p.result[0] == 'ok' and len(ids) > 1:
                c.check(seen.count('new') >= len(ids) - 1 -
                        len(down), '%s: a fault for '
                        'one source affected another: %r' % (what, seen))
        # the source that is not being updated
        if first != 'first':
            w.ids = ('by',)
            w.write()
            s = w.source('by')
            got = c.call(s.load_from_cache)
            c.check(got[0] == 'ok', lambda: what + ': unrelated cache: %r' %
                    (got,))
            c.eq((s.data, s.origin), (by['data'], by['origin']),
                 what + ': unrelated cache')
            w.ids = tuple(ids)
            w.write()
        # recovery
        for i in ids:
            w.slot[i]['up'] = 'c1'
        w.write()
        c08.apply(c, w, ('update',), what + ', then update')
        w.observe(what + ', then update')
        c.observe((first, seen, sorted(set((f[0], f[1]) for f in faults)),
                   p.killed, bool(p.result and p.result[0] == 'ok')))
    return fn


def h_interrupted(ids, files):
    """The user interrupts the update (Ctrl-C) at any line."""
    def fn(c):
        from xylem.update import update
        first = c.pick(['again', 'first'], 'scenario')
        runs = []

        def prepare():
            w = World(c, tuple(ids) + ('by',))
            for i in w.ids:
                w.slot[i]['up'] = 'old'
            w.slot['by']['up'] = 'c2'
            old = {i: None for i in ids}
            if first == 'again':
                w.write()
                c08.apply(c, w, ('update',), 'preparation')
                old = {i: w.entry(i) for i in ids}
            by = w.cache.get('by')
            w.ids = tuple(ids)
            for i in ids:
                w.slot[i]['up'] = 'c1'
            w.write()
            return w, old, by

        def run(w):
            def fn():
                update(config=w.cfg, sources_context=w.context())
            with env.capture():
                try:
                    runs.append(('ok', fn()))
                except BaseException as e:
                    runs.append(('exc', e))
        n = choose(c, files, lambda w=prepare()[0]: run(w),
                   (ids, files, first))
        w, old, by = prepare()
        del runs[:]
        with Interrupt(files, n) as i:
            run(w)
        what = 'update (%s) interrupted at %s' % (first, i.where)
        c.check(runs[0][0] == 'exc' and not isinstance(
            runs[0][1], Exception), '%s: %r', what, runs)
        seen = []
        for x in ids:
            s = w.source(x)
            if not s.is_cache_available():
                c.check(old[x] is None, '%s: cache of %s lost' % (what, x))
                seen.append('none')
                continue
            got = c.call(s.load_from_cache)
            c.check(got[0] == 'ok', lambda: '%s: cache of %s is broken: %r' %
                    (what, x, got))
            new = s.data == w.entry(x)['data']
            c.check(new or old[x] and s.data == old[x]['data'],
                    lambda: '%s: cache of %s: %r' % (what, x, s.data))
            seen.append('new' if new else 'old')
        # sources are updated in their order
        c.check(seen == sorted(seen, key=lambda x: x != 'new'),
                '%s: %r', what, seen)
        if by:
            w.ids = ('by',)
            w.write()
            s = w.source('by')
            got = c.call(s.load_from_cache)
            c.check(got[0] == 'ok', lambda: what + ': unrelated cache: %r' %
                    (got,))
            c.eq(s.data, by['data'], what + ': unrelated cache')
            w.ids = tuple(ids)
            w.write()
        c08.apply(c, w, ('update',), what + ', then update')
        w.observe(what + ', then update')
        c.event(what)
        c.observe((first, seen, i.where))
    return fn


FILES = ('xylem/sources/database.py', 'xylem/sources/impl.py',
         'xylem/update.py')


def harnesses(tier):
    deep = tier == 'thorough'
    return [
        Harness('one_source', h_faults('a', 'c2', ['again', 'first']),
                bound=3 if deep else 2, split=3),
        Harness('two_sources', h_faults('ab', 'c2',
                                        ['again', 'first', 'some']),
                bound=2 if deep else 1, split=3),
        Harness('also_unavailable', h_faults('ab', 'c2',
                                             ['again', 'first'], 'a'),
                bound=2 if deep else 1, split=3),
        Harness('unavailable_later', h_faults('ab', 'c2', ['again'], 'b'),
                bound=2 if deep else 1, split=3),
        Harness('interrupted', h_interrupted('ab', FILES + (
            ('xylem/sources/rules_dict.py', 'xylem/config.py',
             'xylem/log_utils.py') if deep else ())), split=2),
        Harness('big_data', h_faults('a', 'big', ['again', 'first']),
                bound=2 if deep else 1, split=3)]
