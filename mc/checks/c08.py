"""C08: lookups use the last successfully updated data (cache histories)."""

import json
import os
import pickle

from mc.engine import Harness
from mc import env, stubs
from mc.fullstack import Site
from mc.rulesref import clone, ref_has_rule, ref_lookup
from mc.sizes import sizes

PROPERTY = 'C08'
ASSUMPTIONS = [
    'one process at a time (see C10) that is not interrupted (see C09)',
]

C = {
    'c1': {'k': {'ubuntu': {'v1': {'apt': {'packages': ['one']}}}}},
    'c2': {'k': {'any_os': {'any_version': {'pip': {'packages': ['two']}}}},
           'z': {}},
    'empty': {},
    'bad': {'k': {'any_os': {'any_version': {'default_installer': {
        'packages': ['x']}}}}},
}
UPSTREAM = {}


class Unavailable(Exception):
    pass


def specs():
    from xylem.specs.plugins.rules import RulesSpec

    class Mem(RulesSpec):
        """Arguments: {'id': .., 'opt': ..}; only the id identifies."""
        NAME = 'mem'

        @property
        def name(self):
            return self.NAME

        def unique_id(self, arguments):
            return arguments['id']

        def verify_arguments(self, arguments):
            if not isinstance(arguments, dict):
                raise ValueError('bad arguments')

        def load_data(self, arguments):
            x = UPSTREAM[arguments['id']]
            if x == 'down':
                raise Unavailable('download failed')
            return clone(C[x])

    class Alt(Mem):
        NAME = 'alt'
    return [Mem(), Alt()]


_specs = []


class World(object):
    """Scratch site, plus the model of what each cache has to contain."""

    def __init__(self, c, ids=('a', 'b')):
        if not _specs:
            _specs.extend(specs())
        self.c = c
        self.site = Site(c)
        os.mkdir(self.site.sources_dir)
        self.ids = ids
        self.slot = {i: {'spec': 'mem', 'opt': 1, 'file': '10.yaml',
                         'up': 'c1'} for i in ids}
        self.cache = {i: None for i in ids}    # None | 'corrupt' | dict
        self.cfg = self.site.config()
        self.write()

    def write(self):
        files = {'10.yaml': [], '20.yaml': []}
        for i in self.ids:
            s = self.slot[i]
            files[s['file']].append({s['spec']: {'id': i, 'opt': s['opt']}})
        for f, entries in files.items():
            with open(os.path.join(self.site.sources_dir, f), 'w') as fh:
                fh.write(json.dumps(entries))
        for i in self.ids:
            UPSTREAM[i] = self.slot[i]['up']

    def order(self):
        return sorted(self.ids, key=lambda i: (self.slot[i]['file'],
                                               self.ids.index(i)))

    def context(self):
        from xylem.sources import SourcesContext
        return SourcesContext(self.cfg, spec_plugins=list(_specs))

    def database(self):
        from xylem.sources import RulesDatabase
        return RulesDatabase(self.context())

    def source(self, i):
        return [s for s in self.database().sources
                if s.arguments['id'] == i][0]

    def entry(self, i):
        s = self.slot[i]
        return {'spec': s['spec'], 'arguments': {'id': i, 'opt': s['opt']},
                'origin': os.path.join(self.site.sources_dir, s['file']),
                'data': C[s['up']]}

    def good(self, i):
        return self.slot[i]['up'] not in ('down', 'bad')

    # -- observations ---------------------------------------------------
    def observe(self, what):
        c = self.c
        db = self.database()
        c.eq([s.arguments['id'] for s in db.sources], self.order(),
             what + ': sources')
        valid = {}
        for s in db.sources:
            i = s.arguments['id']
            want = self.cache[i]
            fine = isinstance(want, dict) and want['spec'] == \
                self.slot[i]['spec']
            valid[i] = fine
            c.eq(s.is_cache_available(), want is not None,
                 '%s: cache of %s available' % (what, i))
            got = c.call(s.load_from_cache)
            if not fine:
                c.check(got[0] == 'exc', lambda: '%s: cache of %s used though '
                        'it is %r' % (what, i, want))
                c.check(s.data is None, lambda: '%s: data of rejected cache '
                        'of %s used: %r' % (what, i, s.data))
                continue
            c.check(got[0] == 'ok', lambda: '%s: loading cache of %s: %r' %
                    (what, i, got))
            c.eq({'spec': s.spec.name, 'arguments': s.arguments,
                  'origin': s.origin, 'data': s.data}, want,
                 '%s: cache of %s' % (what, i))
        db = self.database()
        with env.capture():
            got = c.call(db.load_from_cache)
        if all(valid.values()):
            c.check(got[0] == 'ok', lambda: '%s: load: %r' % (what, got))
            ic = context()
            want = {}
            for i in self.order():
                d = self.cache[i]['data']
                for k, v in (('apt', d.get('k', {}).get('ubuntu', {}).get(
                        'v1', {}).get('apt')),
                        ('pip', d.get('k', {}).get('any_os', {}).get(
                            'any_version', {}).get('pip'))):
                    if v is not None:
                        want.setdefault(k, v)
            c.eq(db.lookup('k', ic), want, what + ': lookup')
        else:
            c.check(got[0] == 'exc', lambda: '%s: load of missing or broken '
                    'cache succeeded' % what)
            # the others can still be loaded
            db = self.database()
            db.raise_on_error = False
            with env.capture() as cap:
                got = c.call(db.load_from_cache)
            c.check(got[0] == 'ok' and (cap.stderr.strip() or
                                        cap.stdout.strip()),
                    lambda: '%s: load without raising: %r' % (what, got))
            for s in db.sources:
                i = s.arguments['id']
                c.eq(s.data, self.cache[i]['data'] if valid[i] else None,
                     '%s: data of %s' % (what, i))


_ctx = []


def context():
    if not _ctx:
        _ctx.append(stubs.context('ubuntu', 'v1', 'apt'))
    return _ctx[0]


def ref_keys(rules, os_name, version):
    return set(k for k in rules if ref_has_rule(rules, k, os_name, version))


_ctxs = []


def contexts():
    if not _ctxs:
        for triple in (('ubuntu', 'v1', 'apt'), ('debian', 'v1', 'apt')):
            ic = stubs.context(*triple)
            ic.triple = triple
            _ctxs.append(ic)
    return _ctxs


def corrupt(w, i, kind):
    path = w.source(i).cache_file_path()
    with open(path, 'rb') as f:
        raw = f.read()
    if kind == 'truncate':
        raw = raw[:len(raw) // 2]
    elif kind == 'bad rules':
        d = pickle.loads(raw)
        d['data'] = clone(C['bad'])
        raw = pickle.dumps(d, 2)
    else:
        raw = b''
    with open(path, 'wb') as f:
        f.write(raw)


def h_history(depth, ids=('a', 'b'), rich=True, loud=False):
    def fn(c):
        if loud:
            from xylem.log_utils import enable_debug, enable_verbose
            out = env.capture()
            out.__enter__()
            c.at_close(lambda: out.__exit__(None, None, None))
            c.at_close(lambda: enable_debug(False))
            c.at_close(lambda: enable_verbose(False))
            enable_verbose()
            enable_debug(c.flag('debug'))
        w = World(c, ids)
        hist = []
        last = None
        for _step in range(depth):
            ops = [('update',), ('strict',)]
            for i in ids:
                s = w.slot[i]
                ops += [('up', i, u) for u in ('c1', 'c2', 'down', 'bad')
                        if u != s['up']]
                if rich:
                    ops += [('opt', i, 2)] if s['opt'] == 1 else []
                    ops += [('move', i)] if s['file'] == '10.yaml' else []
                    ops += [('spec', i)] if s['spec'] == 'mem' else []
                if w.cache[i] is not None:
                    ops.append(('clear', i))
                if isinstance(w.cache[i], dict):
                    ops += [('corrupt', i, 'truncate'),
                            ('corrupt', i, 'bad rules')]
            if any(isinstance(w.cache[i], dict) for i in ids):
                ops.append(('resave',))
            if last is not None:
                # operations on the sources commute with each other: keep
                # only sorted runs of them
                quiet = ('up', 'opt', 'move', 'spec')
                if last[0] in quiet:
                    ops = [o for o in ops if o[0] not in quiet or
                           (o[1], o[0]) > (last[1], last[0])]
            op = c.pick(ops, 'op')
            last = op
            hist.append(op)
            what = 'after ' + ', '.join(map(repr, hist))
            apply(c, w, op, what)
            c.event(op)
            if c.fresh():
                w.observe(what)
                c.state((w.slot, w.cache))
        c.observe(sorted((i, str(v)[:30]) for i, v in w.cache.items()))
    return fn


def apply(c, w, op, what):
    from xylem.update import update
    if op[0] == 'update':
        with env.capture():
            got = c.call(update, config=w.cfg, sources_context=w.context())
        c.check(got[0] == 'ok', lambda: '%s: %r' % (what, got))
        for i in w.ids:
            if w.good(i):
                w.cache[i] = w.entry(i)
    elif op[0] == 'strict':
        w.context().ensure_cache_dir()
        db = w.database()
        with env.capture():
            got = c.call(db.update)
        c.eq(got[0] == 'ok', all(w.good(i) for i in w.ids),
             what + ': success of strict update')
        for i in w.order():
            if not w.good(i):
                break
            w.cache[i] = w.entry(i)
    elif op[0] == 'resave':
        w.context().ensure_cache_dir()
        db = w.database()
        with env.capture():
            got = c.call(db.load_from_cache)
            if got[0] == 'ok':
                db.save_to_cache()
    elif op[0] == 'clear':
        s = w.source(op[1])
        with env.capture():
            s.clear_cache()
            s.clear_cache()
        w.cache[op[1]] = None
    elif op[0] == 'corrupt':
        corrupt(w, op[1], op[2])
        w.cache[op[1]] = 'corrupt'
    else:
        s = w.slot[op[1]]
        if op[0] == 'up':
            s['up'] = op[2]
        elif op[0] == 'opt':
            s['opt'] = op[2]
        elif op[0] == 'move':
            s['file'] = '20.yaml'
        elif op[0] == 'spec':
            s['spec'] = 'alt'
        w.write()


KEYS = ['xylem_version', 'spec_name', 'spec_version', 'arguments', 'origin',
        'data', 'time_data_loaded']


def h_broken(c):
    """Every way in which a single cache file can be broken."""
    w = World(c, ('a', 'b'))
    apply(c, w, ('update',), 'first update')
    path = w.source('a').cache_file_path()
    with open(path, 'rb') as f:
        raw = f.read()
    kind = c.pick(['prefix', 'no key', 'object', 'data', 'spec', 'tail'],
                  'kind')
    if kind == 'prefix':
        # the pickle ends with the last byte
        n = c.choose(1000, 'length')
        if n >= len(raw):
            c.prune()
        new = raw[:n]
    elif kind == 'no key':
        d = pickle.loads(raw)
        del d[c.pick(KEYS, 'key')]
        new = pickle.dumps(d, 2)
    elif kind == 'object':
        new = pickle.dumps(c.pick([None, [], {}, 'x', 5, KEYS], 'object'), 2)
    elif kind == 'data':
        d = pickle.loads(raw)
        d['data'] = c.pick([
            None, [], 'x', {'k': None}, {'k': {'ubuntu': None}},
            {'k': {'ubuntu': {'v1': None}}},
            {'k': {'ubuntu': {'v1': {'apt': None}}}},
            {'k': {'ubuntu': {'v1': {'apt': {'packages': 'p'}}}}},
            {'a b': {}}, {5: {}}, {'k': {'any_os': {'any_version': {
                'default_installer': {}}}}}], 'data')
        new = pickle.dumps(d, 2)
    elif kind == 'spec':
        d = pickle.loads(raw)
        d['spec_name'] = c.pick(['alt', 'rules', None, '', 'mem2', 'me',
                                 'MEM', ' mem', 'mem\n'], 'spec name')
        new = pickle.dumps(d, 2)
    else:
        new = c.pick([b'\x00' * len(raw), b'<html>', b'{}', b'k: {}\n'],
                     'content')
    with open(path, 'wb') as f:
        f.write(new)
    w.cache['a'] = 'corrupt'
    what = 'cache with %s %r' % (kind, new[-40:])
    w.observe(what)
    # and the next update repairs it
    w.slot['a']['up'] = 'c2'
    w.write()
    apply(c, w, ('update',), what + ', update')
    w.observe(what + ', update')
    c.observe((kind, new[-10:]))


def h_urls(c):
    """Real rules files by URL through update() and lookup()."""
    from xylem.update import update
    from xylem.lookup import lookup
    site = Site(c)
    names = ['a', 'b']
    site.write_sources('10.yaml', names)
    model = {n: None for n in names}
    cfg = site.config()
    texts = {'one': 'k: {ubuntu: {v1: {%s: [one]}}}',
             'two': 'k: {ubuntu: {v1: {%s: [two]}}}',
             'empty': '', 'yaml': 'k: [', 'rules': 'k: {ubuntu: 5}',
             'names': 'k: {"a b": p}', 'missing': None}
    for step in range(2):
        for n in names:
            kind = c.pick(sorted(texts), 'content of %s' % n)
            if kind == 'missing':
                if os.path.exists(site.rules_path(n)):
                    site.remove_rules(n)
            else:
                t = texts[kind]
                site.write_rules(n, t % n if '%' in t else t)
            if kind in ('one', 'two'):
                model[n] = {n: {'packages': [kind]}}
            elif kind == 'empty':
                model[n] = {}
        with env.capture():
            got = c.call(update, config=cfg)
        c.check(got[0] == 'ok', lambda: 'update: %r' % (got,))
        with env.capture():
            got = c.call(lookup, 'k', config=cfg, installer_context=context())
        if None in model.values():
            c.check(got[0] == 'exc', lambda: 'lookup: %r' % (got,))
        else:
            want = {}
            for n in names:
                want.update(model[n])
            c.eq(got, ('ok', want), 'lookup in step %d' % step)
        c.state(model)
    c.observe(model)


def h_object(depth, ids, strict=False):
    """One database object that is used for several operations."""
    import datetime

    def fn(c):
        w = World(c, ids)
        w.context().ensure_cache_dir()
        db = w.database()
        if not strict:  # which is the default
            db.raise_on_error = False
        mem = {i: None for i in ids}
        src = {s.arguments['id']: s for s in db.sources}
        times = {}
        hist = []
        for _step in range(depth):
            ops = [('update',), ('load source',), ('load cache',)]
            if all(m is not None for m in mem.values()):
                ops.append(('save',))
            for i in ids:
                ops += [('up', i, u) for u in ('c1', 'c2', 'down', 'bad')
                        if u != w.slot[i]['up']]
                if isinstance(w.cache[i], dict):
                    ops += [('corrupt', i, 'truncate'),
                            ('corrupt', i, 'bad rules')]
                if w.cache[i] is not None:
                    ops.append(('clear', i))
            if hist and hist[-1][0] == 'up':
                ops = [o for o in ops if o[0] != 'up' or o[1] > hist[-1][1]]
            op = c.pick(ops, 'op')
            hist.append(op)
            c.event(op)
            what = 'one database object, ' + ', '.join(map(repr, hist))
            t0 = datetime.datetime.now()
            if op[0] in ('update', 'load source', 'load cache', 'save'):
                with env.capture():
                    got = c.call({
                        'update': db.update, 'save': db.save_to_cache,
                        'load source': db.load_from_source,
                        'load cache': db.load_from_cache}[op[0]])
                bad = [i for i in w.order() if not (
                    isinstance(w.cache[i], dict) if op[0] == 'load cache' else
                    w.good(i) or op[0] == 'save')] if strict else []
                c.eq(got[0] == 'ok', not bad, '%s: success, %r' % (what, got))
                for i in w.order():
                    if i in bad:
                        break       # the first error is raised
                    if op[0] in ('update', 'load source'):
                        if w.good(i):
                            mem[i] = w.entry(i)['data']
                            times[i] = (t0, datetime.datetime.now())
                    if op[0] == 'load cache' and \
                            isinstance(w.cache[i], dict):
                        mem[i] = w.cache[i]['data']
                        times[i] = w.cache[i]['times']
                    if op[0] == 'save' or (op[0] == 'update' and w.good(i)):
                        w.cache[i] = {'data': mem[i], 'times': times[i]}
            elif op[0] == 'clear':
                with env.capture():
                    src[op[1]].clear_cache()
                w.cache[op[1]] = None
            elif op[0] == 'corrupt':
                corrupt(w, op[1], op[2])
                w.cache[op[1]] = 'corrupt'
            else:
                w.slot[op[1]]['up'] = op[2]
                w.write()
            for i in ids:
                c.eq(src[i].data, mem[i], '%s: data of %s' % (what, i))
                if mem[i] is not None:
                    for ic in contexts():
                        c.eq(src[i].lookup('k', ic),
                             ref_lookup(mem[i], 'k', *ic.triple),
                             '%s: lookup in %s' % (what, i))
                        c.eq(set(src[i].keys(ic)),
                             ref_keys(mem[i], *ic.triple[:2]),
                             '%s: keys of %s' % (what, i))
                    c.check(times[i][0] <= src[i].time_data_loaded <=
                            times[i][1], '%s: load time of %s' % (what, i))
            if all(m is not None for m in mem.values()):
                for ic in contexts():
                    want, keys = {}, set()
                    for i in reversed(w.order()):
                        want.update(ref_lookup(mem[i], 'k', *ic.triple))
                        keys.update(ref_keys(mem[i], *ic.triple[:2]))
                    c.eq(db.lookup('k', ic), want, what + ': lookup')
                    c.eq(sorted(db.keys(ic)), sorted(keys), what + ': keys')
            c.state((w.slot, mem, {i: isinstance(w.cache[i], dict) and
                                   w.cache[i]['data'] for i in ids}))
            if not c.fresh():
                continue
            for s in w.database().sources:
                i = s.arguments['id']
                got = c.call(s.load_from_cache)
                if isinstance(w.cache[i], dict):
                    c.check(got[0] == 'ok', lambda: '%s: cache of %s: %r' %
                            (what, i, got))
                    c.eq(s.data, w.cache[i]['data'],
                         '%s: cache of %s' % (what, i))
                    t = w.cache[i]['times']
                    c.check(t[0] <= s.time_data_loaded <= t[1],
                            '%s: load time in cache of %s' % (what, i))
                else:
                    c.check(got[0] == 'exc' and s.data is None, lambda:
                            '%s: cache of %s: %r' % (what, i, got))
        c.observe(str(mem)[:60])
    return fn


IDS = ['http://h/a/r.yaml', 'http://h/b/r.yaml', 'http://h/a/r.yaml?x=1',
       'http://h/a/r.yaml#x', 'HTTP://h/a/r.yaml', 'http://h/A/r.yaml',
       'https://h/a/r.yaml', 'http://h/a/r.yml', 'http://h/a//r.yaml',
       'http://h/a/r.yaml ', 'http://h/a_r.yaml', 'h_a_r.yaml', 'r.yaml',
       'r', 'R', '../r', '/r', '', ' ', 'e', '\xe9', 'e\u0301', '\xfc', '?',
       'x' * 300, 'x' * 300 + '1', '%s' % ('x' * 299 + 'y'), 'r\n', 'r\0',
       '4dc7c9ec434ed06502767136789763ec11d2c4b7', '1', '01', '1.0']


def h_ids(both):
    """Sources with similar identifiers do not share anything."""
    def fn(c):
        n = 1 + c.choose(len(IDS) - 1, 'first')
        pair = [IDS[n], IDS[c.choose(n, 'second')]]
        a, b = pair[::-1] if both and c.flag('swapped') else pair
        w = World(c, (a, b))
        w.slot[b]['up'] = 'c2'
        w.write()
        what = 'sources %r and %r' % (a, b)

        def update():
            w.context().ensure_cache_dir()
            db = w.database()
            db.raise_on_error = False
            with env.capture():
                st, v = c.call(db.update)
            c.check(st == 'ok', '%s: update: %r', what, v)
            for i in w.ids:
                if w.good(i):
                    w.cache[i] = w.entry(i)
            w.observe(what)
        update()
        c.eq(len(w.site.cache_files()), 2, what + ': cache files')
        w.slot[a]['up'], w.slot[b]['up'] = c.pick(
            [('c2', 'down'), ('down', 'c1'), ('bad', 'empty'),
             ('c2', 'c1')], 'then')
        w.write()
        update()
        w.source(a).clear_cache()
        w.cache[a] = None
        w.observe(what + ', first one cleared')
        c.eq([f for f in os.listdir(w.site.root)
              if f not in ('sources.d', 'cache', 'rules')], [],
             what + ': files elsewhere')
        c.observe('%r' % (a,))
    return Harness('identifiers', fn, split=2)


def h_sizes(tier):
    """Many sources, and many or long rules in one source."""
    from xylem.update import update
    from xylem.sources import SourcesContext, RulesDatabase

    def some(n, which):
        return {'none': [], 'first': range(n)[:1], 'last': range(n)[-1:],
                'every third': range(0, n, 3), 'all': range(n)}[which]

    def rules(i, k, tag):
        return {'k%d' % j: {'ubuntu': {'v1': {'apt': {
            'packages': ['%s-%d-%d' % (tag, i, j)]}}}} for j in range(k)}

    def fn(c):
        what = c.pick(['sources', 'keys', 'bytes'], 'of')
        n = c.pick(sizes(tier, 260 if what == 'keys' else 16
                         if tier == 'quick' else 130), 'number')
        site = Site(c)
        broken = []
        if what == 'sources':
            data = [rules(i, 2, 'old') for i in range(n)]
            broken = some(n, c.pick(['first', 'every third', 'last', 'none',
                                     'all'], 'broken later'))
        elif what == 'keys':
            data = [rules(0, n, 'old'), rules(1, n, 'old')]
        else:
            # around the sizes of buffers
            base = c.pick([0, 512, 1024, 4096, 8192, 65536], 'base')
            data = [{'k': {'ubuntu': {'v1': {'apt': {
                'packages': ['x' * (base + n)]}}}}}]
        if what == 'sources' and c.flag('two files'):
            half = len(data) // 2
        else:
            half = len(data)
        names_ = ['s%d' % i for i in range(len(data))]
        site.write_sources('10.yaml', names_[:half])
        site.write_sources('20.yaml', names_[half:])
        cfg = site.config()

        def cached(tag):
            db = RulesDatabase(SourcesContext(cfg))
            with env.capture():
                got = c.call(db.load_from_cache)
            c.check(got[0] == 'ok', lambda: '%d %s, %s: load from cache: %r' %
                    (n, what, tag, got))
            c.eq([s.data for s in db.sources], data,
                 '%d %s, %s: cached data' % (n, what, tag))
            c.eq(len(site.cache_files()), len(data),
                 '%d %s, %s: cache files' % (n, what, tag))

        for i, r in enumerate(data):
            site.write_rules(names_[i], r)
        with env.capture():
            update(config=cfg)
        cached('first update')
        with env.capture():
            update(config=cfg)
        cached('same again')
        for i, r in enumerate(data):
            if i in broken:
                site.write_rules(names_[i], '[')
            else:
                data[i] = json.loads(json.dumps(r).replace('old', 'new'))
                site.write_rules(names_[i], data[i])
        with env.capture() as cap:
            update(config=cfg)
        for i in range(len(data)):
            c.eq(site.url(names_[i]) in cap.stderr, i in broken,
                 '%d %s: failure of source %d reported in %r' % (
                     n, what, i, cap.stderr))
        cached('with %d broken' % len(broken))
        c.observe((n, what, len(broken), half))
    return Harness('sizes', fn, split=2)


def harnesses(tier):
    if tier == 'thorough':
        return [Harness('history_rich', h_history(5), split=3),
                Harness('history_one', h_history(7, ('a',)), split=3),
                Harness('history_two', h_history(6, rich=False), split=3,
                        cap_s=2400),
                Harness('history_loud', h_history(4, loud=True), split=3,
                        cap_s=1200),
                h_ids(True),
                Harness('object', h_object(6, ('a', 'b')), split=3,
                        cap_s=1800),
                Harness('object_one', h_object(7, ('a',)), split=3),
                Harness('object_strict', h_object(5, ('a', 'b'), True),
                        split=3, cap_s=1200),
                Harness('broken', h_broken, split=2),
                Harness('urls', h_urls, split=2), h_sizes(tier)]
    return [Harness('history_rich', h_history(3), split=2),
            Harness('history_one', h_history(4, ('a',)), split=2),
            Harness('history_two', h_history(4, rich=False), split=3),
            Harness('history_loud', h_history(3, ('a',), loud=True), split=2),
            h_ids(False),
            Harness('object', h_object(3, ('a', 'b')), split=2),
            Harness('object_one', h_object(5, ('a',)), split=2),
            Harness('object_strict', h_object(3, ('a', 'b'), True), split=2),
            Harness('broken', h_broken, split=2),
            Harness('urls', h_urls, split=2), h_sizes(tier)]
