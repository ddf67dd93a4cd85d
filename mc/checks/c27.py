"""C27: Install reports every failure."""

from mc.engine import Harness
from mc import env
from mc.checks.c26 import many, requests, OUTCOMES
from mc.installworld import Expected, World, KEYS, MISSING, fault_types
from mc.sizes import names, sizes

PROPERTY = 'C27'
LOUD = True
ASSUMPTIONS = [
    'no two requested keys resolve to the same package of one installer',
]

FAULTS = {'general': [None, 'prereq'], 'filter': [None, 'error', 'unexpected'],
          'prepare': [None, 'prereq'],
          'compose': [None, 'error', 'unexpected'],
          'verify': [None, 'error', 'unexpected']}


def texts(errors):
    from xylem.exception import exc_to_str
    return [exc_to_str(e) for e in errors]


def judge(c, w, st, v, e, req, cont, what):
    from xylem.exception import XylemInternalError
    from xylem.install import InstallError
    from xylem.installers import InstallerPrerequisiteError
    from xylem.resolve import ResolutionError
    runs = w.executed
    if e.tolerant:
        runs = [r for r in runs if r[0] not in e.tolerant]
        want = [r for r in e.commands if r[0] not in e.tolerant]
        c.eq(runs, want, what + ': commands')
    else:
        c.eq(runs, e.commands, what + ': commands')
    if e.raises:
        kind = InstallerPrerequisiteError if e.raises == 'prereq' else \
            XylemInternalError
        c.check(st == 'exc' and isinstance(v, kind), '%s: %s %r, expected %s',
                what, st, v, kind.__name__)
        text = texts([v])[0]
        c.check('scripted' in text, '%s: cause is not shown in %r', what, text)
        return 'raises'
    c.check(st == 'ok', '%s: %s %r', what, st, v)
    resolve_errors, errors = v
    c.eq([k for k, _ in resolve_errors], e.resolve_errors,
         what + ': keys that failed to resolve')
    for _k, x in resolve_errors:
        c.check(isinstance(x, ResolutionError), '%s: error %r', what, x)
    for x in errors:
        c.check(isinstance(x, InstallError), '%s: error %r', what, x)
    c.eq(bool(errors), bool(e.failed or e.groups_failed),
         '%s: errors %r' % (what, errors))
    ts = texts(errors)
    for k in w.keys:
        for p in w.keys[k][1]:
            named = any(p in t for t in ts)
            c.check(named or p not in e.failed, '%s: failure of %s is not '
                    'reported in %r', what, p, ts)
            c.check(not named or p in e.failed, '%s: %s is reported as '
                    'failure in %r', what, p, ts)
    for n in e.groups_failed:
        c.check(any("'%s'" % n in t or '`%s ' % n in t or ' %s ' % n in t
                    for t in ts), '%s: failure of installer %s is not '
                'reported in %r', what, n, ts)
    for n, stage in e.causes:
        c.check(any('scripted %s error' % stage in t for t in ts),
                '%s: cause is not shown in %r', what, ts)
    return 'errors' if errors or resolve_errors else 'success'


def h_faults(keys, n, bound, outcomes):
    reqs = requests(keys + [MISSING], n)

    def fn(c):
        req = reqs[c.choose(len(reqs), 'request')]
        cont = c.flag('continue')
        reinstall = c.flag('reinstall')
        layout = c.pick(['each', 'batch'], 'layout')
        known = [k for k in req if k in KEYS]
        installed = c.pick([[], ['p-one', 'p-three']], 'installed') \
            if 'k1' in req or 'k3' in req else []
        names = list(dict.fromkeys(KEYS[k][0] for k in known))
        faults = {}
        for stage in ('general', 'filter', 'prepare', 'compose', 'verify'):
            for i in names:
                fs = FAULTS[stage]
                f = fs[c.deviate(len(fs), '%s %s' % (stage, i))]
                if f:
                    faults[i, stage] = f
        w = World(c, installed, layout, faults=faults,
                  outcome=lambda argv: outcomes[
                      c.deviate(len(outcomes), ' '.join(argv))])
        st, v = w.install(req, continue_on_error=cont, reinstall=reinstall)
        what = ('install(%r) with %r installed (%s, continue=%r, reinstall=%r)'
                ', faults %r, outcomes %r' % (
                    req, installed, layout, cont, reinstall, faults,
                    w.decisions))
        e = Expected(req, installed, layout, reinstall, True, cont,
                     w.outcomes, faults)
        r = judge(c, w, st, v, e, req, cont, what)
        c.event(repr((sorted(faults.items()), w.decisions)))
        c.observe('%s %r %r %r' % (r, sorted(e.failed), e.resolve_errors,
                                   e.raises))
    return Harness('faults', fn, split=3, bound=bound,
                   note='all request sequences of up to %d keys incl. an '
                   'unknown one, at most %d faults among prerequisites, '
                   'filtering, composing, executing and verifying' % (
                       n, bound))


def h_all_keys():
    """Keys requested together with all keys."""
    def fn(c):
        req = c.pick([[], ['k3'], [MISSING], ['k2', MISSING, 'k1']], 'request')
        cont = c.flag('continue')
        bad = c.pick([None, 'p-one', 'p-two', 'p-four', 'p-six'], 'failing')
        w = World(c, [], 'each', outcome=lambda argv: 'fail'
                  if bad in argv else 'ok')
        st, v = w.install(req, all_keys=True, continue_on_error=cont)
        keys = list(dict.fromkeys(req + sorted(KEYS)))
        e = Expected(keys, [], 'each', cont=cont, decisions=w.outcomes)
        what = 'install(%r, all keys, continue=%r), %r fails' % (
            req, cont, bad)
        r = judge(c, w, st, v, e, keys, cont, what)
        c.observe(repr((r, sorted(e.failed), len(e.commands))))
    return Harness('all keys', fn, note='all keys, every failing package')


def h_unexpected():
    """Every type of unexpected error at every stage."""
    def fn(c):
        types = fault_types()
        t = types[c.choose(len(types), 'type')]
        stage = c.pick(['filter', 'compose', 'verify'], 'stage')
        who = c.pick(['a', 'b'], 'installer')
        cont = c.flag('continue')
        bad = c.flag('first command fails')
        faults = {(who, stage): 'unexpected'}
        w = World(c, [], 'each', faults=faults, fault_type=t,
                  outcome=lambda argv: 'fail' if bad and 'p-one' in argv
                  else 'ok')
        req = ['k1', 'k2']
        st, v = w.install(req, continue_on_error=cont)
        what = 'install(%r, continue=%r), %s raised by %s in %s' % (
            req, cont, t.__name__, who, stage)
        e = Expected(req, [], 'each', False, True, cont, w.outcomes, faults)
        c.observe(repr((judge(c, w, st, v, e, req, cont, what), t)))
    return Harness('unexpected', fn, note='errors of every type installers '
                   'may raise by mistake, at every stage')


def h_sizes(tier):
    """Many packages or unknown keys, the last or all of which fail."""
    def fn(c):
        n = c.pick(sizes(tier)[1:], 'number')
        shape = c.pick(['packages', 'alternating', 'halves', 'unknown'],
                       'shape')
        keys, req = many(n, 'alternating' if shape == 'unknown' else shape)
        ps = names(n)
        bad = {'last': ps[-1:], 'first': ps[:1], 'middle': ps[n // 2:][:1],
               'all': ps, 'every second': ps[::2]}[c.pick(
                   ['last', 'first', 'middle', 'all', 'every second'],
                   'failing')]
        layout = c.pick(['each', 'batch'], 'layout')
        cont = c.flag('continue')
        if shape == 'unknown':
            for p in bad:
                del keys['k' + p]
        if shape == 'packages' or not cont:
            if n > 40 and n % 10:
                c.prune()
        w = World(c, [], layout, keys=keys, outcome=lambda argv: (
            'fail' if set(argv) & set(bad) else 'ok'))
        st, v = w.install(req, continue_on_error=cont)
        what = '%d packages (%s, %s, continue=%r), %d fail' % (
            n, shape, layout, cont, len(bad))
        e = Expected(req, [], layout, cont=cont, decisions=w.outcomes,
                     known=keys)
        r = judge(c, w, st, v, e, req, cont, what)
        c.observe(repr((r, len(e.failed), len(e.resolve_errors))))
    return Harness('sizes', fn, split=1, note='every number of packages, the '
                   'first, the last or many of which fail')


def h_codes():
    """Every exit status and signal; the packages are installed anyway."""
    codes = list(range(1, 256)) + [-n for n in range(1, 65)]

    def fn(c):
        code = c.pick(codes, 'exit status')
        req = ['k1', 'k3']
        cont = c.flag('continue')
        layout = c.pick(['each', 'batch'], 'layout')
        bad = c.pick(['p-one', 'p-four'], 'failing')
        w = World(c, [], layout, outcome=lambda argv: 'late:%d' % code
                  if bad in argv else 'ok')
        st, v = w.install(req, continue_on_error=cont)
        e = Expected(req, [], layout, cont=cont, decisions=w.outcomes)
        what = 'install(%r, continue=%r) %s, status %d for %r' % (
            req, cont, layout, code, bad)
        r = judge(c, w, st, v, e, req, cont, what)
        c.observe(repr((r, sorted(e.failed), len(e.commands), code)))
    return Harness('codes', fn, split=1, note='every exit status and signal')


def harnesses(tier):
    if tier == 'quick':
        return [h_faults(['k1', 'k2', 'k3'], 2, 2, OUTCOMES[:5]),
                h_all_keys(), h_unexpected(), h_codes(),
                h_sizes(tier)]
    return [h_faults(['k1', 'k2', 'k3', 'k4'], 3, 3, OUTCOMES), h_all_keys(),
            h_unexpected(), h_codes(), h_sizes(tier)]
