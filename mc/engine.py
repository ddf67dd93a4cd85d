"""Stateless explorer: exhaustive enumeration of executions of the real code.

A *harness* is a function ``fn(c)`` that performs one complete execution of the
code under test.  Everything that may vary -- the input, the configuration, the
answer of the environment, the crash point, the next scheduled process -- is
obtained from ``c.choose``/``c.pick``/``c.flag`` (free choice points) or
``c.deviate`` (a departure from the default environment answer, counted against
the deviation bound).  The explorer enumerates *all* choice sequences
depth-first (stateless search, the execution is re-run from its initial state
for every sequence) and within every execution the harness compares what the
implementation did with a reference model through ``c.check``.
"""

import collections
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, finding=None):
        Exception.__init__(self, msg)
        self.finding = finding


class Prune(Exception):
    """The chosen combination is not part of the explored space."""


class ReplayDivergence(Exception):
    pass


class Ctx(object):
    """One execution."""

    def __init__(self, prefix, bound, scratch):
        self.prefix = prefix
        self.bound = bound
        self.scratch_root = scratch
        self.choices = []
        self.widths = []      # number of alternatives that may be explored
        self.labels = []
        self.devs = 0
        self.events = 0
        self.checks = 0
        self.states = []
        self.obs = None
        self.log = []
        self.verified = 0
        self._dirs = []
        self._closing = []

    # -- choice points ----------------------------------------------------
    def choose(self, n, label='choice'):
        if n <= 0:
            raise ValueError('empty choice %r' % (label,))
        if n == 1:
            return 0
        i = len(self.choices)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise ReplayDivergence(
                    'choice %d (%s): %d out of %d' % (i, label, k, n))
        else:
            k = 0
        self.choices.append(k)
        self.widths.append(n)
        self.labels.append(label)
        return k

    def pick(self, seq, label='pick'):
        return seq[self.choose(len(seq), label)]

    def flag(self, label='flag'):
        return bool(self.choose(2, label))

    def subset(self, seq, label='subset'):
        return [x for x in seq if self.flag('%s:%r' % (label, x))]

    def perm(self, seq, label='perm'):
        rest, out = list(seq), []
        while rest:
            out.append(rest.pop(self.choose(len(rest), label)))
        return out

    def deviate(self, n, label='deviate'):
        """0 is the default answer; everything else costs one deviation."""
        if self.bound is not None and self.devs >= self.bound:
            return 0
        k = self.choose(n, label)
        if k:
            self.devs += 1
        return k

    def fresh(self):
        """False while the execution only repeats steps that an earlier
        execution has taken (and observed) already."""
        return len(self.choices) > self.verified or not self.verified

    # -- observations -----------------------------------------------------
    def event(self, what):
        """A step (transition) of the execution."""
        self.events += 1
        if len(self.log) < 400:
            self.log.append(what if isinstance(what, str) else repr(what))

    def state(self, obj):
        """A canonical state reached by the execution."""
        self.states.append(hash(obj if isinstance(obj, str) else repr(obj)))

    def observe(self, obj):
        """The externally visible outcome of the execution."""
        self.obs = obj if isinstance(obj, str) else repr(obj)

    def check(self, cond, msg, *args, **kw):
        self.checks += 1
        if not cond:
            if callable(msg):
                msg = msg()
            elif args:
                msg = msg % args
            raise Violation(msg, kw.get('finding'))

    def eq(self, got, want, what, finding=None):
        self.checks += 1
        if got != want:
            raise Violation('%s: got %r, expected %r' % (what, got, want),
                            finding)

    def prune(self):
        raise Prune()

    def call(self, fn, *args, **kw):
        """-> ('ok', value) or ('exc', exception)"""
        try:
            return ('ok', fn(*args, **kw))
        except (Violation, Prune, ReplayDivergence):
            raise
        except Exception as e:
            return ('exc', e)
        except SystemExit as e:
            return ('exit', e)

    def tmp(self):
        """A fresh scratch directory, removed after the execution."""
        d = tempfile.mkdtemp(dir=self.scratch_root)
        self._dirs.append(d)
        return d

    def at_close(self, fn):
        """fn is called when the execution is over."""
        self._closing.append(fn)

    def loud(self):
        from xylem import log_utils
        return log_utils.is_verbose() or log_utils.is_debug()

    def close(self):
        for fn in self._closing:
            fn()
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


class Harness(object):
    """``fn(c)`` explored exhaustively (up to ``bound`` deviations)."""

    def __init__(self, name, fn, bound=None, split=2, jobs=None, cap_s=None,
                 note=''):
        self.name = name
        self.fn = fn
        self.bound = bound
        self.split = split
        self.jobs = jobs
        self.cap_s = cap_s
        self.note = note


def loud(h):
    """The same harness with verbose and debug messages switched on."""
    def fn(c):
        from xylem import log_utils
        from . import env
        with env.capture():
            log_utils.enable_verbose(True)
            log_utils.enable_debug(True)
            try:
                h.fn(c)
            finally:
                log_utils.enable_verbose(False)
                log_utils.enable_debug(False)
    return Harness(h.name + '-loud', fn, h.bound, h.split, h.jobs, h.cap_s,
                   'the same with verbose and debug messages')


def all_harnesses(check, tier):
    """``check.LOUD``: names of the harnesses to be explored in loud mode,
    too; in the thorough tier all of them except those in ``check.SILENT``.
    """
    hs = check.harnesses(tier)
    names = getattr(check, 'LOUD', ())
    silent = getattr(check, 'SILENT', ())
    return hs + [loud(h) for h in hs if h.name not in silent and
                 (names is True or h.name in names or
                  (names and tier == 'thorough'))]


def _is_repo_frame(tb):
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


class Stats(object):
    def __init__(self):
        self.executions = 0
        self.pruned = 0
        self.choice_points = 0
        self.events = 0
        self.checks = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.findings = collections.OrderedDict()
        self.capped = False
        self.max_depth = 0

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.choice_points += o.choice_points
        self.events += o.events
        self.checks += o.checks
        self.states |= o.states
        self.outcomes.update(o.outcomes)
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)
        self.capped |= o.capped
        self.max_depth = max(self.max_depth, o.max_depth)


def run_once(h, prefix, scratch, verified=0, again=True):
    """-> (ctx, None | (msg, finding))

    An exception of the harness itself (e.g. because a result has an
    unexpected shape) is a violation if the same choices raise it again.
    """
    c = Ctx(prefix, h.bound, scratch)
    c.verified = verified
    bad = None
    try:
        h.fn(c)
    except Prune:
        c.pruned = True
        return c, None
    except Violation as e:
        bad = (str(e), e.finding)
    except ReplayDivergence:
        raise
    except Exception as e:
        if _is_repo_frame(e.__traceback__):
            bad = ('unexpected exception from the code under test: ' +
                   ''.join(traceback.format_exception_only(type(e), e)).strip()
                   + ' [' + ' <- '.join(
                       '%s:%d' % (os.path.basename(f.filename), f.lineno)
                       for f in reversed(traceback.extract_tb(
                           e.__traceback__)[-4:])) + ']', None)
        elif isinstance(e, (MemoryError, ImportError)) or not again:
            raise
        else:
            bad = ('cannot interpret the behaviour of the code under test: ' +
                   ''.join(traceback.format_exception_only(type(e), e)).strip()
                   + ' [' + ' <- '.join(
                       '%s:%d' % (os.path.basename(f.filename), f.lineno)
                       for f in reversed(traceback.extract_tb(
                           e.__traceback__)[-4:])) + ']', None)
            try:
                run_once(h, list(c.choices), scratch, 0, False)
            except type(e):
                pass
            else:
                raise
    except SystemExit as e:
        if _is_repo_frame(e.__traceback__):
            bad = ('unexpected SystemExit(%r)' % (e.code,), None)
        else:
            raise
    finally:
        c.close()
    c.pruned = False
    if len(c.choices) < len(prefix) and bad is None:
        raise ReplayDivergence('execution ended after %d of %d choices' %
                               (len(c.choices), len(prefix)))
    return c, bad


def _account(st, c):
    st.executions += 1
    st.choice_points += len(c.choices)
    st.events += c.events
    st.checks += c.checks
    st.states.update(c.states)
    st.max_depth = max(st.max_depth, len(c.choices))
    if c.obs is not None:
        st.states.add(hash(c.obs))
        st.outcomes[c.obs[:160]] += 1
        if len(st.outcomes) > 5000:  # keep memory bounded, count is a floor
            st.outcomes = collections.Counter(
                dict(st.outcomes.most_common(4000)))


def _sample(h, c):
    return {'harness': h.name, 'choices': c.choices[:40],
            'labels': [str(l)[:40] for l in c.labels[:40]],
            'log': c.log[:12], 'outcome': (c.obs or '')[:300]}


def explore(h, root, scratch, known, deadline=None):
    """DFS below ``root``.  -> (stats, violation or None)"""
    st = Stats()
    prefix = list(root)
    base = len(root)
    nsample = 0
    verified = 0
    while True:
        c, bad = run_once(h, prefix, scratch, verified)
        if c.pruned:
            st.pruned += 1
        else:
            _account(st, c)
            if nsample < 1 and st.executions in (1, 50, 700):
                st.samples.append(_sample(h, c))
        if bad is not None:
            msg, finding = bad
            if finding is not None and finding in known:
                if finding not in st.findings:
                    st.findings[finding] = (msg, c.choices)
            else:
                return st, (msg, list(c.choices), list(c.labels), list(c.log))
        # next sequence
        ch, wd = c.choices, c.widths
        i = len(ch) - 1
        while i >= base and ch[i] + 1 >= wd[i]:
            i -= 1
        if i < base:
            return st, None
        prefix = ch[:i] + [ch[i] + 1]
        verified = 0 if bad is not None else i
        if deadline is not None and time.time() > deadline:
            st.capped = True
            return st, None


def roots(h, scratch, depth):
    """All choice prefixes of length <= depth that partition the tree."""
    out = [[]]
    for _ in range(depth):
        nxt, grew = [], False
        for r in out:
            c, _bad = run_once(h, r, scratch)
            if len(c.choices) > len(r):
                nxt.extend(r + [k] for k in range(c.widths[len(r)]))
                grew = True
            else:
                nxt.append(r)
        out = nxt
        if not grew or len(out) > 256:
            break
    return out


_W = {}


def _worker_init(harnesses, scratch, known):
    _W['h'] = harnesses
    _W['scratch'] = tempfile.mkdtemp(dir=scratch)
    _W['known'] = known
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)


def _worker(job):
    hi, root, deadline = job
    try:
        st, bad = explore(_W['h'][hi], root, _W['scratch'], _W['known'],
                          deadline)
        return hi, root, st, bad, None
    except BaseException:
        return hi, root, Stats(), None, traceback.format_exc()


def in_child(fn, *args):
    """Result of ``fn`` in a process of its own, None if it dies."""
    def main(conn):
        conn.send(fn(*args))
        conn.close()
    ctx = multiprocessing.get_context('fork')
    here, there = ctx.Pipe(False)
    p = ctx.Process(target=main, args=(there,))
    p.start()
    there.close()
    try:
        return here.recv()
    except EOFError:
        return None
    finally:
        here.close()
        p.join()


def _roots(harnesses, scratch):
    out = []
    for hi, h in enumerate(harnesses):
        try:
            out.append((hi, roots(h, scratch, h.split), None))
        except BaseException:
            out.append((hi, [], traceback.format_exc()))
    return out


def run_all(harnesses, scratch, known, jobs=8, budget_s=None):
    """-> (per-harness stats, violations{hi: bad}, errors)"""
    per = [Stats() for _ in harnesses]
    viol, errs = {}, []
    ctx = multiprocessing.get_context('fork')
    # in a process of its own, so that each worker starts afresh
    prepared = in_child(_roots, harnesses, scratch)
    if prepared is None:
        return per, viol, [('all', 'cannot be prepared')]
    work = []
    for hi, rs, err in prepared:
        if err:
            errs.append((harnesses[hi].name, err))
        cap = harnesses[hi].cap_s
        deadline = time.time() + cap if cap else None
        work.extend((hi, r, deadline) for r in rs)
    pool = ctx.Pool(jobs, _worker_init, (harnesses, scratch, known))
    try:
        for hi, root, st, bad, err in pool.imap_unordered(_worker, work, 1):
            per[hi].merge(st)
            if err:
                errs.append((harnesses[hi].name, err))
            if bad is not None:
                # the counterexamples with the fewest choices come first
                viol.setdefault(hi, []).append((root,) + bad)
                viol[hi].sort(key=lambda b: (len(b[2]), b[2]))
                del viol[hi][5:]
    finally:
        pool.terminate()
        pool.join()
    return per, viol, errs


def confirm(h, scratch, known, choices=None, below=None):
    """Execute ``choices``, or everything ``below`` some, in a fresh process.

    Returns what goes wrong there, or None.
    """
    def fn():
        try:
            _worker_init([h], scratch, known)
            if below is not None:
                return explore(h, below, _W['scratch'], known,
                               time.time() + 60)[1]
            for _ in range(6):
                bad = run_once(h, choices, _W['scratch'])[1]
                if bad:
                    return bad
        except BaseException:
            return None
    return in_child(fn)


# --------------------------------------------------------------------------

def load_known(path):
    """Known findings: ``finding: property=<id> key=<key> <text>`` lines."""
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    parts = line.split(None, 3)
                    pid = parts[1].split('=', 1)[1]
                    key = parts[2].split('=', 1)[1]
                    out.setdefault(pid, {})[key] = (
                        parts[3] if len(parts) > 3 else '')
    return out


def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--harness')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    pid = check.PROPERTY
    t0 = time.time()
    known = load_known(os.path.join(ROOT, 'KNOWN_FINDINGS')).get(pid, {})
    from . import env
    scratch = env.scratch()
    harnesses = all_harnesses(check, tier)
    if a.harness:
        harnesses = [h for h in harnesses if h.name == a.harness]
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        h = [x for x in all_harnesses(check, rep.get('tier', tier))
             if x.name == rep['harness']][0]
        if rep.get('below') is not None:
            st, bad = explore(h, rep['below'], scratch, set(known),
                              time.time() + 600)
            print('explored %d executions' % st.executions)
            if bad:
                print('VIOLATION property=%s replay=%s' % (pid, a.replay))
                print('  ' + bad[0])
                return 1
            print('no violation on replay')
            return 0
        c, bad = run_once(h, rep['choices'], scratch)
        for l in c.log:
            print('  ' + l)
        print('outcome:', c.obs)
        if bad:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            print('  ' + bad[0])
            return 1
        print('no violation on replay')
        return 0
    per, viol, errs = run_all(harnesses, scratch, set(known), a.jobs)
    rc = 0
    nviol = 0
    lines = []
    findings = collections.OrderedDict()
    for st in per:
        for k, v in st.findings.items():
            findings.setdefault(k, v)
    for hi, bads in sorted(viol.items()):
        h = harnesses[hi]
        below = None
        for root, msg, choices, labels, log in bads:
            if confirm(h, scratch, known, choices=choices):
                break
        else:
            # what fails may depend on the executions before it in the same
            # process (the code under test remembers something)
            root, msg, choices, labels, log = bads[0]
            for below in (root, []):
                found = confirm(h, scratch, known, below=below)
                if found:
                    _root, msg, choices, labels, log = ([],) + found
                    msg += ' [depends on what was executed before]'
                    break
            else:
                errs.append((h.name, 'counterexample not reproducible: %s %r'
                             % (msg, choices)))
                continue
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%s.json' % (
            pid, h.name.replace(' ', '_')))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'harness': h.name, 'tier': tier,
                       'choices': choices, 'below': below,
                       'labels': [str(l) for l in labels],
                       'message': msg, 'log': log,
                       'replay_cmd': '/opt/venv/bin/python run.py %s --replay '
                       '%s' % (pid, path)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  [%s] %s' % (h.name, msg[:2000]))
        nviol += 1
        rc = 1
    for k, (msg, choices) in findings.items():
        print('KNOWN-FINDING: property=%s key=%s %s -- %s' %
              (pid, k, known.get(k, ''), msg[:300]))
    tot = Stats()
    cov = []
    for h, st in zip(harnesses, per):
        tot.merge(st)
        cov.append(collections.OrderedDict([
            ('harness', h.name), ('note', h.note),
            ('executions', st.executions), ('pruned', st.pruned),
            ('choice_points', st.choice_points), ('steps', st.events),
            ('oracle_checks', st.checks), ('distinct_states', len(st.states)),
            ('distinct_outcomes', len(st.outcomes)),
            ('max_depth', st.max_depth),
            ('deviation_bound', h.bound), ('capped', st.capped)]))
        print('[%s] %-24s executions=%d states=%d outcomes=%d choice_points=%d'
              ' steps=%d checks=%d%s' %
              (pid, h.name, st.executions, len(st.states), len(st.outcomes),
               st.choice_points, st.events, st.checks,
               ' CAPPED' if st.capped else ''))
        if a.verbose:
            for o, n in st.outcomes.most_common(12):
                print('      %7d %s' % (n, o[:150]))
    if tot.executions and rc == 0 and not errs:
        for h, st in zip(harnesses, per):
            if st.checks == 0:
                errs.append((h.name, 'vacuous: no oracle check was evaluated'))
    level = getattr(check, 'LEVEL', 'model_checking')
    coverage = collections.OrderedDict()
    if level == 'model_checking':
        coverage['states'] = len(tot.states)
        coverage['transitions'] = tot.choice_points + tot.events
        coverage['traces_validated_against_impl'] = tot.executions
    else:
        coverage['evaluations'] = tot.executions
        coverage['distinct_nontrivial'] = len(tot.states)
        coverage['rule'] = getattr(check, 'RULE', 'one execution per fault '
                                   'point; distinct by canonical outcome')
    coverage['samples'] = tot.samples
    coverage['oracle_checks'] = tot.checks
    coverage['exhaustive'] = bool(not tot.capped and rc == 0 and not errs)
    coverage['harnesses'] = cov
    ev = collections.OrderedDict([
        ('property', pid), ('tier', tier), ('seed', seed), ('level', level),
        ('coverage', coverage),
        ('assumptions', list(getattr(check, 'ASSUMPTIONS', []))),
        ('wall_s', round(time.time() - t0, 3)), ('violations', nviol)])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for name, e in errs:
        sys.stderr.write('HARNESS ERROR [%s/%s]: %s\n' % (pid, name, e))
    if rc == 0 and errs:
        rc = 2
    print('[%s] %s tier=%s wall=%.1fs %s' % (
        pid, {0: 'held on everything explored', 1: 'VIOLATED',
              2: 'CHECK ERROR'}[rc], tier, time.time() - t0,
        'exhaustive' if coverage['exhaustive'] else ''))
    return rc
