"""Stateless model checker used by every check of this framework.

A *scenario* is a Python function ``fn(c)`` which builds real pyswagger objects,
drives them, and raises :class:`Violation` when what it observes disagrees with
the reference model.  Every point where the scenario (or the environment it
simulates: fetch results, random numbers, thread schedule, completion order)
can go several ways asks the controller: ``c.pick(label, options)``.

The explorer enumerates *all* resolutions of those points depth first:

* ``free=True`` picks are enumerated completely;
* other picks default to option 0, and each departure from the default costs
  ``cost`` deviations; all executions with at most ``bound`` deviations are run
  (iterative context bounding in the sense of Musuvathi & Qadeer, applied to
  inputs, faults and schedules alike).

Nothing is sampled: VERIF_SEED only decides in which order subtrees are handed
to worker processes.
"""
from __future__ import print_function
import gc
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

EXEC_CPU_LIMIT = float(os.environ.get('MC_EXEC_LIMIT', '25'))
NPROC = int(os.environ.get('MC_PROCS', '8'))
TIER = 'quick'
KNOWN = {}         # signatures listed in known_findings.txt for the property being checked
WALL_CAP = float(os.environ.get('MC_WALL_CAP', '0') or 0)


class Violation(Exception):
    """property broken; `sig` identifies the failing input class"""
    def __init__(self, msg, sig=None):
        super(Violation, self).__init__(msg)
        self.msg = msg
        self.sig = sig or msg


class Prune(Exception):
    """this execution reached a state whose futures are explored elsewhere"""


class Skip(Exception):
    """this combination is outside the domain of the property"""


class EngineError(Exception):
    """replay divergence or misuse: an error of the machinery"""


class ExecTimeout(BaseException):
    pass


def h64(obj):
    s = obj if isinstance(obj, bytes) else repr(obj).encode('utf-8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


class Controller(object):
    def __init__(self, prefix, bound, seen=None):
        self.prefix = prefix
        self.bound = bound
        self.points = []      # (label, n_options, chosen, cost, free)
        self.log = []         # human readable
        self.transitions = 0
        self.states = set()
        self.seen = seen
        self.spent = 0
        self.findings = set()

    # -- choice points ---------------------------------------------------
    def pick(self, label, options, free=False, cost=1):
        options = list(options)
        n = len(options)
        if n == 0:
            raise EngineError('no option at %r' % (label,))
        i = len(self.points)
        if i < len(self.prefix):
            ch = self.prefix[i]
            if ch >= n:
                raise EngineError('replay divergence at %r: %d of %d' % (label, ch, n))
        else:
            ch = 0
        if ch and not free:
            self.spent += cost
        self.points.append((label, n, ch, 0 if free else cost, free))
        opt = options[ch]
        self.log.append((str(label), ch, _short(opt)))
        self.transitions += 1
        return opt

    def flag(self, label, free=False):
        return self.pick(label, (False, True), free=free)

    def free(self, label, options):
        return self.pick(label, options, free=True)

    def subset(self, label, items, free=True):
        return [it for it in items if self.pick('%s:%s' % (label, _short(it)), (False, True), free=free)]

    # -- observation -----------------------------------------------------
    def state(self, *obs):
        self.states.add(h64(obs))

    def step(self, n=1):
        self.transitions += n

    def visit(self, key, depth_left=0):
        """explicit-state dedup: prune if `key` was reached before with at
        least as much depth left (only past the replayed prefix)."""
        hk = h64(key)
        self.states.add(hk)
        if self.seen is None or len(self.points) < len(self.prefix):
            return
        old = self.seen.get(hk, -1)
        if old >= depth_left:
            raise Prune()
        self.seen[hk] = depth_left

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            raise Violation(msg, sig)

    def finding(self, sig, msg):
        """a deviation that is recorded as known finding: noted, and the rest of the
        execution is still judged; a violation when the signature is not listed"""
        if sig not in KNOWN:
            raise Violation(msg, sig)
        self.findings.add(sig)

    def eq(self, got, want, what, sig=None):
        if got != want or type_conflict(got, want):
            raise Violation('%s: got %s, expected %s' % (what, _short(got, 400), _short(want, 400)), sig or what)


def type_conflict(a, b):
    """True vs 1, 'a' vs b'a' must not count as equal"""
    if isinstance(a, bool) != isinstance(b, bool):
        return True
    return False


def _short(o, n=160):
    if callable(o) and hasattr(o, '__name__'):
        return o.__name__
    try:
        s = repr(o)
    except Exception as e:      # noqa
        s = '<%s>' % type(o).__name__
    return s if len(s) <= n else s[:n] + '...'


class Result(object):
    __slots__ = ('executions', 'pruned', 'skipped', 'transitions', 'states', 'violations', 'samples',
                 'maxdev', 'outcomes', 'capped', 'points', 'findings')

    def __init__(self):
        self.executions = self.pruned = self.skipped = self.transitions = 0
        self.states = set()
        self.violations = []
        self.samples = []
        self.maxdev = 0
        self.capped = False
        self.points = 0
        self.findings = set()

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.skipped += o.skipped
        self.transitions += o.transitions
        self.states |= o.states
        self.violations += o.violations
        self.findings |= o.findings
        if len(self.samples) < 8:
            self.samples += o.samples
        self.maxdev = max(self.maxdev, o.maxdev)
        self.points = max(self.points, o.points)
        self.capped = self.capped or o.capped


def _on_alarm(signum, frame):
    raise ExecTimeout()


def run_one(fn, prefix, bound, seen=None, limit=None):
    """-> (controller, violation dict or None, kind)"""
    c = Controller(prefix, bound, seen)
    vio, kind = None, 'ok'
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, limit or EXEC_CPU_LIMIT)
    try:
        try:
            fn(c)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Prune:
        kind = 'prune'
    except Skip:
        kind = 'skip'
    except EngineError as e:
        # the same choices led somewhere else: behaviour depends on what ran before in this process
        kind = 'violation'
        vio = dict(msg='not deterministic: %s' % e, sig='divergence')
    except Violation as e:
        kind = 'violation'
        vio = dict(msg=e.msg, sig=e.sig)
    except ExecTimeout:
        kind = 'violation'
        vio = dict(msg='execution did not terminate within %ss of CPU time' % (limit or EXEC_CPU_LIMIT), sig='timeout')
    except RecursionError:
        kind = 'violation'
        vio = dict(msg='unbounded recursion: ' + traceback.format_exc(limit=-4), sig='recursion')
    except Exception as e:      # noqa: unexpected exception of the code under test
        kind = 'violation'
        vio = dict(msg='unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6)),
                   sig='exception:%s' % type(e).__name__)
    if vio is not None:
        vio['choices'] = [p[2] for p in c.points]
        vio['log'] = c.log
        vio['dev'] = c.spent
    return c, vio, kind


def children(c, plen, bound):
    """prefixes branching off execution `c` after position plen"""
    out = []
    spent = 0
    chosen = [p[2] for p in c.points]
    for i, (label, n, ch, cost, free) in enumerate(c.points):
        if i >= plen:
            if spent + (0 if free else cost) <= bound:
                for alt in range(1, n):
                    out.append(chosen[:i] + [alt])
        if ch and not free:
            spent += cost
    return out


def account(res, c, vio, kind):
    res.executions += 1
    res.transitions += c.transitions
    res.states |= c.states
    res.findings |= c.findings
    res.maxdev = max(res.maxdev, c.spent)
    res.points = max(res.points, len(c.points))
    if kind == 'prune':
        res.pruned += 1
    elif kind == 'skip':
        res.skipped += 1
    if vio:
        res.violations.append(vio)
    if len(res.samples) < 2 and kind == 'ok':
        res.samples.append([list(x) for x in c.log[:40]])


_W = {}


def explore_subtree(prefix):
    fn, bound, deadline, known = _W['fn'], _W['bound'], _W['deadline'], _W['known']
    res = Result()
    seen = _W['seen']
    stack = [prefix]
    fresh = 0
    n = 0
    while stack:
        p = stack.pop()
        c, vio, kind = run_one(fn, p, bound, seen)
        account(res, c, vio, kind)
        if vio and vio['sig'] not in known:
            fresh += 1
            if fresh >= 3:
                break
        n += 1
        if deadline and time.time() > deadline:
            res.capped = True
            break
        stack.extend(children(c, len(p), bound))
    # one representative per known signature is enough to carry back
    keep, sigs = [], set()
    for v in res.violations:
        if v['sig'] in known:
            if v['sig'] in sigs:
                continue
            sigs.add(v['sig'])
        keep.append(v)
    res.violations = keep
    return res


def explore(fn, bound, dedup=False, seed=1, nproc=None, deadline=None, known=(), log=None):
    nproc = nproc or NPROC
    res = Result()
    seen = {} if dedup else None
    _W.update(fn=fn, bound=bound, deadline=deadline, known=frozenset(known), seen=seen)
    # breadth first expansion in the parent until there is enough work
    frontier = [[]]
    target = nproc * 24
    t0 = time.time()
    while frontier and len(frontier) < target and time.time() - t0 < 3.0:
        nxt = []
        for i, p in enumerate(frontier):
            if time.time() - t0 > 3.0:
                nxt.extend(frontier[i:])
                break
            c, vio, kind = run_one(fn, p, bound, seen)
            account(res, c, vio, kind)
            if vio and vio['sig'] not in known and len(res.violations) > 20:
                return res
            nxt.extend(children(c, len(p), bound))
        frontier = nxt
    if not frontier:
        return res
    if any(v['sig'] not in known for v in res.violations):
        return res
    random.Random(seed).shuffle(frontier)
    if nproc == 1:
        for p in frontier:
            r = explore_subtree(p)
            res.merge(r)
            if any(v['sig'] not in known for v in r.violations):
                break
        return res
    gc.collect()
    sys.stdout.flush()
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(nproc)
    try:
        chunk = max(1, min(16, len(frontier) // (nproc * 8)))
        first = None
        for r in pool.imap_unordered(explore_subtree, frontier, chunksize=chunk):
            res.merge(r)
            if any(v['sig'] not in known for v in r.violations):
                if first is None:
                    first = time.time()
            if first is not None and (time.time() - first > 5 or len(res.violations) > 40):
                break
    finally:
        pool.terminate()
        pool.join()
    return res


def shrink(fn, vio, bound, budget=40.0):
    """greedy: revert choices to their default while the same signature stays"""
    t0 = time.time()
    best = vio
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for i, ch in enumerate(best['choices']):
            if not ch or time.time() - t0 > budget:
                continue
            cand = list(best['choices'])
            cand[i] = 0
            # keep the prefix only up to the last non-default choice
            while cand and cand[-1] == 0:
                cand.pop()
            try:
                c, v, kind = run_one(fn, cand, bound, None)
            except EngineError:
                continue
            if v and v['sig'] == best['sig'] and sum(1 for x in v['choices'] if x) < sum(1 for x in best['choices'] if x):
                best = v
                changed = True
                break
    return best
