"""Driver shared by all checks: registry, generated-input search, shrinking,
replay files, evidence.

A *sub-check* is a Hypothesis strategy plus a body ``body(case, ctx)``.  The
case is plain JSON data, so a shrunk failure can be stored and re-run without
Hypothesis.  ``ctx`` collects labels / non-triviality and offers ``close`` &
friends which raise ``Violation``.
"""
import functools
import hashlib
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}     # property id -> list[Sub]


@functools.lru_cache(None)
def load_known(pid):
    """The lines ``known: property=<pid> ...`` of known_findings.txt."""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    pre = f'known: property={pid} '
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [line[len(pre):].strip() for line in f if line.startswith(pre)]


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


class StopSearch(BaseException):
    pass


class Skip(Exception):
    """Case outside the stated domain (counted, never a failure)."""


class Sub:
    def __init__(self, pid, name, strategy, body, n, n_thorough, rule, parts):
        self.pid, self.name, self.strategy, self.body = pid, name, strategy, body
        self.n, self.n_thorough, self.rule = n, n_thorough, rule
        self.parts = parts


def sub(pid, name, strategy, n=300, n_thorough=None, rule='', parts=1):
    """Register body as a sub-check.  ``strategy`` may be a zero-argument
    callable (built lazily in the worker)."""
    def deco(body):
        REGISTRY.setdefault(pid, []).append(
            Sub(pid, name, strategy, body, n, n_thorough or n * 25, rule, parts))
        return body
    return deco


# --------------------------------------------------------------------------
def jnorm(x):
    """Normalise a drawn case to JSON types."""
    if isinstance(x, dict):
        return {str(k): jnorm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jnorm(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    raise HarnessError(f'case contains {type(x)}')


class Ctx:
    def __init__(self, scratch):
        self.labels = []
        self.nontrivial = False
        self.scratch = scratch
        self.known = []

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    # -------- assertions
    def true(self, cond, msg='condition failed', **info):
        if not bool(cond):
            raise Violation(msg + _fmt(info))

    def equal(self, a, b, msg='not equal'):
        if not (a == b):
            raise Violation(f'{msg}: {_short(a)} != {_short(b)}')

    def shape(self, a, shp, msg='shape'):
        if np.shape(a) != tuple(shp):
            raise Violation(f'{msg}: got shape {np.shape(a)}, want {tuple(shp)}')

    def array_equal(self, a, b, msg='arrays differ'):
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f'{msg}: shape {a.shape} != {b.shape}')
        try:
            same = np.array_equal(a, b, equal_nan=True)
        except TypeError:
            same = np.array_equal(a, b)
        if not same:
            raise Violation(f'{msg}: {_short(a)} != {_short(b)}')

    def close(self, a, b, atol=1e-10, rtol=0.0, msg='values differ', nan=False):
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f'{msg}: shape {a.shape} != {b.shape}')
        if a.dtype == object or b.dtype == object:
            raise Violation(f'{msg}: object arrays {_short(a)} {_short(b)}')
        a = a.astype(complex) if np.iscomplexobj(a) else a.astype(float)
        b = b.astype(complex) if np.iscomplexobj(b) else b.astype(float)
        ok = np.isclose(a, b, atol=atol, rtol=rtol, equal_nan=nan)
        if not ok.all():
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            av = np.atleast_1d(a)[i]; bv = np.atleast_1d(b)[i]
            raise Violation(f'{msg}: at {tuple(int(k) for k in i)} got {av!r} want {bv!r} '
                            f'(|diff|={abs(av-bv):.3g}, {len(bad)} of {ok.size} differ)')

    def raises(self, exc, fn, msg='expected an exception'):
        try:
            r = fn()
        except exc:
            return
        raise Violation(f'{msg}: returned {_short(r)}')


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def _fmt(info):
    return '' if not info else ' [' + ', '.join(f'{k}={_short(v)}' for k, v in info.items()) + ']'


# --------------------------------------------------------------------------
def classify(exc, tb):
    """'violation' or 'harness' for an exception raised while running a case."""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, HarnessError):
        return 'harness'
    if isinstance(exc, MemoryError):
        return 'harness'
    frames = traceback.extract_tb(tb)
    inner = frames[-1].filename if frames else ''
    if inner.startswith(VERIF):
        if isinstance(exc, (ImportError, NameError)):
            return 'harness'
        if isinstance(exc, AttributeError) and 'module ' in str(exc):
            return 'harness'
    if isinstance(exc, ImportError) and frames and any(
            f.filename.startswith('<frozen importlib') for f in frames[-2:]):
        # a harness import of a module/name that is no longer there
        caller = [f for f in frames if not f.filename.startswith('<frozen')]
        if caller and caller[-1].filename.startswith(VERIF):
            return 'harness'
    return 'violation'


def run_body(s, case, scratch):
    """Run one case; returns (ctx, None) or raises."""
    ctx = Ctx(scratch)
    s.body(case, ctx)
    return ctx


CUR_BYTES = 1 << 20


def _worker(s, part, seedval, tier, budget, curpath, outpath, scratch):
    """Runs one sub-check in this (forked) process; writes a JSON result."""
    res = dict(sub=s.name, part=part, evaluations=0, skipped=0, distinct=0, labels={},
               samples=[], status='ok', known=[], exhausted=False)
    t0 = time.time()
    fd = os.open(curpath, os.O_RDWR | os.O_CREAT)
    os.ftruncate(fd, CUR_BYTES)
    mm = mmap.mmap(fd, CUR_BYTES)
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        strat = s.strategy() if callable(s.strategy) else s.strategy
        n = s.n if tier == 'quick' else s.n_thorough
        n = max(1, -(-n // s.parts))
        seen = set()
        labels = res['labels']
        state = dict(fail=None, fail_t=None, size=None, counting=True)
        shrink_limit = 25.0 if tier == 'quick' else 90.0

        def record(case, js):
            mm.seek(0)
            b = js.encode()
            mm.write(struct.pack('<dI', time.time(), min(len(b), CUR_BYTES - 64)))
            mm.write(b[:CUR_BYTES - 64])

        @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  phases=(Phase.generate, Phase.shrink))
        @hypothesis.seed(zlib.crc32(f'{seedval}/{s.pid}/{s.name}/{part}'.encode()))
        @given(strat)
        def test(case):
            now = time.time()
            if state['fail_t'] is not None and now - state['fail_t'] > shrink_limit:
                raise StopSearch
            if state['fail_t'] is None and now - t0 > budget:
                res['exhausted'] = True
                raise StopSearch
            case = jnorm(case)
            js = json.dumps(case)
            case = json.loads(js)
            record(case, js)
            ctx = Ctx(scratch)
            try:
                s.body(case, ctx)
                for k in ctx.known:
                    if not any(k in line for line in load_known(s.pid)):
                        raise Violation(f'{k} (not a listed finding)')
            except Skip:
                res['skipped'] += 1
                return
            except Exception as e:
                kind = classify(e, e.__traceback__)
                if kind == 'harness':
                    state['harness'] = traceback.format_exc()
                    raise StopSearch
                tb = traceback.format_exc()
                sz = (len(js), js)
                if state['size'] is None or sz <= state['size'] or True:
                    # Hypothesis only revisits failing cases while shrinking;
                    # keep the smallest one seen.
                    if state['size'] is None or sz < state['size']:
                        state['size'] = sz
                        state['fail'] = (js, f'{type(e).__name__}: {e}', tb)
                if state['fail_t'] is None:
                    state['fail_t'] = now
                raise
            finally:
                if state['fail_t'] is None:
                    res['evaluations'] += 1
            if state['fail_t'] is None:
                for l in ctx.labels:
                    labels[l] = labels.get(l, 0) + 1
                for k in ctx.known:
                    if k not in res['known']:
                        res['known'].append(k)
                if ctx.nontrivial:
                    h = hashlib.blake2b(js.encode(), digest_size=8).digest()
                    if h not in seen:
                        seen.add(h)
                        if len(res['samples']) < 3 and len(js) < 4000:
                            res['samples'].append(case)
        try:
            test()
        except StopSearch:
            pass
        except BaseException as e:
            if state['fail'] is None and not state.get('harness'):
                raise
        res['distinct'] = len(seen)
        if state.get('harness'):
            res['status'] = 'error'
            res['error'] = state['harness']
        elif state['fail'] is not None:
            js, msg, tb = state['fail']
            res['status'] = 'violation'
            res['case'] = json.loads(js)
            res['message'] = msg
            res['traceback'] = tb
    except BaseException:
        res['status'] = 'error'
        res['error'] = traceback.format_exc()
    res['wall_s'] = time.time() - t0
    with open(outpath + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(outpath + '.tmp', outpath)
    sys.stdout.flush()
    os._exit(0)


def read_cur(curpath):
    try:
        with open(curpath, 'rb') as f:
            d = f.read(CUR_BYTES)
        t, ln = struct.unpack('<dI', d[:12])
        if ln == 0:
            return None, None
        return t, json.loads(d[12:12 + ln].decode())
    except Exception:
        return None, None


WARM = {}


def warm(*pids, preload=False):
    """Registers a function that calls the jitted code of a property once, so that workers find it in numba's on-disk cache."""
    def deco(f):
        f.preload = preload
        for p in pids:
            WARM.setdefault(p, []).append(f)
        return f
    return deco


def warm_up(pid, scratch, limit=150.0):
    kids = []
    for f in WARM.get(pid, []):
        sys.stdout.flush(); sys.stderr.flush()
        k = os.fork()
        if k == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1); os.dup2(dn, 2)
                f()
                os._exit(0)
            except BaseException:
                os._exit(1)
        kids.append((k, f))
    end = time.time() + limit
    for k, f in kids:
        ok = False
        while True:
            pid, status = os.waitpid(k, os.WNOHANG)
            if pid:
                ok = status == 0
                break
            if time.time() > end:
                os.kill(k, signal.SIGKILL)
                os.waitpid(k, 0)
                break
            time.sleep(0.02)
        # Loading compiled code takes about a second: do it once here and let
        # the workers inherit it (never after a crash, error or time-out).
        if ok and getattr(f, 'preload', False):
            try:
                f()
            except BaseException:
                pass


def run_property(pid, subs, tier, seedval, scratch, jobs=8, budget=None, only=None):
    """Fork one worker per (sub-check, part), at most ``jobs`` at a time."""
    if budget is None:
        budget = 260.0 if tier == 'quick' else 3000.0
    stall = 240.0 if tier == 'quick' else 900.0
    tasks = []
    for s in subs:
        if only and s.name not in only:
            continue
        for p in range(s.parts):
            tasks.append((s, p))
    running = {}
    results = []
    t_start = time.time()
    while tasks or running:
        while tasks and len(running) < jobs:
            s, p = tasks.pop(0)
            tag = f'{s.name}.{p}'
            wdir = os.path.join(scratch, 'w', tag)
            os.makedirs(wdir, exist_ok=True)
            cur, out = os.path.join(wdir, 'cur'), os.path.join(wdir, 'out.json')
            sys.stdout.flush(); sys.stderr.flush()
            left = max(20.0, (budget if tier == 'thorough' else 420.0 - (time.time() - t_start)))
            b = min(budget, left)
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    os.setsid()
                    dn = os.open(os.path.join(wdir, 'log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(dn, 1); os.dup2(dn, 2)
                    sd = os.path.join(wdir, 'scratch')
                    os.makedirs(sd, exist_ok=True)
                    os.chdir(sd)
                    _worker(s, p, seedval, tier, b, cur, out, sd)
                finally:
                    os._exit(3)
            running[pid_] = (s, p, cur, out, time.time())
        done, status = os.waitpid(-1, os.WNOHANG)
        if done == 0:
            now = time.time()
            for k, (s, p, cur, out, st) in list(running.items()):
                t, case = read_cur(cur)
                if t is not None and now - t > stall:
                    os.kill(k, signal.SIGKILL)
                    os.waitpid(k, 0)
                    del running[k]
                    results.append(dict(sub=s.name, part=p, status='violation', case=case,
                                        message=f'no result after {stall:.0f} s on one case (hang)',
                                        traceback='', evaluations=0, distinct=0, labels={},
                                        samples=[], known=[], skipped=0, exhausted=False, wall_s=now - st))
            time.sleep(0.02)
            continue
        if done not in running:
            continue
        s, p, cur, out, st = running.pop(done)
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            t, case = read_cur(cur)
            base = dict(sub=s.name, part=p, evaluations=0, distinct=0, labels={}, samples=[],
                        known=[], skipped=0, exhausted=False, wall_s=time.time() - st)
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            if sig and sig != signal.SIGKILL and case is not None:
                base.update(status='violation', case=case, traceback='',
                            message=f'process died with signal {sig} on this case')
            else:
                base.update(status='error', error=f'worker ended with status {status}')
            results.append(base)
    return results
