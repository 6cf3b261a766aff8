"""Check harness: case generation, parallel execution, verdicts, evidence.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS(optional), REQUIRE(dict counter->min)
    cases(tier, seed)      -> list of JSON-able case dicts (each has its own 'seed')
    evaluate(case, mon)    -> runs the real code, feeds the Monitor

The verdict is three valued: violation (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: a monitor that must fire never did).
"""
import argparse
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import cover

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPLAYS = os.path.join(ROOT, 'replays')


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    """a case exceeded its (generous, > 20 x normal) wall clock watchdog."""


def _alarm(*_):
    raise CaseTimeout()


class Monitor:
    """Collects what was observed in one case."""

    def __init__(self):
        self.counts = {}
        self.states = set()
        self.problems = []
        self.known = {}
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        """a distinct situation reached (coverage of the input space)."""
        self.states.add('|'.join(str(k) for k in key))

    def fail(self, rule, msg, **ctx):
        if len(self.problems) < 20:
            self.problems.append({'rule': rule, 'msg': msg, 'ctx': jsonable(ctx)})

    def finding(self, key, msg):
        """a deviation whose mechanism is listed in known_findings.txt."""
        self.known.setdefault(key, msg)

    def check(self, rule, ok, msg='', **ctx):
        self.count('evaluated:' + rule)
        if not bool(ok):
            self.fail(rule, msg, **ctx)
        return bool(ok)

    def close(self, rule, got, want, rtol=1e-9, atol=0.0, **ctx):
        """numerical agreement with the oracle (NaN agrees with NaN only)."""
        self.count('evaluated:' + rule)
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            try:
                got, want = np.broadcast_arrays(got, want) if got.size == want.size == 1 else (got, want)
            except ValueError:
                pass
            if got.shape != want.shape:
                self.fail(rule, 'shape %s, expected %s' % (got.shape, want.shape), **ctx)
                return False
        self.count('compared:' + rule, got.size)
        with np.errstate(all='ignore'):
            tol = np.asarray(atol) + rtol * np.abs(want)
            bad = ~((np.abs(got - want) <= tol) | (got == want) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            i = tuple(int(k[0]) for k in np.nonzero(bad)) if bad.ndim else ()
            self.fail(rule, 'value %r, expected %r at %s (%d of %d differ)' %
                      (float(got[i]), float(want[i]), list(i), int(bad.sum()), bad.size), **ctx)
            return False
        return True

    def identical(self, rule, got, want, **ctx):
        """bit identical arrays."""
        self.count('evaluated:' + rule)
        got, want = np.asarray(got), np.asarray(want)
        ok = got.shape == want.shape and got.dtype == want.dtype and \
            (np.array_equal(got, want, equal_nan=True) if got.dtype.kind in 'fc' else np.array_equal(got, want))
        if not ok:
            self.fail(rule, 'not identical', **ctx)
        return ok


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if math.isfinite(f) else repr(f)
    if isinstance(o, (np.integer, int)) and not isinstance(o, bool):
        return int(o)
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if o is None or isinstance(o, str):
        return o
    return repr(o)


def subseed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


_MOD = None


def _init(modname):
    global _MOD
    _MOD = importlib.import_module(modname)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    sys.stderr = devnull


def run_case(mod, case):
    mon = Monitor()
    t0 = time.time()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(os.environ.get('VERIF_CASE_LIMIT', '150')))
    try:
        with np.errstate(all='ignore'):
            mod.evaluate(case, mon)
    except CaseTimeout:
        mon.fail('no-hang', 'did not finish within the watchdog')
    except (Exception, SystemExit) as exc:  # noqa: B014   # a crash of the code under test on a valid input
        err = traceback.format_exc()
        mon.fail('no-crash', '%s: %s' % (type(exc).__name__, str(exc)[:300]), trace=err[-3000:])
    finally:
        signal.alarm(0)
    return dict(case=case, counts=mon.counts, states=sorted(mon.states), problems=mon.problems, lines=cover.take(),
                known=mon.known, sample=mon.sample, secs=time.time() - t0)


def _work(case):
    return run_case(_MOD, case)


def covered(lines):
    by = {}
    for x in lines:
        f, _, n = x.rpartition(':')
        by.setdefault(f, set()).add(int(n))
    return {f: '%d of %d' % (len(v & e), len(e)) for f, v in sorted(by.items()) for e in [cover.executable(f)] if v & e}


def load_known(pid):
    """lines `known: property=<id> key=<mechanism> <what fails>` / `fixed: ...`."""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                key, _, what = rest.partition(' ')
                out[key.replace('key=', '')] = what
    return out


def write_replay(pid, case, problems):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps({'property': pid, 'case': jsonable(case), 'problems': jsonable(problems)}, indent=1)
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, 'w') as fh:
        fh.write(body)
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid)
    known = load_known(pid)

    if a.replay:
        r = run_case(mod, json.load(open(a.replay))['case'])
        print(json.dumps(jsonable({'problems': r['problems'], 'known': r['known'], 'counts': r['counts']}), indent=1))
        return 1 if r['problems'] else 0

    cases = list(mod.cases(a.tier, a.seed))
    # a fixed shuffle: if time runs out, what was left out is a random part of every kind of case
    np.random.default_rng(20240607).shuffle(cases)
    limit = float(os.environ.get('VERIF_DEADLINE', 480 if a.tier == 'quick' else 3000))
    most = int(os.environ.get('VERIF_MAXVIOL', '5'))
    counts, states, samples, problems, found = {}, set(), [], [], {}
    lines = set()
    cover.start()
    done = nontrivial = 0
    seen = set()
    slow = []
    if a.jobs <= 1 or len(cases) <= 1 or getattr(mod, 'SERIAL', False):
        it = (run_case(mod, c) for c in cases)
        pool = None
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(a.jobs, initializer=_init, initargs=('checks.' + pid,))
        it = pool.imap_unordered(_work, cases, chunksize=max(1, min(8, len(cases) // (a.jobs * 8))))
    out = sys.stdout
    if pool is None:
        sys.stdout = open(os.devnull, 'w')
    try:
        for r in it:
            done += 1
            slow.append((r['secs'], r['case']))
            for k, v in r['counts'].items():
                counts[k] = counts.get(k, 0) + v
            states.update(r['states'])
            lines.update(r['lines'])
            sig = json.dumps(jsonable(r['case']), sort_keys=True)
            if sig not in seen:
                seen.add(sig)
                if any(k.startswith('evaluated:') for k in r['counts']):
                    nontrivial += 1
            if r['sample'] is not None and len(samples) < 4:
                samples.append({'case': r['case'], 'observed': r['sample']})
            for k, msg in r['known'].items():
                if k in known:
                    found.setdefault(k, msg)
                else:
                    r['problems'].append({'rule': 'unlisted:' + k, 'msg': msg, 'ctx': {}})
            if r['problems']:
                problems.append(r)
                if len(problems) >= most:
                    break
            if time.time() - t0 > limit:
                break
    finally:
        sys.stdout = out
        if pool is not None:
            pool.terminate()
            pool.join()

    wall = time.time() - t0
    evaluated = {k[10:]: v for k, v in counts.items() if k.startswith('evaluated:')}
    compared = {k[9:]: v for k, v in counts.items() if k.startswith('compared:')}
    other = {k: v for k, v in counts.items() if not k.startswith(('evaluated:', 'compared:'))}
    if not samples:
        samples = [{'case': c} for c in cases[:3]]
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=done, distinct_nontrivial=nontrivial,
                            rule=mod.RULE, samples=jsonable(samples), cases_planned=len(cases),
                            monitor_evaluations=evaluated, values_compared=compared, events=other,
                            library_lines_executed=covered(lines),
                            distinct_states=len(states), states_sample=sorted(states)[:60],
                            known_findings_seen=sorted(found)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(problems))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))

    for k, msg in sorted(found.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, known[k]))
    print('%s tier=%s seed=%d: %d/%d cases, %d monitor evaluations, %d values compared, %d states, %.1f s' %
          (pid, a.tier, a.seed, done, len(cases), sum(evaluated.values()), sum(compared.values()), len(states), wall))
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'a') as fh:
            fh.write('\n'.join(sorted(lines)) + '\n')
    if a.verbose:
        slow.sort(key=lambda x: -x[0])
        print('slowest:', [(round(s, 2), c) for s, c in slow[:3]])
        print(json.dumps({'evaluated': evaluated, 'events': other}, indent=1))
        print('\n'.join(sorted(states)[:200]))
    if problems:
        for r in problems:
            path = write_replay(pid, r['case'], r['problems'])
            for q in r['problems'][:3]:
                print('  [%s] %s' % (q['rule'], q['msg']))
                if a.verbose and 'trace' in q['ctx']:
                    print(q['ctx']['trace'])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    part = 1. if done >= len(cases) else .7 * done / len(cases)
    missing = {k: v for k, v in ((k, v * part) for k, v in getattr(mod, 'REQUIRE', {}).items())
               if counts.get(k, 0) < v and counts.get('evaluated:' + k, 0) < v}
    if missing or not evaluated or nontrivial == 0:
        print('INCONCLUSIVE property=%s monitors not reached: %s' % (pid, missing))
        return 2
    return 0
