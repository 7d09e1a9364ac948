"""Monitor, case runner, evidence writer.

A property module (vp/props/cNN.py) provides

  cases(rng, tier)  -> list of JSON-serializable dicts (one execution each)
  run(case, mon)    -> executes the real code and reports to the monitor
  RULE, ASSUMPTIONS, ORACLES (names of oracles that must have fired)

Outcomes: a failed oracle or an exception raised by the code under test on an
input the property declares valid is a violation (exit 1).  An exception of
the harness itself, an oracle that never fired or a lost worker is an error of
the check (exit 2): never reported as a violation, never as success.
"""
import collections
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:20].tolist())}
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    return repr(x)[:300]


class Monitor:
    """Collects what the oracles observed during one case."""

    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.events = collections.Counter()
        self.states = set()
        self.worst = {}
        self.violations = []
        self.notes = []

    # -- observations --------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        """A distinct, non-trivial situation that was actually observed."""
        self.states.add(repr(key))

    # -- oracles -------------------------------------------------------------
    def check(self, oracle, ok, **detail):
        self.events[oracle] += 1
        if not bool(ok):
            self.violations.append(dict(oracle=oracle, detail=jsonable(detail)))
        return bool(ok)

    def close(self, oracle, got, want, rtol=1e-9, atol=0., scale=None, **detail):
        """|got-want| <= atol + rtol*scale (scale: max |want| by default)."""
        self.events[oracle] += 1
        try:
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.violations.append(dict(oracle=oracle, detail=jsonable(dict(error=repr(e), got=got, want=want, **detail))))
            return False
        if got.shape != want.shape:
            try:
                np.broadcast_shapes(got.shape, want.shape)
                bad_shape = got.size != want.size and got.ndim > 0 and want.ndim > 0
            except ValueError:
                bad_shape = True
            if bad_shape:
                self.violations.append(dict(oracle=oracle, detail=jsonable(dict(
                    shape_got=got.shape, shape_want=want.shape, **detail))))
                return False
            if got.size == want.size and got.ndim and want.ndim:
                got, want = got.ravel(), want.ravel()
        if want.size == 0:
            return True
        s = np.max(np.abs(want)) if scale is None else scale
        err = np.abs(got - want)
        tol = atol + rtol * s
        m = np.max(err) if np.all(np.isfinite(got)) else np.inf
        if np.isfinite(m) and np.max(tol) > 0:
            r = float(np.max(err / tol)) if np.all(np.asarray(tol) > 0) else float(m / np.max(tol))
            self.worst[oracle] = max(self.worst.get(oracle, 0.), r)
        if not np.all(np.isfinite(got)) or np.any(err > tol):
            self.violations.append(dict(oracle=oracle, detail=jsonable(dict(
                got=got, want=want, max_err=float(m) if np.isfinite(m) else 'non-finite', tol=tol, **detail))))
            return False
        return True

    def raises(self, oracle, fn, exc=Exception, **detail):
        """fn() must refuse its input with an exception."""
        self.events[oracle] += 1
        try:
            fn()
        except exc:
            return True
        self.violations.append(dict(oracle=oracle, detail=jsonable(dict(error='accepted', **detail))))
        return False

    def accepts(self, oracle, fn, **detail):
        self.events[oracle] += 1
        try:
            return fn()
        except Exception as e:      # noqa: BLE001
            self.violations.append(dict(oracle=oracle, detail=jsonable(dict(
                error='refused', exception=repr(e), **detail))))
            return None


def rng_of(*key):
    return np.random.default_rng(zlib.crc32(repr(key).encode()))


def _alarm(signum, frame):
    raise CaseTimeout()


def in_repo(tb, repo):
    """Is the exception's innermost user frame inside the code under test?"""
    frames = traceback.extract_tb(tb)
    root = os.path.join(os.path.realpath(repo), 'pygfunction') + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in frames)


_MOD = None
_REPO = None


def _run_one(args):
    prop, idx, case, limit = args
    mon = Monitor(prop, case)
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.perf_counter()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                _MOD.run(case, mon)
    except CaseTimeout:
        mon.violations.append(dict(oracle='terminates', detail=dict(error=f'no result within {limit} s')))
    except Exception as e:          # noqa: BLE001
        tb = e.__traceback__
        text = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
        if isinstance(e, HarnessError) or not in_repo(tb, _REPO):
            err = text
        else:
            mon.violations.append(dict(oracle='no-exception-on-valid-input',
                                       detail=dict(error=repr(e)[:500], traceback=text)))
    finally:
        signal.alarm(0)
        try:
            import sys as _s
            plt = _s.modules.get('matplotlib.pyplot')
            if plt is not None:
                plt.close('all')
        except Exception:           # noqa: BLE001
            pass
    return dict(idx=idx, events=dict(mon.events), states=sorted(mon.states), worst=mon.worst,
                violations=mon.violations[:20], nviol=len(mon.violations), err=err,
                notes=mon.notes[:5], t=time.perf_counter() - t0)


QUICK_ROUNDS = dict(C01=5, C02=5, C03=6, C04=3, C05=8, C06=3, C07=3, C08=3, C09=2, C11=3, C12=3, C13=2, C14=10, C15=10, C16=10,
                    C17=8, C18=7, C19=7, C21=10, C22=10, C23=2, C24=5, C26=10, C27=12, C28=2, C29=4, C30=3, C31=10, C32=3, C33=3, C34=5)


def load_known(here, prop):
    known = []
    path = os.path.join(here, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                d = json.loads(line[len('known: '):])
                if d['property'] == prop:
                    known.append(d)
    return known


def match_known(known, case, viol):
    for d in known:
        if viol['oracle'] == d['oracle'] and all(case.get(k) == v for k, v in d['case'].items()):
            return d
    return None


def main(argv, repo, here):
    global _MOD, _REPO
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', help='run only cases of this kind')
    ap.add_argument('--profile', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    prop = a.property.upper()
    _REPO = repo
    t0 = time.time()
    try:
        import pygfunction
        if not os.path.realpath(pygfunction.__file__).startswith(os.path.realpath(repo) + os.sep):
            raise HarnessError(f'pygfunction imported from {pygfunction.__file__}')
        _MOD = importlib.import_module('vp.props.' + prop.lower())
    except Exception as e:          # noqa: BLE001
        traceback.print_exc()
        if in_repo(e.__traceback__, repo) and not isinstance(e, HarnessError):
            print('ERROR: the code under test does not import')
        return 2
    if a.replay:
        rec = json.load(open(a.replay))
        cases = [rec['case']]
    else:
        # cheap checks repeat their case list with fresh random draws
        rounds = int(os.environ.get('VP_ROUNDS') or (QUICK_ROUNDS.get(prop, 1) if a.tier == 'quick' else 1))
        cases = list(_MOD.cases(rng_of(prop, a.seed, a.tier), a.tier))
        for k in range(1, rounds):
            cases += _MOD.cases(rng_of(prop, a.seed, a.tier + str(k)), a.tier)
        if a.only:
            cases = [c for c in cases if c.get('kind') == a.only]
        for k, c in enumerate(cases):
            c.setdefault('seed', int(zlib.crc32(repr((prop, a.seed, a.tier, k)).encode())))
    limit = int(getattr(_MOD, 'CASE_LIMIT', 300))
    work = [(prop, i, c, limit) for i, c in enumerate(cases)]
    results = []
    if a.jobs <= 1 or len(work) == 1:
        results = [_run_one(w) for w in work]
    else:
        ctx = mp.get_context('fork')
        from concurrent.futures import ProcessPoolExecutor, as_completed
        # longest first where the module says so
        cost = getattr(_MOD, 'cost', None)
        if cost:
            work.sort(key=lambda w: -cost(w[2]))
        try:
            with ProcessPoolExecutor(min(a.jobs, len(work)), mp_context=ctx) as ex:
                futs = [ex.submit(_run_one, w) for w in work]
                for f in as_completed(futs):
                    results.append(f.result())
        except Exception:           # noqa: BLE001  (a worker died)
            traceback.print_exc()
            print(f'ERROR: property={prop} a worker was lost')
            return 2
    results.sort(key=lambda r: r['idx'])
    events, states, worst = collections.Counter(), set(), {}
    viols, errs, knowns = [], [], collections.OrderedDict()
    known = load_known(here, prop)
    for r in results:
        events.update(r['events'])
        states.update(r['states'])
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0.), v)
        if r['err']:
            errs.append((cases[r['idx']], r['err']))
        for v in r['violations']:
            d = match_known(known, cases[r['idx']], v)
            if d:
                knowns[d['what']] = d
            else:
                viols.append((cases[r['idx']], v))
    wall = time.time() - t0
    rc = 0
    os.makedirs(os.path.join(here, 'evidence', 'replay'), exist_ok=True)
    for d in knowns.values():
        print(f'KNOWN-FINDING: property={prop} {d["what"]}')
    if viols:
        rc = 1
        seen = collections.Counter()
        n = 0
        for case, v in viols:
            seen[v['oracle']] += 1
            if seen[v['oracle']] > 2 or n >= 8:
                continue
            rel = os.path.join('evidence', 'replay', f'{prop}-{n}.json')
            with open(os.path.join(here, rel), 'w') as f:
                json.dump(dict(property=prop, case=jsonable_case(case), violation=v), f, indent=1)
            print(f'VIOLATION property={prop} replay={rel}')
            print(f'  oracle={v["oracle"]} case={json.dumps(jsonable_case(case))[:300]}')
            print(f'  detail={json.dumps(v["detail"])[:900]}')
            n += 1
        print(f'  {len(viols)} violations by oracle: {dict(seen)}')
        if a.profile:
            print('  ', collections.Counter((c.get('kind'), c.get('field'), c.get('bc'), v['oracle']) for c, v in viols))
    missing = [o for o in getattr(_MOD, 'ORACLES', []) if not events.get(o)] if not (a.replay or a.only) else []
    if errs and rc == 0:
        rc = 2
    for case, e in errs[:3]:
        print(f'ERROR property={prop}: harness failure in case {json.dumps(jsonable_case(case))[:300]}\n{e}')
    if missing and rc == 0:
        rc = 2
        print(f'ERROR property={prop}: oracles that never fired: {missing}')
    pick = np.linspace(0, len(cases) - 1, min(4, len(cases))).astype(int) if cases else []
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level='exploration',
              coverage=dict(
                  evaluations=len(results),
                  distinct_nontrivial=len(states),
                  rule=_MOD.RULE,
                  samples=[jsonable_case(cases[i]) for i in pick],
                  oracle_events=dict(sorted(events.items())),
                  state_samples=sorted(states)[:: max(1, len(states) // 12)][:12],
                  closest_to_tolerance={k: round(v, 6) for k, v in sorted(worst.items())},
                  case_kinds=dict(collections.Counter(c.get('kind', '') for c in cases)),
                  harness_errors=len(errs)),
              assumptions=list(getattr(_MOD, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(viols))
    if not (a.replay or a.only):
        with open(os.path.join(here, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    if a.profile:
        for r in sorted(results, key=lambda r: -r['t'])[:8]:
            print(f'  slow {r["t"]:.2f}s {json.dumps(jsonable_case(cases[r["idx"]]))[:200]}')
        print('  worst', {k: round(v, 4) for k, v in sorted(worst.items())})
    print(f'{prop} {a.tier} seed={a.seed}: {len(results)} executions, {sum(events.values())} oracle events, '
          f'{len(states)} distinct states, {len(viols)} violations, {len(errs)} harness errors, {wall:.1f} s')
    return rc


def jsonable_case(c):
    return json.loads(json.dumps(c, default=lambda o: o.tolist() if hasattr(o, 'tolist') else repr(o)))
