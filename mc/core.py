"""Bounded-exhaustive explorer.

A *check* (``mc/checks/pNN.py``) provides

* ``TITLE``            one line about what is decided;
* ``ASSUMPTIONS``      list of strings copied in the evidence;
* ``tasks(tier)``      yields ``(harness_name, config)`` pairs, config being a
                       JSON-able dict: the enumerated configurations;
* ``HARNESSES``        dict name -> ``fn(config, ch)``.

A harness drives the *real* code of /repo.  Whenever several things can happen
next (which operation the user calls, what the environment answers, ...) it asks
``ch.choose(label, options)``.  The engine re-executes the harness from scratch
for every sequence of answers (stateless model checking, depth first), so every
behaviour of the bounded space is executed exactly once.  Nothing is sampled.

``ch.op()`` counts one transition of the implementation, ``ch.state(obj)``
records a state of the reference model reached by the implementation, and
``ch.check(cond, msg)`` is the monitor: a false condition is a violation.
"""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
REPO = "/repo"
TASK_TIMEOUT_S = 150  # processor time of one execution, so that a busy machine does not matter
DEADLINE_S = dict(quick=800, thorough=7200)
MAX_REPORTED = 5


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or msg.split(":")[0]


class _Timeout(BaseException):
    pass


class _Prune(Exception):
    pass


def canon(obj):
    """Canonical, hashable-by-json representation of a model state."""
    if isinstance(obj, dict):
        return {str(k): canon(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [canon(v) for v in obj]
    if isinstance(obj, (str, int, bool)) or obj is None:
        return obj
    if isinstance(obj, float):
        return f"{obj:.6g}"
    if hasattr(obj, "detach"):
        obj = obj.detach().cpu().numpy()
    if hasattr(obj, "tolist"):
        return canon(obj.tolist())
    return repr(obj)


def digest(obj):
    s = json.dumps(canon(obj), sort_keys=True)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


class Chooser:
    """One execution: follows `prefix`, then takes first alternatives."""

    def __init__(self, prefix=(), root=None):
        self.prefix = list(prefix)
        self.trace = []          # (label, index, n_options)
        self.states = set()
        self.transitions = 0
        self.checks = 0
        self.root = root
        self.outcomes = set()

    def choose(self, label, options):
        options = list(options)
        k = len(self.trace)
        i = self.prefix[k] if k < len(self.prefix) else 0
        if i >= len(options):
            raise RuntimeError(f"nondeterministic harness at choice {label!r}")
        self.trace.append((label, i, len(options)))
        self.transitions += 1
        return options[i]

    def op(self, n=1):
        self.transitions += n

    def state(self, *obj):
        self.states.add(digest([self.root, obj]))

    def outcome(self, obj):
        self.outcomes.add(str(obj))

    def prune(self):
        raise _Prune()

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        self.checks += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, sig)

    # numeric monitors -----------------------------------------------------
    def close(self, got, want, what, rtol=1e-5, atol=1e-6, sig=None):
        """Same shape, same non-finite pattern and close values."""
        import numpy as np
        self.checks += 1
        g = _np(got)
        w = _np(want)
        if g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape} instead of {w.shape}", sig)
        g = g.astype(float)
        w = w.astype(float)
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            raise Violation(
                f"{what}: got {np.array2string(g.ravel()[:8], precision=8)} "
                f"instead of {np.array2string(w.ravel()[:8], precision=8)}", sig)

    def raises(self, exc, fn, what, sig=None):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:  # noqa
            raise Violation(f"{what}: raised {type(e).__name__}({e}) instead of "
                            f"{getattr(exc, '__name__', exc)}", sig)
        raise Violation(f"{what}: returned {r!r} instead of raising "
                        f"{getattr(exc, '__name__', exc)}", sig)


def _np(x):
    import numpy as np
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


def next_prefix(trace):
    t = [(i, n) for (_, i, n) in trace]
    while t:
        i, n = t[-1]
        if i + 1 < n:
            return [x for x, _ in t[:-1]] + [i + 1]
        t.pop()
    return None


def run_one(fn, cfg, prefix, root):
    import torch
    torch.set_grad_enabled(True)      # whatever a failed execution left behind
    torch.set_default_dtype(torch.float32)
    ch = Chooser(prefix, root)
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(cfg, ch)
    except _Prune:
        pass
    except Violation as v:
        err = (v.sig, str(v))
    except _Timeout:
        err = ("timeout", f"no answer after {TASK_TIMEOUT_S} s of computation")
    except RecursionError as e:
        err = ("RecursionError", str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in reversed(tb):
            if fr.filename.startswith(REPO + "/"):
                where = f" at {os.path.relpath(fr.filename, REPO)}:{fr.name}"
                break
        last = tb[-1]
        err = (f"uncaught {type(e).__name__}{where}",
               f"uncaught {type(e).__name__}: {e}{where} "
               f"[{os.path.basename(last.filename)}:{last.lineno}]")
    return ch, err


def _alarm(signum, frame):
    raise _Timeout()


def explore(fn, hname, cfg, max_viol=2):
    """All executions of one configuration."""
    root = digest([hname, cfg])
    res = dict(execs=0, transitions=0, states=set(), checks=0, viol=[],
               outcomes=set(), sample=None, depth=0)
    prefix = []
    signal.signal(signal.SIGPROF, _alarm)
    try:
        while prefix is not None:
            signal.setitimer(signal.ITIMER_PROF, TASK_TIMEOUT_S)
            ch, err = run_one(fn, cfg, prefix, root)
            res["execs"] += 1
            res["transitions"] += ch.transitions
            res["states"] |= ch.states
            res["states"].add(root)
            res["outcomes"] |= ch.outcomes
            res["checks"] += ch.checks
            res["depth"] = max(res["depth"], len(ch.trace))
            if res["sample"] is None:
                res["sample"] = dict(
                    harness=hname, config=cfg,
                    choices=[f"{l}={i}/{n}" for l, i, n in ch.trace][:40])
            if err:
                res["viol"].append(dict(
                    harness=hname, config=cfg,
                    choices=[i for _, i, _ in ch.trace],
                    labels=[l for l, _, _ in ch.trace],
                    sig=err[0], msg=err[1]))
                if len(res["viol"]) >= max_viol or err[0] == "timeout":
                    break
            prefix = next_prefix(ch.trace)
    except _Timeout:
        res["viol"].append(dict(harness=hname, config=cfg, choices=prefix or [],
                                labels=[], sig="timeout",
                                msg=f"no answer after {TASK_TIMEOUT_S} s of computation"))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return res


# --------------------------------------------------------------------------
def load_target():
    """Import /repo's working tree (never a cached or installed copy)."""
    import torch
    torch.set_num_threads(1)
    import numpy  # noqa
    import scipy.optimize, scipy.stats  # noqa
    import sklearn.linear_model, sklearn.utils  # noqa
    import cvxpy  # noqa
    sys.dont_write_bytecode = True
    # stale byte code next to the sources must never be used
    sys.pycache_prefix = "/nonexistent-pycache"
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import skwdro
    f = os.path.abspath(skwdro.__file__)
    assert f.startswith(REPO + "/"), f"skwdro imported from {f}"


_MOD = None


def _work(chunk):
    out = dict(execs=0, transitions=0, states=set(), checks=0, viol=[],
               outcomes=set(), samples=[], depth=0, tasks=0)
    for hname, cfg in chunk:
        r = explore(_MOD.HARNESSES[hname], hname, cfg)
        out["tasks"] += 1
        for k in ("execs", "transitions", "checks"):
            out[k] += r[k]
        out["states"] |= r["states"]
        out["outcomes"] |= r["outcomes"]
        out["depth"] = max(out["depth"], r["depth"])
        out["viol"] += r["viol"]
        if len(out["samples"]) < 2 and r["sample"]:
            out["samples"].append(r["sample"])
        if len(out["viol"]) >= 20:
            break
    out["states"] = list(out["states"])
    return out


def read_known(pid):
    """Lines 'known: property=P01 sig=<signature> || what fails'."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, what = line.partition("||")
            p = head.split("property=")[1].split()[0]
            sig = head.split("sig=", 1)[1].strip()
            if p == pid:
                out[sig] = what.strip()
    return out


def save_replay(pid, v):
    os.makedirs(REPLAYS, exist_ok=True)
    rec = dict(property=pid, **v)
    name = f"{pid}-{digest([v['harness'], v['config'], v['choices']]):016x}.json"
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def run_check(pid, tier, jobs=None):
    global _MOD
    t0 = time.time()
    load_target()
    import importlib
    _MOD = importlib.import_module(f"mc.checks.{pid.lower()}")
    tasks = list(_MOD.tasks(tier))
    seen = set()
    for h, c in tasks:
        d = digest([h, c])
        assert d not in seen, f"duplicate task {h} {c}"
        seen.add(d)
    ncpu = jobs or int(os.environ.get("VERIF_JOBS", 0)) or len(os.sched_getaffinity(0))
    nchunks = min(len(tasks), max(ncpu * 16, 1))
    chunks = [tasks[i::nchunks] for i in range(nchunks)]
    tot = dict(execs=0, transitions=0, checks=0, tasks=0, depth=0)
    states, outcomes, viol, samples = set(), set(), [], []

    def absorb(out):
        for k in ("execs", "transitions", "checks", "tasks"):
            tot[k] += out[k]
        tot["depth"] = max(tot["depth"], out["depth"])
        states.update(out["states"])
        outcomes.update(out["outcomes"])
        viol.extend(out["viol"])
        if len(samples) < 4:
            samples.extend(out["samples"][:1])

    if ncpu == 1:
        for c in chunks:
            absorb(_work(c))
    else:
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor, as_completed
        from concurrent.futures import TimeoutError as FTimeout
        pool = ProcessPoolExecutor(ncpu, mp_context=mp.get_context("fork"))
        futs = [pool.submit(_work, c) for c in chunks]
        limit = DEADLINE_S[tier] - (time.time() - t0)
        died = None
        try:
            for f in as_completed(futs, timeout=limit):
                absorb(f.result())
        except FTimeout:
            died = ("deadline", f"the exploration did not end within {DEADLINE_S[tier]} s")
        except Exception as e:
            died = ("worker died", f"an exploring process died: {type(e).__name__} {e}")
        if died:
            viol.append(dict(harness="?", config={}, choices=[], labels=[],
                             sig=died[0], msg=died[1]))
            for p in list(pool._processes.values()):
                p.kill()
        pool.shutdown(wait=not died, cancel_futures=True)
    known = read_known(pid)
    new = {}
    hit = {}
    for v in viol:
        (hit if v["sig"] in known else new).setdefault(v["sig"], v)
    exhausted = tot["tasks"] == len(tasks) and not new
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="model_checking",
        coverage=dict(
            states=len(states), transitions=tot["transitions"],
            traces_validated_against_impl=tot["execs"],
            configurations=tot["tasks"], monitor_evaluations=tot["checks"],
            distinct_outcomes=len(outcomes), outcomes=sorted(outcomes)[:30],
            max_choice_depth=tot["depth"],
            exhaustive=exhausted, samples=samples,
            method=_MOD.TITLE,
            bounds=getattr(_MOD, "BOUNDS", {}).get(tier, getattr(_MOD, "BOUNDS", {}).get("quick", "")),
            rule="every configuration of the stated product, and below it every "
                 "sequence of choices, is executed once on the code of /repo; "
                 "nothing is sampled, so VERIF_SEED has no influence",
        ),
        assumptions=getattr(_MOD, "ASSUMPTIONS", []),
        violations=len(new), wall_s=round(wall, 3))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] configurations={tot['tasks']} executions={tot['execs']} "
          f"states={len(states)} transitions={tot['transitions']} "
          f"monitors={tot['checks']} outcomes={len(outcomes)} wall={wall:.1f}s")
    for sig, v in hit.items():
        print(f"KNOWN-FINDING: property={pid} {known[sig]}")
    for n, (sig, v) in enumerate(new.items()):
        if n >= MAX_REPORTED:
            break
        path = save_replay(pid, v)
        print(f"  {v['msg']}\n    harness={v['harness']} config={json.dumps(v['config'])}"
              f" choices={v['choices']}")
        print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()
    return 1 if new else 0


def run_replay(path):
    load_target()
    import importlib
    rec = json.load(open(path))
    if rec["harness"] == "?":
        return run_check(rec["property"], "quick")
    mod = importlib.import_module(f"mc.checks.{rec['property'].lower()}")
    root = digest([rec["harness"], rec["config"]])
    ch, err = run_one(mod.HARNESSES[rec["harness"]], rec["config"], rec["choices"], root)
    for (l, i, n) in ch.trace:
        print(f"  choice {l}: {i} of {n}")
    if err:
        print(err[1])
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print(f"{rec['property']}: the execution satisfies the property")
    return 0
