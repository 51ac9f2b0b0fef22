"""Exploration driver shared by all checks.

A check module provides

    PROPERTY   id
    RULE       text: what is enumerated, what is compared
    BOUNDS     dict tier -> dict of bounds (reported in the evidence)
    generate(b)            yields JSON-able cases (finite, deterministic order)
    run_case(case, cov)    executes one case on the real implementation, compares
                           every step with the reference; raises Violation

and `main` enumerates every case (split over processes), writes the evidence and
the replay artefact of the smallest violating case.
"""
import argparse
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The implementation departs from the reference. key: identifies the failing
    input/site (matched against the known findings)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Coverage:
    """Counters measured during exploration."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.known = {}

    def state(self, *key):
        self.states.add(
            int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")
        )

    def seen(self, *key):
        """Record a state; return whether it was new."""
        h = int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.known.items():
            self.known.setdefault(k, v)


def load_known(prop):
    """Keys of the recorded (unrepaired) findings of a property."""
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == prop}


CASE_LIMIT = 150  # seconds; a case takes milliseconds unless the code does not terminate


def _on_alarm(signum, frame):
    raise Violation("does not terminate within %d s" % CASE_LIMIT)


def guarded(mod, case, cov, known):
    """Run one case. Returns (kind, text) or None."""
    from . import drive

    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT)
    drive.start_case(zlib.crc32(json.dumps(case).encode()))
    try:
        mod.run_case(case, cov)
    except Violation as e:
        if e.key is not None and e.key in known:
            cov.known.setdefault(e.key, str(e))
            return None
        return str(e)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # an unexpected exception is a departure as well
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno or 0) for f in reversed(tb[-4:])
        )
        return "unexpected %s: %s (%s)" % (type(e).__name__, e, where)
    finally:
        signal.alarm(0)
        try:
            reset_globals()
        except Exception:
            pass
    cov.traces += 1
    return None


def reset_globals():
    """Every case starts from a world in which no circuit is open.

    Uses the public protocol only: leave the active context, if any."""
    from . import env

    env.Randomness.hook = None
    circ = sys.modules.get("dwave.gate.circuit")
    if circ is None:
        return
    for _ in range(8):
        ctx = circ.CircuitContext.active_context
        if ctx is None:
            break
        try:
            ctx.__exit__(None, None, None)
        except Exception:
            break


def _worker(args):
    mod, bounds, idx, n, deadline, known, at, best = args
    cov = Coverage()
    out = []
    count = 0
    capped = False
    last = None
    for i, case in enumerate(mod.generate(bounds)):
        if i % n != idx:
            continue
        if i > best.value:  # an earlier case fails already
            break
        if time.time() > deadline:
            capped = True
            break
        count += 1
        last = case
        at.value = i
        err = guarded(mod, case, cov, known)
        if err is not None:
            out.append((i, case, err))
            with best.get_lock():
                best.value = min(best.value, i)
            break
    return cov, out, count, capped, last


def explore(mod, tier, jobs, deadline):
    bounds = dict(mod.BOUNDS[tier])
    known = load_known(mod.PROPERTY)
    cov = Coverage()
    results = run_workers(mod, bounds, jobs, deadline, known)
    viol, count, capped, samples = [], 0, False, []
    for c, out, n, cap, last in results:
        cov.merge(c)
        viol.extend(out)
        count += n
        capped |= cap
        if last is not None:
            samples.append(last)
    viol.sort(key=lambda v: v[0])
    return cov, viol, count, capped, samples


def run_workers(mod, bounds, n, deadline, known):
    """Split the cases over n processes. A process that dies (a crash of native code, say)
    is a violation of the case it was running."""
    ctx = multiprocessing.get_context("fork")
    best = ctx.Value("q", 1 << 60)
    procs = []
    for i in range(n):
        at = ctx.Value("q", -1, lock=False)
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(w, mod, bounds, i, n, deadline, known, at, best))
        p.start()
        w.close()
        procs.append((p, r, at))
    results = []
    for k, (p, r, at) in enumerate(procs):
        try:
            results.append(r.recv())
        except EOFError:
            p.join()
            if p.exitcode == -9:  # memory ran out, most likely: once more, on its own
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(w, mod, bounds, k, n, deadline, known, at, best))
                p.start()
                w.close()
                try:
                    results.append(r.recv())
                    p.join()
                    continue
                except EOFError:
                    p.join()
                    if p.exitcode == -9:
                        sys.stderr.write("a worker was killed twice\n")
                        os._exit(3)
            i = at.value
            case = next(itertools.islice(mod.generate(bounds), i, None)) if i >= 0 else None
            msg = "the process running this case died with exit code %s" % p.exitcode
            results.append((Coverage(), [(i, case, msg)], max(i // n, 0), False, case))
        p.join()
    return results


def _child(w, mod, bounds, i, n, deadline, known, at, best):
    w.send(_worker((mod, bounds, i, n, deadline, known, at, best)))
    w.close()


def main(mod, argv=None):
    from . import env

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    how = env.setup()
    broken = None
    if hasattr(mod, "prepare"):
        try:
            mod.prepare()
        except Exception as e:
            traceback.print_exc()
            broken = "unexpected %s: %s, while setting up the exploration" % (type(e).__name__, e)

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        errs = [guarded(mod, rec["case"], Coverage(), {}) for _ in range(2)]
        print("replay of %s: %s" % (json.dumps(rec["case"]), errs[0] or "no violation"))
        if errs[0] != errs[1]:
            print("second replay differs: %s" % errs[1])
        return 1 if errs[0] else 0

    budget = a.budget or (600 if tier == "quick" else 840)
    if broken is None:
        cov, viol, count, capped, samples = explore(mod, tier, a.jobs, t0 + budget)
    else:
        cov, viol, count, capped, samples = Coverage(), [(-1, None, broken)], 0, False, []
    bounds = dict(mod.BOUNDS[tier])

    ev = dict(
        property=mod.PROPERTY,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=dict(
            states=len(cov.states),
            transitions=cov.transitions,
            traces_validated_against_impl=cov.traces,
            evaluations=count,
            samples=[describe(mod, s) for s in samples[:4]],
            rule=mod.RULE,
            bounds={k: repr(v) for k, v in bounds.items()},
            outcomes=dict(sorted(cov.outcomes.items())[:60]),
            exhaustive=not capped and not viol,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [how],
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.PROPERTY + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in sorted(cov.known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (mod.PROPERTY, key, what))
    print(
        "%s tier=%s cases=%d states=%d transitions=%d traces=%d%s wall=%.1fs"
        % (mod.PROPERTY, tier, count, len(cov.states), cov.transitions, cov.traces,
           " CAPPED" if capped else "", time.time() - t0)
    )
    # distinct observed outcomes guard against a vacuous exploration
    need = getattr(mod, "EXPECT_OUTCOMES", ())
    missing = [o for o in need if o not in cov.outcomes]
    if missing and not viol and not capped:
        print("vacuous exploration, never observed: %s" % missing)
        return 3
    if viol:
        i, case, err = viol[0]
        # re-run in this process: the same case must fail every time
        again = None
        if case is not None and "process running this case died" not in err:
            again = guarded(mod, case, Coverage(), load_known(mod.PROPERTY))
        if again is None:
            print("case %d failed in a worker but not when run again" % i)
            case_note = "only failed after the preceding cases of its worker"
        else:
            case_note = "fails on its own"
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", mod.PROPERTY + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=mod.PROPERTY, case=case, error=err, note=case_note,
                           run="/opt/venv/bin/python /verif/check.py %s --replay %s" % (mod.PROPERTY, path)),
                      f, indent=1)
        print("violating case: %s" % json.dumps(case))
        print("error: %s" % (err if len(err) < 1500 else err[:1500] + " ..."))
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    return 0


def describe(mod, case):
    d = getattr(mod, "describe", None)
    return d(case) if d else case
