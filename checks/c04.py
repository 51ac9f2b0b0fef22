"""C04: re-simulation is reproducible and independent of earlier runs."""
import itertools

import numpy as np

from mc import drive, env, ref
from mc.core import require

PROPERTY = "C04"
RULE = (
    "every sequence of the stated length, and every short word repeated the stated number of times (`many` for a single action), over {simulate pure with seeds 0,1,2 / without seed, mixed, "
    "little-endian, mixed little-endian, sample, expval, read, store a state, append a gate / measurement, add a qubit / bit to the first register, "
    "remove the last operation, reset (with or without its registers) and rebuild, reset and build something else, simulate another circuit, "
    "open / close another circuit, disturb numpy's global generator} on each circuit of a menu; after every "
    "simulation bits, state, density matrix, recorded measurement states and the measured qubits are "
    "compared with a freshly built circuit simulated once with that seed in a clean world"
)
BOUNDS = {"quick": dict(depth=4, loop=2, times=5, many=65), "thorough": dict(depth=5, loop=3, times=5, many=300)}
ASSUMPTIONS = ["conditions on bits are part of the menu; bits set by hand are not"]

M = "Measurement"
MENU = {
    "teleport": dict(q=[2, 1], c=[1, 1], ops=ref.generic(3)[:6] + [
        ["CX", [], [0, 1], None, None], ["Hadamard", [], [0], None, None],
        [M, [], [0, 1], [0, 1], None], ["X", [], [2], None, [1]], ["Z", [], [2], None, [0]]]),
    "twice": dict(q=[2], c=[2], ops=[
        ["Hadamard", [], [0], None, None], [M, [], [1, 0], [0, 1], None], ["RY", [1.0], [1], None, [1]],
        [M, [], [1], [0], None]]),
    "before": dict(q=[1, 1], c=[1, 1], ops=[
        ["X", [], [1], None, [0]], ["RX", [1.2], [0], None, None], [M, [], [0], [0], None],
        [M, [], [1], [1], None]]),
    "condm": dict(q=[1, 1], c=[1, 1], ops=[
        ["Hadamard", [], [0], None, None], [M, [], [0], [0], None], ["RY", [0.9], [1], None, None],
        [M, [], [1], [1], [0]]]),
    "nobits": dict(q=[2], c=[1], ops=[
        ["Hadamard", [], [0], None, None], ["CX", [], [0, 1], None, None], [M, [], [1], None, None],
        ["CRY", [0.8], [1, 0], None, None]]),
    "pure": dict(q=[2], c=[1], ops=ref.generic(2) + [["CRotation", [0.1, 0.5, 0.9], [1, 0], None, None]]),
}
OTHER = dict(q=[2], c=[2], ops=[["RY", [0.4], [0], None, None], ["CX", [], [0, 1], None, None],
                                [M, [], [0, 1], [1, 0], None]])
SIMS = {"s0": (0, False, False), "s1": (1, False, False), "s2": (2, False, False),
        "mixed": (0, True, False), "le": (0, False, True), "mle": (0, True, True)}
NOISE = ["s", "sample", "expval", "read", "set", "setmixed", "append", "appendM", "addq", "addb", "remove", "rebuild", "wipe", "build2",
         "other", "open", "close", "npseed"]
APP = ["RX", [0.6], [0], None, None]
APPM = [M, [], [0], [0], None]
SECOND = [["RY", [0.3], [1], None, None], [M, [], [1], [0], None]]


def plan(name, hist):
    """Model pass: the circuit simulated at every step, or None if not applicable."""
    ops = list(MENU[name]["ops"])
    q, c = list(MENU[name]["q"]), list(MENU[name]["c"])
    cond = False
    n = sum(MENU[name]["q"])
    is_open = False
    out = []
    simulated = False
    for a in hist:
        if a in SIMS:
            meas = any(o[0] == M for o in ops)
            if meas and (SIMS[a][1] or SIMS[a][2]):
                return None
            out.append(dict(q=list(q), c=list(c), ops=list(ops)))
            simulated = True
            continue
        if a == "s":
            simulated = True
        if a in ("sample", "expval") and (not simulated or not any(o[0] == M for o in ops)):
            return None
        if a in ("rebuild", "wipe", "build2") and (is_open or n < 2):
            return None
        if a in ("append", "appendM") and is_open:
            return None
        if a == "open":
            if is_open:
                return None
            is_open = True
        if a == "close":
            if not is_open:
                return None
            is_open = False
        if a in ("addq", "addb"):
            # appended to the first register: everything in other registers moves
            if is_open or hist.count(a) > 2:
                return None
            regs = q if a == "addq" else c
            s = regs[0]
            mv = lambda l: None if l is None else [i + (i >= s) for i in l]  # noqa: E731
            if a == "addq":
                ops = [[o[0], o[1], mv(o[2]), o[3], o[4]] for o in ops]
            else:
                ops = [[o[0], o[1], o[2], mv(o[3]), mv(o[4])] for o in ops]
            regs[0] += 1
        if a == "append":
            ops = ops + [APP]
        if a == "appendM":
            ops = ops + [APPM]
            simulated = False
        if a == "remove":
            if len(ops) < 2 or ops[-1][0] == M:
                return None  # the bits of a removed measurement keep their values
            ops = ops[:-1]
        if a == "rebuild":
            ops = list(MENU[name]["ops"])
            simulated = False
        if a == "wipe":
            ops = list(MENU[name]["ops"])
            q, c = list(MENU[name]["q"]), list(MENU[name]["c"])
            simulated = False
        if a == "build2":
            ops = list(SECOND)
            simulated = False
        out.append(None)
    return out


_cache = {}


def observe(circ, mixed):
    """Everything the latest simulation reports."""
    from dwave.gate.circuit import CircuitError

    out = dict(bits=drive.bitvals(circ))
    try:
        out["state"] = None if circ.state is None else circ.state.copy()
    except CircuitError:
        out["state"] = "mixed"
    out["density"] = circ.density_matrix.copy()
    out["meas"] = []
    Scripted = env.make_scripted()
    for o in circ.circuit:
        if type(o).__name__ == M:
            env.Randomness.hook = lambda seed: Scripted([0.11, 0.83, 0.47, 0.29], default=0.61)
            try:
                smp = o.sample(num_samples=3)
            except Exception as e:
                smp = type(e).__name__
            finally:
                env.Randomness.hook = None
            out["meas"].append((None if o.state is None else o.state.copy(), smp))
    return out


def same(a, b):
    if a["bits"] != b["bits"] or len(a["meas"]) != len(b["meas"]):
        return False
    for k in ("state", "density"):
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) != isinstance(y, np.ndarray):
            return False
        if isinstance(x, np.ndarray):
            if not ref.close(x, y, 1e-12):
                return False
        elif x is not y and x != y:
            return False
    for (s, m), (t, u) in zip(a["meas"], b["meas"]):
        if (s is None) != (t is None) or (s is not None and not ref.close(s, t, 1e-12)) or m != u:
            return False
    return True


def fresh(name, prog, sim):
    from dwave.gate.simulator import simulate

    key = (repr(prog), sim)
    if key not in _cache:
        seed, mixed, le = SIMS[sim]
        circ = drive.build(prog)
        simulate(circ, mixed_state=mixed, little_endian=le, rng_seed=seed)
        r = observe(circ, mixed)
        circ = drive.build(prog)
        simulate(circ, mixed_state=mixed, little_endian=le, rng_seed=seed)
        require(same(r, observe(circ, mixed)),
                lambda: "two fresh circuits %r simulated with seed %s differ" % (prog, seed))
        _cache[key] = r
    return _cache[key]


def generate(b):
    acts = list(SIMS) + NOISE
    for name in MENU:
        for d in range(1, b["depth"] + 1):
            for first in itertools.product(acts, repeat=max(d - 2, 0)):
                if plan(name, first) is None:
                    continue
                yield [name, d, list(first)]
    # the same actions over and over
    for name in MENU:
        for k in range(1, b["loop"] + 1):
            for word in itertools.product(acts, repeat=k):
                if plan(name, word) is not None:
                    yield [name, 0, list(word) * b["times"]]
                    if k == 1:
                        yield [name, 0, list(word) * b["many"]]


def run_case(case, cov):
    name, d, first = case
    acts = list(SIMS) + NOISE
    if d == 0:
        for last in SIMS:
            p = plan(name, first + [last])
            if p is not None:
                history(name, first + [last], p, cov)
        return
    for mid in itertools.product(acts, repeat=min(d - 1, 1)):
        for last in SIMS:
            hist = list(first) + list(mid) + [last]
            p = plan(name, hist)
            if p is not None:
                history(name, hist, p, cov)
    cov.outcome(name)


def history(name, hist, p, cov):
    from dwave.gate.simulator import simulate

    expected = [fresh(name, now, a) if now is not None else None for a, now in zip(hist, p)]
    prog = MENU[name]
    circ = drive.build(prog)
    other = drive.build(OTHER)
    other.unlock()
    opened = False
    try:
        for a, e in zip(hist, expected):
            cov.step()
            if a in SIMS:
                seed, mixed, le = SIMS[a]
                simulate(circ, mixed_state=mixed, little_endian=le, rng_seed=seed)
                got = observe(circ, mixed)
                require(same(got, e), lambda: "%s after %s: %s instead of %s" % (name, hist, got, e))
                cov.state(name, a, repr(got["bits"]), len(got["meas"]), opened, len(circ.circuit))
            elif a == "s":
                simulate(circ)
            elif a in ("sample", "expval"):
                for o in circ.circuit:
                    if type(o).__name__ == M and o.state is not None:
                        o.sample(num_samples=2) if a == "sample" else o.expval(num_samples=3)
            elif a == "read":
                try:
                    circ.state
                except Exception:
                    pass
                circ.density_matrix
                circ.qubits, circ.bits
            elif a == "addq":
                circ.add_qubit()
            elif a == "addb":
                circ.add_bit()
            elif a == "set":
                n = circ.num_qubits
                v = np.zeros(2 ** n, dtype=complex)
                v[-1] = 1
                circ.set_state(v, force=True)
            elif a == "setmixed":
                n = circ.num_qubits
                circ.set_state(np.eye(2 ** n, dtype=complex) / 2 ** n, force=True)
            elif a in ("append", "appendM"):
                circ.unlock()
                o = drive.make_op(APP if a == "append" else APPM, list(circ.qubits), list(circ.bits))
                circ.append(o)
                circ.lock()
            elif a == "remove":
                circ.unlock()
                o = circ.circuit[-1]
                if sum(x == o for x in circ.circuit) == 1:
                    circ.remove(o)
                else:
                    del circ.circuit[-1]
                circ.lock()
            elif a == "rebuild":
                circ.reset()
                drive.fill(circ, prog["ops"])
            elif a == "wipe":
                circ.reset(keep_registers=False)
                require(circ.state is None and circ.density_matrix is None and not circ.circuit and circ.num_bits == 0,
                        lambda: "%s after %s: something remains after a full reset" % (name, hist))
                for size in prog["q"]:
                    circ.add_qregister(size)
                for size in prog["c"]:
                    circ.add_cregister(size)
                drive.fill(circ, prog["ops"])
            elif a == "build2":
                circ.reset()
                require(circ.state is None and circ.density_matrix is None and not any(v is not None for v in drive.bitvals(circ)),
                        lambda: "%s after %s: something remains after a reset" % (name, hist))
                drive.fill(circ, SECOND)
            elif a == "other":
                simulate(other, rng_seed=1)
            elif a == "open":
                other.unlock()
                other.context.__enter__()
                opened = True
            elif a == "close":
                other.context.__exit__(None, None, None)
                other.unlock()
                opened = False
            elif a == "npseed":
                np.random.seed(5)
                np.random.random()
                import random

                random.seed(3)
    finally:
        if opened:
            other.context.__exit__(None, None, None)


EXPECT_OUTCOMES = tuple(MENU)
