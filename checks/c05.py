"""C05: sampling a measurement reports the measured state without disturbing it."""
import itertools

import numpy as np

from mc import branch, drive, env, ref
from mc.core import require

PROPERTY = "C05"
RULE = (
    "for every measurement (ordered qubit subset) of every preparation of a menu on 1..3 qubits, possibly "
    "followed by gates or preceded by another measurement, into bits in either order or none, every qubit selection (default, int, every "
    "ordered tuple, repeats) and shot count: every grid answer to each random draw in turn; the samples must "
    "follow the projections of the recorded state, the grid counts the Born probabilities; expval and "
    "bitstrings against the same answers; refusals; nothing recorded may change; also all sequences of direct samplings of single qubits (`sample_qubit`; collapsing or not, both qubit orders); the stated numbers of shots, under every constant answer and without control (every window varies), and more than fit small number types (`most`); the stated larger numbers of qubits"
)
BOUNDS = {
    "quick": dict(ns=(1, 2, 3), shots=(1, 2), rep=1, wide=(5, 10, 11, 12), direct=2, many=(17, 65, 130, 300, 1000, 1100), most=(33000, 66000)),
    "thorough": dict(ns=(1, 2, 3, 4), shots=(1, 2, 3), rep=2, wide=(5, 6, 7, 8, 9, 10, 11, 12, 13), direct=3, many=(9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 128, 129, 130, 256, 257, 300, 512, 513, 1000, 1001, 1024, 1025, 2000, 5000), most=(33000, 66000, 132000)),
}
ASSUMPTIONS = ["probabilities resolved to 1/8 (first draws) and 1/4",
               "empty and negative qubit selections are outside the claim"]


def preps(n):
    H, CX = "Hadamard", "CX"
    out = {"generic": ref.generic(n), "zero": [], "ones": [["X", [], [i], None, None] for i in range(n)]}
    if n > 1:
        out["ghz"] = [[H, [], [0], None, None]] + [[CX, [], [i, i + 1], None, None] for i in range(n - 1)]
        out["basis"] = [["X", [], [n - 1], None, None]]
    return out


def generate(b):
    for n in b["ns"]:
        for prep in preps(n):
            for k in range(1, n + 1):
                for qs in itertools.permutations(range(n), k):
                    if n == 4 and k > 2:
                        continue
                    for tail in ("none", "gates", "again", "before", "nobits", "revbits"):
                        if tail != "none" and prep not in ("generic", "ghz"):
                            continue
                        for shots in b["shots"]:
                            yield [n, prep, list(qs), tail, shots]

    for n in b["ns"]:
        for prep in preps(n):
            for little in (False, True):
                yield ["direct", n, prep, little, b["direct"]]
    for n in (1, 2, 3):
        for shots in b["many"]:
            yield ["shots", n, shots]
    for shots in b["most"]:
        for k in range(4):
            yield ["most", shots, k]
    for n in b["wide"]:
        yield ["direct", n, "wide", False, 1]
        yield ["direct", n, "wide", True, 1]
        for k in range(4):
            yield ["wide", n, k]


def run_direct(n, prep, little, depth, cov):
    """All sequences of direct samplings of single qubits of a state, collapsing it or not."""
    from dwave.gate.simulator import sample_qubit

    Scripted = env.make_scripted()
    if prep == "wide":
        v0 = ref.run([["RY", [0.3 + 0.2 * i], [i], None, None] for i in range(n)] + [["CX", [], [0, n - 1], None, None]], n)
    else:
        v0 = ref.run(preps(n)[prep], n)

    def order(v):
        return v.reshape((2,) * n).transpose(range(n)[::-1]).reshape(-1) if little else v

    def rec(v, d, done):
        for q in range(n):
            p0 = ref.prob0(v, q, n)
            for collapse in (None, True, False):
                zeros, next_ = 0, {}
                for u in branch.grid(8):
                    txt = lambda: "%d qubits (%s, %s-endian): %s, then sample_qubit(%d, collapse_state=%s) with answer %s" % (  # noqa: E731
                        n, prep, "little" if little else "big", done, q, collapse, u)
                    given = np.array(order(v), dtype=np.complex128)
                    kw = {} if collapse is None else dict(collapse_state=collapse)
                    if little:
                        kw["little_endian"] = True
                    g = Scripted([u], default=0.4375)
                    x = sample_qubit(q, given, g, **kw)
                    cov.step()
                    require(isinstance(x, (int, np.integer)) and x in (0, 1), lambda: "%s gives %r" % (txt(), x))
                    zeros += x == 0
                    require((1 - p0 if x else p0) > 1e-9, lambda: "%s gives %d, which has probability zero" % (txt(), x))
                    w = v if collapse is False else ref.project(v, q, x, n)
                    require(ref.close(given, order(w), 1e-9),
                            lambda: "%s gives %d and leaves %s instead of %s" % (txt(), x, np.round(given, 5), np.round(order(w), 5)))
                    if len(g.used) == 1:
                        next_.setdefault((x, collapse is False), w)
                    else:
                        cov.outcome("nonstandard-draws")
                if next_:
                    require(abs(zeros - 8 * p0) < 1 + 1e-6,
                            lambda: "%d qubits (%s): after %s qubit %d is 0 for %d of 8 answers, probability %.5f"
                            % (n, prep, done, q, zeros, p0))
                cov.state("direct", n, q, collapse, little, np.round(v, 6).tobytes())
                if d + 1 < depth and collapse is not None:
                    for (x, _), w in next_.items():
                        rec(w, d + 1, done + [(q, x, collapse)])

    rec(v0, 0, [])
    cov.outcome("direct")


def run_wide(n, k, cov):
    """Many qubits (positions of several digits) and many shots."""
    from dwave.gate.simulator import simulate

    p = [(i * (1, n - 1, 1, n - 1)[k] + k) % n for i in range(n)]
    ops = [["X", [], [i], None, None] for i in range(n) if (i * i + k) % 3 == 0]
    ops += [["RY", [1.1], [p[0]], None, None], ["RX", [0.8], [p[n - 1]], None, None], ["CX", [], [p[0], p[2]], None, None]]
    qs = [p, p[::-1], p[2:], [n - 1, 0, n - 2]][k]
    ops += [["Measurement", [], qs, list(range(len(qs))), None]]
    v = ref.run(ops[:-1], n)
    circ = drive.build(dict(q=[[n], [1] * n, [2, n - 2], [n - 1, 1]][k], c=[n], ops=ops))
    meas = circ.circuit[-1]
    simulate(circ, rng_seed=1)
    before = frozen(circ, meas)
    ps = [ref.prob0(v, q, n) for q in range(n)]
    for sel in (None, n - 1, [n - 1], list(range(n)), list(range(n))[::-1], p, [2, n - 1, 0], [n - 2, n - 1, n - 2]):
        want = qs if sel is None else [sel] if isinstance(sel, int) else sel
        kw = {} if sel is None else dict(qubits=sel)
        for shots in (1, 3, 40, 250):
            txt = lambda: "%d qubits (%d), sample(%s, shots=%d)" % (n, k, sel, shots)  # noqa: E731
            out = meas.sample(num_samples=shots, **kw)
            require(len(out) == shots and all(len(s) == len(want) for s in out), lambda: "%s: wrong shape" % txt())
            for s in set(map(tuple, out)):
                w = v
                for q, x in zip(want, s):
                    if w is v or 1e-9 < ps[q] < 1 - 1e-9:
                        p0 = ref.prob0(w, q, n)
                        require((1 - p0 if x else p0) > 1e-9, lambda: "%s: sample %s has probability zero" % (txt(), s))
                        w = ref.project(w, q, x, n)
                    else:
                        require(x == (ps[q] < 0.5), lambda: "%s: sample %s has probability zero" % (txt(), s))
            cov.step()
            strings = meas.sample(num_samples=shots, as_bitstring=True, **kw)
            require(len(strings) == shots and all(isinstance(x, str) and len(x) == len(want) and set(x) <= {"0", "1"} for x in strings),
                    lambda: "%s: bitstrings %s" % (txt(), strings[:5]))
            e = meas.expval(num_samples=shots, **kw)
            require(len(e) == len(want) and all(abs(x * shots - round(x * shots)) < 1e-6 and 0 <= x <= 1 for x in e)
                    and all(abs(x - (1 - ps[q])) < 1e-9 for q, x in zip(want, e) if ps[q] in (0.0, 1.0)),
                    lambda: "%s: expectation values %s" % (txt(), e))
            if shots == 250:
                # all outcomes with a probability of at least 0.15 occur (missing one has probability < 1e-17)
                for i, q in enumerate(want):
                    if 0.15 < ps[q] < 0.85:
                        require({s[i] for s in out} == {0, 1}, lambda: "%s: qubit %d never varies" % (txt(), q))
        cov.state("wide", n, k, repr(sel))
    require(unchanged(before, frozen(circ, meas)), lambda: "%d qubits: sampling changed something" % n)
    for bad in (n, [0, n], list(range(n + 1))):
        try:
            meas.sample(bad)
        except ValueError:
            cov.outcome("refused")
        else:
            require(False, lambda: "sampling qubit %r of %d is accepted" % (bad, n))
    cov.outcome("wide")


def run_shots(n, shots, cov):
    """Many shots: alike when the answers are alike, and otherwise never settling or repeating."""
    from dwave.gate.simulator import simulate

    Scripted = env.make_scripted()
    ops = [["RY", [1.4 + 0.2 * i], [i], None, None] for i in range(n)] + [["CX", [], [i, i + 1], None, None] for i in range(n - 1)]
    v = ref.run(ops, n)
    ps = [ref.prob0(v, q, n) for q in range(n)]
    qs = list(range(n))[::-1]
    circ = drive.build(dict(q=[n], c=[n], ops=ops + [["Measurement", [], qs, None, None]]))
    simulate(circ, rng_seed=1)
    meas = circ.circuit[-1]
    before = frozen(circ, meas)
    txt = lambda: "%d qubits, %d shots" % (n, shots)  # noqa: E731
    for u in branch.grid(8):
        env.Randomness.hook = lambda seed: Scripted([], default=u)
        try:
            one = meas.sample(num_samples=1)[0]
            many = meas.sample(num_samples=shots)
            strings = meas.sample(num_samples=shots, as_bitstring=True)
            e = meas.expval(num_samples=shots)
        finally:
            env.Randomness.hook = None
        require(len(many) == shots and all(list(s) == list(one) for s in many),
                lambda: "%s: the constant answer %s gives different samples, %s" % (txt(), u, sorted(set(map(tuple, many)))))
        require(strings == ["".join(map(str, s)) for s in many], lambda: "%s: bitstrings %s of %s" % (txt(), set(strings), one))
        require(np.allclose(e, one), lambda: "%s: expectation values %s of equal samples %s" % (txt(), e, one))
        cov.step(3)
    for kw in ({}, dict(qubits=0), dict(qubits=[n - 1, 0])) if n > 1 else ({},):
        sel = qs if not kw else [0] if kw["qubits"] == 0 else kw["qubits"]
        out = [tuple(s) for s in meas.sample(num_samples=shots, **kw)]
        require(len(out) == shots, lambda: "%s: %d samples" % (txt(), len(out)))
        win = [tuple(out[i:i + 100]) for i in range(0, shots - 99, 100)]
        for w in win:
            require(all({s[i] for s in w} == {0, 1} for i in range(len(sel))), lambda: "%s: 100 equal samples in a row" % txt())
        require(len(set(win)) == len(win), lambda: "%s: the samples repeat" % txt())
        if shots >= 300:
            for e in (meas.expval(num_samples=shots, **kw), meas.expval(**kw), np.mean(out, axis=0)):
                require(len(e) == len(sel) and all(abs(x - (1 - ps[q])) < 0.3 for x, q in zip(e, sel)),
                        lambda: "%s: expectation values %s of qubits %s, probabilities %s" % (txt(), e, sel, ps))
        cov.step()
    require(unchanged(before, frozen(circ, meas)), lambda: "%s: sampling changed something" % txt())
    cov.state("shots", n, shots)
    cov.outcome("shots")


def run_most(shots, k, cov):
    """Numbers of samples beyond those of small number types."""
    from dwave.gate.simulator import simulate

    n = 1 + k % 2
    ops = [["X", [], [n - 1], None, None]] if k < 2 else [["Hadamard", [], [i], None, None] for i in range(n)]
    circ = drive.build(dict(q=[n], c=[n], ops=ops + [["Measurement", [], list(range(n)), list(range(n)), None]]))
    simulate(circ, rng_seed=1)
    bits = drive.bitvals(circ)
    meas = circ.circuit[-1]
    txt = lambda: "%d qubits, %d shots of %s" % (n, shots, "1s" if k < 2 else "superpositions")  # noqa: E731
    for what in ("expval", "strings"):
        if what == "expval":
            e = meas.expval(num_samples=shots)
        else:
            out = meas.sample(num_samples=shots, as_bitstring=True)
            require(len(out) == shots, lambda: "%s: %d samples" % (txt(), len(out)))
            e = [sum(s[i] == "1" for s in out) / shots for i in range(n)]
        want = [float(i == n - 1) for i in range(n)] if k < 2 else [0.5] * n
        require(len(e) == n and all(abs(x - w) < (1e-9 if k < 2 else 0.05) for x, w in zip(e, want)),
                lambda: "%s: expectation values %s instead of %s" % (txt(), e, want))
        require(k >= 2 or all(abs(x - b) < 1e-9 for x, b in zip(e, bits)), lambda: "%s: measured %s, but sampled %s" % (txt(), bits, e))
        cov.step(shots)
    cov.state("most", shots, k)
    cov.outcome("most")


def selections(n, qs, rep):
    out = [None]
    out += [i for i in range(n)]
    for k in range(1, n + 1):
        out += [list(p) for p in itertools.permutations(range(n), k)]
    out += [[0, 0], [n - 1, 0, n - 1]]
    if n > 1:
        out += [(1, 0), range(n)]
    return out


def run_case(case, cov):
    from dwave.gate.circuit import CircuitError
    from dwave.gate.simulator import simulate

    if case[0] == "wide":
        return run_wide(case[1], case[2], cov)
    if case[0] == "most":
        return run_most(case[1], case[2], cov)
    if case[0] == "shots":
        return run_shots(case[1], case[2], cov)
    if case[0] == "direct":
        return run_direct(*case[1:], cov)
    n, prep, qs, tail, shots = case
    ops = list(preps(n)[prep])
    if tail == "before":
        ops += [["Measurement", [], [n - 1], [n - 1], None], ["RY", [0.7], [0], None, None]]
    bits = None if tail == "nobits" else list(range(len(qs)))[:: -1 if tail == "revbits" else 1]
    ops += [["Measurement", [], qs, bits, None]]
    which = sum(1 for o in ops if o[0] == "Measurement") - 1
    if tail in ("gates",):
        ops += [["X", [], [0], None, None], ["Hadamard", [], [n - 1], None, None]]
    if tail == "again":
        ops += [["RX", [1.0], [qs[0]], None, None], ["Measurement", [], list(range(n))[::-1], None, None]]
    prog = dict(q=[n] if n < 3 else [1, n - 1], c=[n], ops=ops)
    circ = drive.build(prog)
    meas = [o for o in circ.circuit if type(o).__name__ == "Measurement"][which]
    for call in (lambda: meas.sample(), lambda: meas.sample([0]), lambda: meas.expval()):
        try:
            call()
        except CircuitError:
            cov.outcome("refused")
        else:
            require(False, "sampling before any simulation is not refused")
    for seed in (1, 2):
        simulate(circ, rng_seed=seed)
        L = [l for l in branch.leaves(ops, n, n) if branch.matches(l, circ, [
            o for o in circ.circuit if type(o).__name__ == "Measurement"])]
        require(L, "simulation fits no outcome history")
        v = L[0].meas[which][0]
        check(case, circ, meas, v, n, qs, shots, cov)
    cov.outcome(tail)


def frozen(circ, meas):
    return (meas.state.copy(), circ.state.copy(), drive.bitvals(circ), drive.snapshot(circ, conds=False))


def unchanged(a, b):
    return ref.close(a[0], b[0], 0) and ref.close(a[1], b[1], 0) and a[2:] == b[2:]


def check(case, circ, meas, v, n, qs, shots, cov):
    Scripted = env.make_scripted()
    before = frozen(circ, meas)
    for sel in selections(n, qs, 1):
        want = qs if sel is None else [sel] if isinstance(sel, int) else list(sel)
        kw = {} if sel is None else dict(qubits=sel)
        txt = lambda us: "case %s sample(%s, shots=%d) with answers %s" % (case, sel, shots, us)

        def run(us, **more):
            gens = []

            def hook(seed):
                gens.append(Scripted(us, default=0.4375))
                return gens[-1]

            env.Randomness.hook = hook
            try:
                out = meas.sample(num_samples=shots, **kw, **more)
            finally:
                env.Randomness.hook = None
            cov.step()
            return out, sum(len(g.used) for g in gens)

        def verify(out, us):
            require(isinstance(out, list) and len(out) == shots and all(len(s) == len(want) for s in out)
                    and all(isinstance(x, (int, np.integer)) and x in (0, 1) for s in out for x in s),
                    lambda: "%s: %r is not %d samples of %d 0/1 entries" % (txt(us), out, shots, len(want)))
            ps = []
            for s in out:
                w = v
                for q, x in zip(want, s):
                    p0 = ref.prob0(w, q, n)
                    p = 1 - p0 if x else p0
                    require(p > 1e-9, lambda: "%s: sample %s has probability zero" % (txt(us), out))
                    ps.append(p0)
                    w = ref.project(w, q, x, n)
            return ps

        # draw by draw: grid over one draw, prefix fixed by one answer per outcome
        flat = lambda out: [x for s in out for x in s]
        out, used = run([])
        verify(out, [])
        total = shots * len(want)
        if used == total:
            stack = [[]]
            done = set()
            while stack:
                pre = stack.pop()
                d = len(pre)
                if d >= total or d >= 4:
                    continue
                N = 8 if d < 2 else 4
                zeros, groups, p0 = 0, {}, None
                for u in branch.grid(N):
                    out, _ = run(pre + [u])
                    ps = verify(out, pre + [u])
                    x = flat(out)[d]
                    zeros += x == 0
                    groups.setdefault(tuple(flat(out)[: d + 1]), u)
                    p0 = ps[d]
                    cov.state(case[0], case[1], tuple(want), d, tuple(flat(out)[: d + 1]))
                require(abs(zeros - N * p0) < 1 + 1e-6,
                        lambda: "%s: draw %d is 0 for %d of %d answers, probability %.5f" % (txt(pre), d, zeros, N, p0))
                for u in groups.values():
                    stack.append(pre + [u])
        else:
            cov.outcome("nonstandard-draws")
        # renderings of the same answers
        us = [0.2, 0.9, 0.45, 0.7, 0.05]
        a, _ = run(us)
        b, _ = run(us, as_bitstring=True)
        require(b == ["".join(map(str, s)) for s in a], lambda: "%s: bitstrings %r of samples %r" % (txt(us), b, a))
        if shots > 1:
            gens = []
            env.Randomness.hook = lambda seed: Scripted(us, default=0.4375)
            try:
                e = meas.expval(num_samples=shots, **kw)
            finally:
                env.Randomness.hook = None
            want_e = [sum(s[i] for s in a) / shots for i in range(len(want))]
            if used == total:
                require(len(e) == len(want) and np.allclose(e, want_e),
                        lambda: "%s: expectation values %r instead of %r" % (txt(us), e, want_e))
            require(all(0 <= x <= 1 for x in e), "expectation value outside [0, 1]")
        require(unchanged(before, frozen(circ, meas)),
                lambda: "%s: sampling changed the recorded state, circuit state, bits or operations" % txt(us))
    p0 = ref.prob0(v, qs[0], n)
    if 0.3 < p0 < 0.7:
        # without controlled randomness repeated shots and repeated calls must vary
        one = {tuple(x) for x in meas.sample(num_samples=100)}
        calls = {tuple(meas.sample()[0]) for _ in range(100)}
        require({x[0] for x in one} == {0, 1} and {x[0] for x in calls} == {0, 1},
                lambda: "case %s: 100 shots give only %s, 100 calls only %s" % (case, one, calls))
        cov.outcome("varies")
    for bad in (n, [n], [0, n], [n + 3, 0]):
        try:
            out = meas.sample(bad)
        except ValueError:
            cov.outcome("refused")
        else:
            require(False, lambda: "case %s: sampling qubit(s) %r of a %d-qubit state gave %r" % (case, bad, n, out))
    require(unchanged(before, frozen(circ, meas)), "refused sampling changed something")


EXPECT_OUTCOMES = ("none", "gates", "again", "before", "nobits", "revbits", "refused", "varies", "wide", "direct", "shots", "most")
