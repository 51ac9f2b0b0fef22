"""C03: measurements collapse with Born probabilities; conditionals follow bits."""
import itertools

import numpy as np

from mc import branch, drive, env, ref
from mc.core import Violation, require

PROPERTY = "C03"
RULE = (
    "every program of the stated length over {gates, measurements of every ordered qubit subset into every "
    "ordered bit tuple (or none), gates and measurements conditioned on every bit subset}, after dense or "
    "entangled preparations; for each program every answer of a uniform grid to each random draw, draw by "
    "draw; programs on the stated larger numbers of qubits and bits; every short word of operations repeated (`repeat`: length, times) and circuits of many bits, the recorded states followed from measurement to measurement; every value of 3 and 4 condition bits; outcomes of small probabilities (`rare`, down to 2.5e-9) under extreme answers; bits, final state and recorded states must fit a reference outcome history and the grid counts "
    "the Born probabilities; u=0 and u=1-2^-53 for exactly representable programs"
)
BOUNDS = {
    "quick": dict(len={1: 3, 2: 2, 3: 1}, plain={2: 2}, det=3, wide=(4, 5, 10, 11, 12), repeat=(2, 130), bits=(17, 65, 130, 300)),
    "thorough": dict(len={1: 4, 2: 3, 3: 2}, plain={2: 3, 3: 2}, det=4, wide=(4, 5, 6, 7, 8, 9, 10, 11, 12, 13), repeat=(3, 260), bits=(9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 130, 256, 257, 300, 1001)),
}
ASSUMPTIONS = ["probabilities resolved to the grid: 1/16 for the first two draws, 1/8, 1/4 for later ones",
               "scripted answers replace numpy's uniform(); other ways of drawing fall back to 64 seeds"]


def alphabet(n, nb, rich=True):
    out = []
    gates = [["Hadamard", [], [0], None, None], ["RY", [1.1], [n - 1], None, None]]
    if n > 1:
        gates += [["CX", [], [0, 1], None, None], ["CRX", [0.9], [n - 1, 0], None, None]]
    out += gates
    for k in range(1, n + 1):
        for qs in itertools.permutations(range(n), k):
            if k > nb:
                continue
            for bs in itertools.permutations(range(nb), k):
                if k == 3 and bs not in ((0, 1, 2), (2, 0, 1)):
                    continue
                out.append(["Measurement", [], list(qs), list(bs), None])
            if k < 3 or qs in ((0, 1, 2), (1, 2, 0)):
                out.append(["Measurement", [], list(qs), None, None])
    conds = [list(c) for k in (1, 2) for c in itertools.combinations(range(nb), k)]
    for c in conds:
        out.append(["X", [], [0], None, c])
        out.append(["RY", [0.8], [n - 1], None, c])
        if n > 1:
            out.append(["CX", [], [n - 1, 0], None, c])
            out.append(["SWAP", [], [0, n - 1], None, c])
        if n > 2:
            out.append(["CCX", [], [2, 0, 1], None, c])
            out.append(["CSWAP", [], [1, 0, 2], None, c])
        out.append(["Measurement", [], [n - 1], [0], c])
    return out


def preps(n):
    if n == 1:
        return {"generic": ref.generic(1)}
    ghz = [["Hadamard", [], [0], None, None]] + [["CX", [], [i, i + 1], None, None] for i in range(n - 1)]
    return {"generic": ref.generic(n), "ghz": ghz}


def draws(ops):
    return sum(len(o[2]) for o in ops if o[0] == "Measurement")


def nbits(n):
    return {1: 1, 2: 2, 3: 3}[n]


def det_alphabet(n):
    out = [["X", [], [i], None, None] for i in range(n)]
    out += [["CX", [], list(p), None, None] for p in itertools.permutations(range(n), 2)]
    out += [["Measurement", [], [i], [i], None] for i in range(n)]
    out += [["Measurement", [], list(range(n))[::-1], list(range(n)), None]]
    out += [["X", [], [i], None, [n - 1 - i]] for i in range(n)]
    return out


def wide_program(n, kind, k):
    """Programs on many qubits and bits (positions of several digits), with few outcomes."""
    p = [(i * (1, n - 1, 3, 7, 5, 1)[k] + k) % n for i in range(n)]
    if sorted(p) != list(range(n)):
        p = list(range(n))[::-1][k % n:] + list(range(n))[::-1][:k % n]
    r = [(i + 2 * k + 1) % n for i in range(n)]
    lay = [[n], [1] * n, [2, n - 2], [n - 2, 2], [0, n - 1, 0, 1], [1, n - 2, 1]]
    q, c = lay[k], lay[(k + 1) % 6]
    X = lambda i, conds=None: ["X", [], [i], None, conds]  # noqa: E731
    m = lambda qs, bs, conds=None: ["Measurement", [], list(qs), list(bs), conds]  # noqa: E731
    if kind == "basis":
        ops = [X(i) for i in range(n) if (i * i + k) % 3 == 0]
        ops += [["CX", [], [p[i], p[i + 1]], None, None] for i in range(0, n - 1, 2)]
        ops += [m(p, r)]
        ops += [X(p[i], [r[i], r[(i + 1) % n]]) for i in range(n)]
        ops += [["CX", [], [r[0], r[1]], None, [r[2], r[n - 1], r[0]]], m(r[: n - 1], p[: n - 1]), m([r[n - 1]], [p[n - 1]], [p[0]])]
    elif kind == "ghz":
        ops = [["RY", [1.2], [p[0]], None, None]] + [["CX", [], [p[i], p[i + 1]], None, None] for i in range(n - 1)]
        ops += [m([p[n - 1]], [r[n - 1]])] + [X(i, [r[n - 1]]) for i in p[: n // 2]] + [m(p, r)]
    elif kind == "two":
        ops = [["RY", [1.0], [p[1]], None, None], ["RX", [2.0], [p[n - 1]], None, None], ["CX", [], [p[1], p[2]], None, None]]
        ops += [m([p[n - 1], p[1]], [r[n - 1], r[2]]), X(p[0], [r[2], r[n - 1]]), X(p[3], [r[n - 1]]), X(p[2], [r[2]]),
                m([p[2], p[3], p[0]], [r[0], r[1], r[3]])]
    elif kind == "all":  # many qubits in superposition measured by one operation
        w = min(n, 7 - k % 2)
        ops = [["RY", [1.1 + 0.17 * i], [p[i]], None, None] for i in range(n)]
        ops += [["CRX", [0.8], [p[i], p[(i + 1) % n]], None, None] for i in range(n)] + [["T", [], [p[0]], None, None]]
        ops += [m(p[:w], r[:w])] + [X(p[w - 1], [r[0]]), X(p[1], [r[w - 1], r[1]])] + [m(p[:w][::-1], r[:w])]
    else:  # the same qubits and bits measured over and over
        ops = [["RY", [1.3], [p[0]], None, None]]
        for j in range(12):
            a, b = p[j % n], p[(j + 1) % n]
            ops += [m([a], [r[j % 3]]), X(b, [r[j % 3]]), ["CX", [], [b, a], None, None], X(a)]
    return dict(q=q, c=c, ops=ops)


def generate(b):
    yield ["mixed"]
    for n, length in b["len"].items():
        for prep in preps(n):
            N = len(alphabet(n, nbits(n)))
            for idx in itertools.product(range(N), repeat=length):
                yield ["prog", n, prep, list(idx)]
    for n, length in b["plain"].items():
        N = len(alphabet(n, nbits(n)))
        for idx in itertools.product(range(N), repeat=length):
            yield ["prog", n, None, list(idx)]
    # measure, act conditionally, measure again, for every pair of measurements
    for n in (2, 3):
        A = alphabet(n, nbits(n))
        M = [i for i, o in enumerate(A) if o[0] == "Measurement" and not o[4] and len(o[2]) < 3]
        K = [i for i, o in enumerate(A) if o[4]]
        if n == 3:
            M, K = M[:: 5], K[:: 3]
        for x in itertools.product(M, K, M):
            yield ["prog", n, "generic", list(x)]
    for n in (2,):
        N = len(det_alphabet(n))
        for idx in itertools.product(range(N), repeat=b["det"]):
            yield ["det", n, list(idx)]
    for n in b["wide"]:
        for kind in ("basis", "ghz", "two", "long", "all"):
            for k in range(6):
                yield ["wide", n, kind, k]
    length, times = b["repeat"]
    A = word_alphabet()
    for k in range(1, length + 1):
        for idx in itertools.product(range(len(A)), repeat=k):
            if any(A[i][0] == "Measurement" for i in idx):
                yield ["repeat", list(idx), times]
    for nb in b["bits"]:
        for k in range(4):
            yield ["bits", nb, k]
    for i in range(len(RARE)):
        for k in range(6):
            yield ["rare", i, k]
    for nb in (3, 4):
        for conds in (c for r in range(3, nb + 1) for c in itertools.combinations(range(nb), r)):
            for vals in itertools.product((0, 1), repeat=nb):
                yield ["many", list(conds), list(vals)]
    for how in ("one", "many", "conditional"):
        yield ["fresh", how]
    for vals in itertools.product((None, 0, 1), repeat=2):
        for conds in ([0], [1], [0, 1], [1, 0]):
            for i in range(len(ref.alphabet(2))):
                yield ["preset", list(vals), conds, i]


def run_case(case, cov):
    kind = case[0]
    if kind == "prog":
        _, n, prep, idx = case
        A = alphabet(n, nbits(n))
        ops = [A[i] for i in idx]
        d = draws(ops)
        if d == 0 or d > 4:
            cov.outcome("skipped: %s draws" % ("no" if d == 0 else "too many"))
            return
        ops = (preps(n)[prep] if prep else []) + ops
        lay = [n] if n < 3 else [1, 2]
        prog = dict(q=lay, c=[nbits(n)] if n < 3 else [2, 1], ops=ops)
        branch.explore(prog, cov, lambda: repr(ops))
        if any(o[4] for o in ops):
            cov.outcome("conditional")
    elif kind == "det":
        _, n, idx = case
        A = det_alphabet(n)
        ops = [A[i] for i in idx]
        if draws(ops):
            branch.explore(dict(q=[n], c=[n], ops=ops), cov, lambda: repr(ops), extremes=True)
    elif kind == "wide":
        _, n, what, k = case
        prog = wide_program(n, what, k)
        branch.explore(prog, cov, lambda: repr(prog), extremes=what == "basis",
                       Ns=(4,) * 7 + (1,) * 14 if what == "all" else (16, 8, 4, 2))
        cov.outcome("wide")
    elif kind == "repeat":
        A = word_alphabet()
        ops = [["Hadamard", [], [0], None, None]] + [A[i] for i in case[1]] * case[2]
        for seed in range(2):
            follow(dict(q=[2], c=[2], ops=ops), seed, lambda: "%s x %d" % (ops[1:1 + len(case[1])], case[2]), cov)
        cov.outcome("repeat")
    elif kind == "bits":
        _, nb, k = case
        ops = [["RY", [1.2], [0], None, None], ["Measurement", [], [0], [nb - 1], None], ["X", [], [0], None, [nb - 1]]]
        p = [(i * (1, nb - 1, 1, 1)[k] + k) % nb for i in range(nb)]
        for i in range(nb):  # bit p[i] becomes i % 3 > 0
            ops += [["X", [], [1], None, None]] * (((i % 3) > 0) != ((i - 1) % 3 > 0 if i else 0))
            ops += [["Measurement", [], [1], [p[i]], None]]
        on = [p[i] for i in range(nb) if i % 3]
        off = [p[i] for i in range(nb) if not i % 3]
        ops += [["X", [], [0], None, on], ["Y", [], [0], None, on + off[:1]], ["Y", [], [1], None, off[-1:] + on],
                ["RX", [0.5], [1], None, on[-1:]], ["RX", [0.25], [1], None, off[-1:]], ["CX", [], [0, 1], None, on[::-1]]]
        ops += [["Measurement", [], [1, 0], [nb - 1, 0], on[:5]], ["Measurement", [], [0], [nb // 2], off]]
        for seed in range(3):
            follow(dict(q=[2], c=([nb], [1] * nb, [2, nb - 2], [nb - 1, 0, 1])[k], ops=ops), seed, lambda: "%d bits (%d)" % (nb, k), cov)
        cov.outcome("bits")
    elif kind == "many":
        _, conds, vals = case
        nb = len(vals)
        for q, op in enumerate((["X", [], [0], None, conds], ["CRY", [0.9], [1, 0], None, conds[::-1]],
                                ["Measurement", [], [1], [0], conds])):
            ops = ref.generic(2) + [op]
            branch.explore(dict(q=[2], c=[nb], ops=ops), cov, lambda: repr((vals, ops)),
                           preset=[None] + vals[1:] if q == 2 and 0 not in conds else vals)
        # the same with bits set by measurements
        ops = []
        for i, v in enumerate(vals):
            ops += [["X", [], [0], None, None]] if v != (vals[i - 1] if i else 0) else []
            ops += [["Measurement", [], [0], [i], None]]
        ops += [["X", [], [1], None, conds], ["X", [], [0], None, conds[:1]], ["Measurement", [], [1, 0], [1, 0], None]]
        branch.explore(dict(q=[2], c=[nb], ops=ops), cov, lambda: repr(ops), extremes=True)
    elif kind == "preset":
        _, vals, conds, i = case
        op = ref.alphabet(2)[i][:4] + [conds]
        ops = ref.generic(2) + [op]
        branch.explore(dict(q=[2], c=[2], ops=ops), cov, lambda: repr((vals, ops)), preset=vals)
        cov.outcome("preset")
    elif kind == "rare":
        rare(case[1], case[2], cov)
    elif kind == "fresh":
        fresh(case[1], cov)
    elif kind == "mixed":
        # density-matrix simulation of a circuit with a measurement
        from dwave.gate.simulator import simulate

        circ = drive.build(dict(q=[1], c=[1], ops=[["X", [], [0], None, None], ["Measurement", [], [0], [0], None]]))
        try:
            simulate(circ, mixed_state=True)
        except TypeError as e:
            raise Violation("density-matrix simulation of a measured circuit raises %r" % e,
                            key="mixed-state simulation of a measurement")
        require(circ.bits[0].value == 1 and ref.close(circ.density_matrix, [[0, 0], [0, 1]]),
                "density-matrix simulation of a measured circuit gives a wrong result",
                key=None)


def word_alphabet():
    return det_alphabet(2) + [["Hadamard", [], [0], None, None], ["RY", [1.1], [1], None, [0]], ["Measurement", [], [1], None, None],
                              ["Measurement", [], [0, 1], [1, 0], [1]]]


def follow(prog, seed, what, cov):
    """Simulate; then keep, measurement by measurement, the histories that agree with the recorded states."""
    from dwave.gate.simulator import simulate

    ops, n, nb = prog["ops"], sum(prog["q"]), sum(prog["c"])
    circ = drive.build(prog)
    simulate(circ, rng_seed=seed)
    live = [(ref.zero(n), (None,) * nb)]
    for i, (o, real) in enumerate(zip(ops, circ.circuit)):
        name, params, qs, bs, conds = o
        nxt = {}
        for v, bits in live:
            if conds and not all(bits[b] == 1 for b in conds):
                new = [(v, bits)]
            elif name != "Measurement":
                new = [(ref.apply(v, ref.cmatrix(name, params), qs, n), bits)]
            elif real.state is None or not ref.close(real.state, v, 1e-7):
                continue
            else:
                new = [(v, bits)]
                for k, q in enumerate(qs):
                    step = []
                    for w, c in new:
                        p0 = ref.prob0(w, q, n)
                        for m, pm in ((0, p0), (1, 1 - p0)):
                            if pm > 1e-9:
                                d = list(c)
                                if bs is not None and k < len(bs):
                                    d[bs[k]] = m
                                step.append((ref.project(w, q, m, n), tuple(d)))
                    new = step
            for w, c in new:
                nxt.setdefault(((np.round(w, 6) + 0.0).tobytes(), c), (w, c))
        require(nxt, lambda: "%s, seed %d: the state recorded by operation %d %s fits no outcome history: %s, possible %s" % (
            what(), seed, i, o, real.state, [v.tolist() for v, _ in live[:4]]))
        live = list(nxt.values())
    got = tuple(b.value for b in circ.bits)
    require(any(c == got and ref.close(circ.state, v, 1e-7) for v, c in live),
            lambda: "%s, seed %d: bits %s and state %s fit no outcome history" % (what(), seed, got, circ.state))
    cov.step(len(ops))
    cov.state(repr(prog), seed)


RARE = [0.3, 0.1, 0.03, 0.01, 1e-3, 3e-4, 1e-4]  # probabilities down to 2.5e-9


def rare(i, k, cov):
    """Outcomes of small probabilities: they occur for extreme answers, and the histories after them are as ever."""
    from dwave.gate.simulator import simulate

    a = RARE[i]
    n = 2 + k % 2
    prep = [["RY", [a], [0], None, None], ["RX", [1.1], [1], None, None]]
    if k >= 3:  # 1 is likely, 0 is not
        prep.append(["X", [], [0], None, None])
    m = ["Measurement", [], [0], [0], None]
    tail = [
        [m, ["RY", [0.7], [1], None, [0]], ["RX", [a], [0], None, None], ["Measurement", [], [0, 1], [1, 0], None]],
        [["CRX", [0.8], [1, 2 % n], None, None], m, ["CX", [], [0, 1], None, None], ["Measurement", [], [1], [1], [0]]],
        [["CX", [], [0, 1], None, None], ["RY", [a], [1], None, None], ["Measurement", [], [1, 0], [0, 1], None], ["X", [], [0], None, [1]]],
    ][k % 3]
    ops = prep + tail
    prog = dict(q=[n], c=[2], ops=ops)
    L = branch.leaves(ops, n, 2)
    txt = lambda: "%s" % (ops,)  # noqa: E731
    Scripted = env.make_scripted()
    circ = drive.build(prog)
    mops = [o for o in circ.circuit if type(o).__name__ == "Measurement"]
    reached, standard = set(), True
    for us in itertools.product((1e-10, 0.5, 1 - 1e-10), repeat=3):
        gens = []

        def hook(seed):
            gens.append(Scripted(list(us), default=0.5))
            return gens[-1]

        env.Randomness.hook = hook
        try:
            simulate(circ)
        finally:
            env.Randomness.hook = None
        cov.step()
        hit = [l for l in L if branch.matches(l, circ, mops)]
        require(hit, lambda: "%s with answers %s: bits %s and state %s fit no outcome history" % (
            txt(), us, drive.bitvals(circ), circ.state.tolist()))
        standard &= any(len(l.outs) == sum(len(g.used) for g in gens) for l in hit)
        # what a state of small amplitudes is to become is told apart by bits alone
        reached.update(l.outs for l in hit)
    if standard:
        for l in L:
            if all((1 - p0 if x else p0) > 5e-10 for x, p0 in zip(l.outs, l.probs)):
                require(l.outs in reached, lambda: "%s: outcomes %s of probability %.3g never occur" % (txt(), l.outs, l.p))
    cov.state("rare", i, k)
    cov.outcome("rare")


def fresh(how, cov):
    """Every simulation without a seed draws anew, and so does every measured qubit: eight repetitions of 12 fair
    outcomes all alike would have probability 2^-84."""
    from dwave.gate.simulator import simulate

    n = 12
    ops = [["Hadamard", [], [i], None, None] for i in range(n)]
    if how == "one":
        ops += [["Measurement", [], list(range(n)), list(range(n)), None]]
    elif how == "many":
        ops += [["Measurement", [], [i], [i], None] for i in range(n)]
    else:  # one qubit, measured into bit after bit
        ops = sum(([["Hadamard", [], [0], None, None], ["Measurement", [], [0], [i], None]] for i in range(n)), [])
    got = []
    for k in range(8):
        circ = drive.build(dict(q=[n], c=[n], ops=ops))
        for _ in range(2):
            simulate(circ)
            got.append(tuple(b.value for b in circ.bits))
            cov.step()
    txt = lambda: "repeated simulations of %d fair measurements (%s) give %s" % (n, how, got)  # noqa: E731
    require(len(set(got)) > 2, txt)
    require(len(set(got[::2])) > 1 and len(set(got[1::2])) > 1, txt)
    require(any(len(set(g)) == 2 for g in got), txt)
    # with seeds as well the qubits of one simulation are independent
    got = []
    for seed in range(20):
        circ = drive.build(dict(q=[n], c=[n], ops=ops))
        simulate(circ, rng_seed=seed)
        got.append(tuple(b.value for b in circ.bits))
        cov.step()
    require(len(set(got)) > 2 and any(len(set(g)) == 2 for g in got), lambda: "seeds 0..19: " + txt())
    cov.state("fresh", how)
    cov.outcome("fresh")


EXPECT_OUTCOMES = ("leaves2", "leaves4", "extremes", "conditional", "preset", "wide", "repeat", "bits", "fresh", "rare")
