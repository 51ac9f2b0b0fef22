"""C01: state-vector simulation equals the product of the gate matrices."""
import itertools

import numpy as np

from mc import edits, drive, ref
from mc.core import require

PROPERTY = "C01"
RULE = (
    "every history of the stated depth of adding, appending again, removing and moving operations between uses (`edits`); every gate sequence of the stated depth over the alphabet {every gate} x {every ordered tuple of "
    "distinct qubits}, after a dense asymmetric preparation and from |0..0>, in both qubit orderings; "
    "every single placement in wider circuits and all register layouts; custom gates in every array "
    "layout/number type; long and wide circuits; circuits sharing operations; many circuits alive at once (`kept`); confusable parameters; each final state compared with the reference product of embedded matrices; "
    "operations compared before/after"
)
BOUNDS = {
    "quick": dict(edits=4, seq={1: 3, 2: 2, 3: 2}, plain={1: 3, 2: 2, 3: 1}, wide=6, layouts=4, big=(8, 10), long=6, kept=(65, 300)),
    "thorough": dict(edits=5, seq={1: 5, 2: 3, 3: 3, 4: 2}, plain={1: 4, 2: 3, 3: 2}, wide=8, layouts=5, big=(8, 10, 11, 13), long=24, kept=(9, 10, 11, 17, 33, 65, 101, 130, 257, 300, 520, 1030)),
}
ASSUMPTIONS = ["amplitudes compared with absolute tolerance 1e-9",
               "angle alphabet {0.7, (0.4,1.1,-0.9)} plus a grid of 9 angles for single placements"]
GRID = [0.0, -0.0, 0.3, -1.3, np.pi / 2, np.pi, -np.pi, 2 * np.pi, 7.9, 1e-5, 4e-8]


def generate(b):
    for acts, k in edits.histories(b["edits"], 2):
        yield ["edits", acts, k]
    # single placements over widths, layouts, basis preparations
    for n in range(1, b["wide"] + 1):
        for g in ref.GATES:
            if ref.GATES[g][0] <= n:
                yield ["place", n, g]
    for n in range(1, b["layouts"] + 1):
        for lay in ref.compositions(n, 3):
            yield ["layout", lay]
    for g in ref.GATES:
        if ref.GATES[g][1]:
            for p in itertools.product(range(len(GRID)), repeat=ref.GATES[g][1]):
                yield ["angle", g, list(p)]
    for g in ref.GATES:
        if ref.GATES[g][1]:
            yield ["confuse", g]
    for kind in sorted(LAYOUTS):
        for m in range(len(CUSTOM)):
            yield ["custom", kind, m]
    for nctl in (1, 2):
        for m in range(len(CUSTOM)):
            yield ["cctl", nctl, m]
    for n in b["big"]:
        for g in ref.GATES:
            yield ["big", n, g]
    for n in (1, 2, 3, 4, 5):
        for step in range(1, b["long"] + 1):
            yield ["long", n, step]
            yield ["shared", n, step]
    for n in (1, 2, 3):
        for m in b["kept"]:
            yield ["kept", n, m]
    for prep, key in ((1, "seq"), (0, "plain")):
        for n, depth in b[key].items():
            N = len(ref.alphabet(n))
            if depth == 1:
                yield ["seq", n, prep, 1, []]
                continue
            for first in itertools.product(range(N), repeat=depth - 1):
                yield ["seq", n, prep, depth, list(first)]


ORDERS = (False, True)


def simulate_both(circ, n, exp, what, orders=ORDERS):
    from dwave.gate.simulator import simulate

    before = drive.snapshot(circ)
    ids = [id(o) for o in circ.circuit]
    for le in orders:
        if le:
            simulate(circ, little_endian=True)
        else:
            simulate(circ)
        got = circ.state
        e = ref.reverse(exp, n) if le else exp
        require(
            got is not None and ref.close(got, e),
            lambda: "%s: state (little_endian=%s) differs from the product of matrices: %s instead of %s"
            % (what(), le, np.round(got, 6).tolist() if got is not None else None, np.round(e, 6).tolist()),
        )
    require(
        drive.snapshot(circ) == before and [id(o) for o in circ.circuit] == ids,
        lambda: what() + ": simulating changed the operations",
    )


def run_case(case, cov):
    kind = case[0]
    if kind == "edits":
        edits.run(case[1], lambda circ, ops, sizes, txt: simulate_both(
            circ, sum(sizes), ref.run(ops, sum(sizes)), txt, ORDERS if case[2] < 0 else ORDERS[case[2]:][:1]), cov)
        cov.outcome("edits")
        return
    if kind == "seq":
        _, n, prep, depth, first = case
        A = ref.alphabet(n)
        head = (ref.generic(n) if prep else []) + [A[i] for i in first]
        v = ref.run(head, n)
        cov.state("s", n, prep, np.round(v, 9).tobytes())
        for last in A:
            ops = head + [last]
            circ = drive.build(dict(q=[n], ops=ops))
            simulate_both(circ, n, ref.apply(v, ref.cmatrix(last[0], last[1]), last[2], n), lambda: repr(ops))
            cov.step(2)
        cov.outcome("seq%d" % n)
        return
    if kind == "place":
        _, n, g = case
        nq, npar = ref.GATES[g]
        prep = ref.generic(n)
        vp = ref.run(prep, n)
        for qs in ref.placements(g, n):
            op = [g, list(ref.DEF[npar]), list(qs), None, None]
            circ = drive.build(dict(q=[n], ops=prep + [op]))
            exp = ref.apply(vp, ref.cmatrix(g, op[1]), qs, n)
            simulate_both(circ, n, exp, lambda: repr(prep + [op]))
            cov.state("p", n, g, qs)
            cov.step(2)
            if n <= 4:
                # every basis state of the qubits
                for basis in itertools.product((0, 1), repeat=n):
                    bops = [["X", [], [i], None, None] for i in range(n) if basis[i]] + [op]
                    circ = drive.build(dict(q=[n], ops=bops))
                    simulate_both(circ, n, ref.run(bops, n), lambda: repr(bops))
                    cov.step(2)
        cov.outcome("place")
        return
    if kind == "layout":
        lay = case[1]
        n = sum(lay)
        prep = ref.generic(n)
        vp = ref.run(prep, n)
        for op in ref.alphabet(n):
            circ = drive.build(dict(q=lay, ops=prep + [op]))
            simulate_both(circ, n, ref.apply(vp, ref.cmatrix(op[0], op[1]), op[2], n),
                          lambda: repr((lay, prep + [op])))
            cov.state("l", tuple(lay), op[0], tuple(op[2]))
            cov.step(2)
        cov.outcome("layout")
        return
    if kind == "angle":
        _, g, idx = case
        params = [GRID[i] for i in idx]
        nq = ref.GATES[g][0]
        n = nq + 1
        prep = ref.generic(n)
        vp = ref.run(prep, n)
        for qs in ref.placements(g, n):
            for typ in (float, np.float64, int, np.int32, lambda x: np.array(x)[()]):
                if typ in (int, np.int32) and any(p != int(p) for p in params):
                    continue
                op = [g, [typ(p) for p in params], list(qs), None, None]
                circ = drive.build(dict(q=[n], ops=prep + [op]))
                simulate_both(circ, n, ref.apply(vp, ref.matrix(g, params), qs, n), lambda: repr(op))
                cov.step(2)
            basis = [["X", [], [i], None, None] for i in qs[:-1]]
            circ = drive.build(dict(q=[n], ops=basis + [op]))
            simulate_both(circ, n, ref.run(basis + [op], n), lambda: repr(basis + [op]))
            cov.step(2)
        cov.state("a", g, tuple(idx))
        cov.outcome("angle")
        return
    if kind in ("big", "long", "shared", "kept", "confuse"):
        return globals()["run_" + kind](case, cov)
    if kind == "custom":
        return run_custom(case, cov)
    if kind == "cctl":
        return run_cctl(case, cov)
    raise AssertionError(case)


CUSTOM = [
    np.array([[0.6, 0.8j], [0.8j, 0.6]]),
    np.array([[0.6, -0.8], [0.8, 0.6]]),
    np.array([[0, 1], [1, 0]]),
    np.array([[1, 0], [0, -1]]),
    np.array([[0, -1j], [1, 0]]),
    np.array([[0.28 + 0.96j, 0], [0, 0.6 - 0.8j]]),
]


def _strided(M, dt):
    big = np.full((4, 4), 7, dtype=dt)
    big[::2, ::2] = M
    return big[::2, ::2]


LAYOUTS = {
    "C128": lambda M: np.array(M, dtype=np.complex128),
    "F128": lambda M: np.asfortranarray(np.array(M, dtype=np.complex128)),
    "transposed": lambda M: np.array(np.array(M, dtype=np.complex128).T, order="C").T,
    "strided": lambda M: _strided(M, np.complex128),
    "negstride": lambda M: np.array(M, dtype=np.complex128)[::-1, ::-1].copy()[::-1, ::-1],
    "readonly": lambda M: _ro(np.array(M, dtype=np.complex128)),
    "c64": lambda M: np.array(M, dtype=np.complex64),
    "f64": lambda M: np.array(M.real, dtype=np.float64),
    "f32": lambda M: np.array(M.real, dtype=np.float32),
    "int": lambda M: np.array(M.real, dtype=int),
    "int8": lambda M: np.array(M.real, dtype=np.int8),
    "bigendian": lambda M: np.array(M, dtype=">c16"),
}


def _ro(M):
    M.setflags(write=False)
    return M


def _value(kind, m):
    M = CUSTOM[m]
    A = LAYOUTS[kind](M)
    if not np.allclose(np.asarray(A, dtype=complex), M, atol=1e-6):
        return None, None  # not representable in this number type
    return A, np.asarray(A, dtype=np.complex128)


def run_big(case, cov):
    """Wide circuits: positions around both ends, all bits of the index in use."""
    _, n, g = case
    prep = ref.generic(n)
    vp = ref.run(prep, n)
    for j, qs in enumerate(ref.spread(g, n)):
        op = [g, list(ref.DEF[ref.GATES[g][1]]), list(qs), None, None]
        lays = ref.wide_layouts(n) if n >= 10 else [[n], [1, n - 1], [n - 2, 2]]
        circ = drive.build(dict(q=lays[j % len(lays)], ops=prep + [op]))
        simulate_both(circ, n, ref.apply(vp, ref.cmatrix(g, op[1]), qs, n), lambda: "%s on %d qubits" % (op, n))
        cov.state("b", n, g, qs)
        cov.step(2)
    cov.outcome("big")


def program(n, step, length):
    """A long program that walks over every gate placement with the given stride."""
    A = ref.alphabet(n)
    ops, i = ref.generic(n), 0
    while len(ops) < length:
        name, params, qs = A[i % len(A)][:3]
        ops.append([name, [p + 0.01 * (len(ops) % 17) for p in params], list(qs), None, None])
        i += step
    return ops


def run_kept(case, cov):
    """Many circuits and states alive at once; early ones simulated again at the end."""
    from dwave.gate.simulator import simulate

    _, n, m = case
    A = ref.alphabet(n)
    kept = []
    for i in range(m):
        name, params, qs = A[(7 * i) % len(A)][:3]
        ops = [["RY", [0.3 + 0.01 * i], [i % n], None, None], [name, [p + 0.02 * i for p in params], list(qs), None, None],
               ["RX", [0.2 + 0.015 * i], [(i + 1) % n], None, None]]
        circ = drive.build(dict(q=[n], ops=ops))
        simulate(circ)
        kept.append((circ, ref.run(ops, n), ops))
    for i, (circ, psi, ops) in enumerate(kept):
        require(ref.close(circ.state, psi), lambda: "circuit %d of %d: %s has state %s instead of %s" % (i, m, ops, circ.state, psi))
    for i in range(0, m, max(1, m // 40)):
        circ, psi, ops = kept[i]
        simulate_both(circ, n, psi, lambda: "circuit %d of %d again: %s" % (i, m, ops))
        simulate(circ)
    for i, (circ, psi, ops) in enumerate(kept):
        require(ref.close(circ.state, psi), lambda: "circuit %d of %d: %s has state %s instead of %s" % (i, m, ops, circ.state, psi))
    cov.state("kept", n, m)
    cov.step(m)
    cov.outcome("kept")


def run_long(case, cov):
    _, n, step = case
    for length in (20, 64, 65, 100, 128, 129, 257):
        ops = program(n, step, length)
        circ = drive.build(dict(q=[n], ops=ops))
        simulate_both(circ, n, ref.run(ops, n), lambda: "program of %d gates on %d qubits, stride %d" % (length, n, step))
        cov.state("lg", n, step, length)
        cov.step(2 * length)
    cov.outcome("long")


def run_shared(case, cov):
    """Operations built outside of any context and added with append and extend; the same object several times,
    and in two circuits at once."""
    _, n, step = case
    ops = program(n, step, len(ref.generic(n)) + 6)
    a, b = drive.new_circuit([n]), drive.new_circuit([n])
    made = [drive.make_op(o, list(a.qubits), []) for o in ops]
    for m in made[:3]:
        a.append(m)
    a.extend(made[3:])
    a.extend(made[-3:])
    a.append(made[-1])
    want = ops + ops[-3:] + [ops[-1]]
    simulate_both(a, n, ref.run(want, n), lambda: "appended and extended: %s" % want)
    # a second circuit on the same qubits, in another order of registers
    b.reset(keep_registers=False)
    order = list(a.qubits)[::-1]
    for q in order:
        b.add_qubit(q)
    b.extend(made)
    back = [[o[0], o[1], [n - 1 - i for i in o[2]], None, None] for o in ops]
    simulate_both(b, n, ref.run(back, n), lambda: "the same operations in a circuit of reversed qubits: %s" % ops)
    simulate_both(a, n, ref.run(want, n), lambda: "first circuit again: %s" % want)
    cov.state("sh", n, step)
    cov.step(6)
    cov.outcome("shared")


def run_confuse(case, cov):
    """The same gate with two parameters that are easily taken for one another."""
    _, g = case
    n, p = ref.GATES[g]
    for i in range(p):
        for x, y in itertools.permutations(ref.CONFUSABLE, 2):
            ops = ref.generic(n)
            for v in (x, y, x):
                ops = ops + [[g, [v if j == i else 0.3 + j for j in range(p)], list(range(n)), None, None]]
            circ = drive.build(dict(q=[n], ops=ops))
            simulate_both(circ, n, ref.run(ops, n), lambda: repr(ops))
            cov.step(2)
        cov.state("cf", g, i)
    cov.outcome("confuse")


def run_custom(case, cov):
    from dwave.gate.mixedproperty import mixedproperty
    from dwave.gate.operations import Operation

    _, kind, m = case
    A, M = _value(kind, m)
    if A is None:
        cov.outcome("unrepresentable")
        return

    class Custom(Operation):
        _num_qubits = 1

        @mixedproperty
        def matrix(cls):
            return A

    orig = np.array(A, copy=True)
    for n in (1, 2, 3):
        prep = ref.generic(n)
        vp = ref.run(prep, n)
        for q in range(n):
            circ = drive.new_circuit([n])
            with circ.context:
                Q = list(circ.qubits)
                for o in prep:
                    drive.make_op(o, Q, [])
                Custom(Q[q])
            simulate_both(circ, n, ref.apply(vp, M, [q], n), lambda: "custom %s %s on %d" % (kind, M.tolist(), q))
            require(np.array_equal(A, orig), "simulating changed the matrix of a custom gate")
            cov.step(2)
            cov.state("c", kind, m, n, q)
    cov.outcome("custom")


def run_cctl(case, cov):
    """Custom controlled gates with one or two controls."""
    from dwave.gate.mixedproperty import mixedproperty
    from dwave.gate.operations import Operation
    from dwave.gate.operations.base import ControlledOperation

    _, nctl, m = case
    for kind in sorted(LAYOUTS):
        A, M = _value(kind, m)
        if A is None:
            continue

        class Target(Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                return A

        class Ctl(ControlledOperation):
            _num_control = nctl
            _num_target = 1
            _target_operation = Target

        U = np.eye(2 ** (nctl + 1), dtype=complex)
        U[-2:, -2:] = M
        for n in (nctl + 1, nctl + 2):
            prep = ref.generic(n)
            vp = ref.run(prep, n)
            for qs in itertools.permutations(range(n), nctl + 1):
                circ = drive.new_circuit([n])
                with circ.context:
                    Q = list(circ.qubits)
                    for o in prep:
                        drive.make_op(o, Q, [])
                    Ctl([Q[i] for i in qs[:nctl]], Q[qs[-1]])
                simulate_both(circ, n, ref.apply(vp, U, qs, n), lambda: "controlled custom %s" % (qs,))
                cov.step(2)
                cov.state("cc", nctl, kind, m, n, qs)
    cov.outcome("cctl")


EXPECT_OUTCOMES = ("edits", "big", "long", "kept", "shared", "place", "layout", "angle", "custom", "cctl", "seq1", "seq2", "seq3")
