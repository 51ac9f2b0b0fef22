"""C02: density-matrix results agree with the state vector."""
import itertools

import numpy as np

from mc import edits, drive, ref
from mc.core import require

PROPERTY = "C02"
RULE = (
    "every history of the stated depth of adding, appending again, removing and moving operations between uses (`edits`); every measurement-free gate sequence of the stated depth over {every gate} x {ordered qubit tuples}, "
    "with and without dense complex preparation and preset-bit conditions, simulated as density matrix and "
    "as state vector in both qubit orderings, in every order of the four simulations, on every register "
    "layout; wide, long and shared circuits; many circuits alive at once (`kept`); confusable parameters; each density matrix compared with the outer product of the reference state"
)
BOUNDS = {
    "quick": dict(edits=4, seq={1: 3, 2: 2, 3: 1}, plain={1: 3, 2: 2, 3: 1}, place=[1, 2, 3, 4, 5], layouts=4, cond=3, long=3, kept=(65, 300)),
    "thorough": dict(edits=5, seq={1: 4, 2: 3, 3: 2}, plain={1: 4, 2: 3, 3: 2}, place=[1, 2, 3, 4, 5, 6], layouts=5, cond=3, long=12, kept=(9, 10, 11, 17, 33, 65, 101, 130, 257, 300, 520, 1030)),
}
ASSUMPTIONS = ["entries compared with absolute tolerance 1e-9"]

GRID = [0, -0.0, 0.3, -1.3, np.pi / 2, np.pi, 2 * np.pi, 7.9, 3e-3, 2e-5, 4e-8]


def generate(b):
    for acts, k in edits.histories(b["edits"], 4):
        yield ["edits", acts, k]
    for perm in itertools.permutations(range(4)):
        for n in (1, 2, 3):
            yield ["orders", n, list(perm)]
    for n in b["place"]:
        for i in range(len(ref.alphabet(n))):
            yield ["place", [n], i]
    for n in range(2, b["layouts"] + 1):
        for lay in ref.compositions(n, 3):
            if len(lay) > 1:
                for i in range(len(ref.alphabet(n))):
                    yield ["place", lay, i]
    for n in range(1, b["cond"] + 1):
        for i in range(len(ref.alphabet(n))):
            yield ["cond", n, i]
    for k in range(4):
        yield ["custom", k]
    for g, (n, p) in ref.GATES.items():
        for idx in itertools.product(range(len(GRID)), repeat=p):
            if p:
                yield ["angle", g, list(idx)]
    for n in (1, 2, 3, 4):
        for step in range(1, b["long"] + 1):
            yield ["long", n, step]
    for n in (1, 2, 3):
        for m in b["kept"]:
            yield ["kept", n, m]
    for prep, key in ((1, "seq"), (0, "plain")):
        for n, depth in b[key].items():
            N = len(ref.alphabet(n))
            for first in itertools.product(range(N), repeat=depth - 1):
                yield ["seq", n, prep, list(first)]


def expect(circ, n, psi, mixed, le, what):
    from dwave.gate.circuit import CircuitError
    from dwave.gate.simulator import simulate

    simulate(circ, mixed_state=mixed, little_endian=le)
    e = ref.reverse(psi, n) if le else psi
    R = ref.rho(e)
    txt = lambda: "%s (mixed=%s, little_endian=%s)" % (what(), mixed, le)
    if mixed:
        try:
            s = circ.state
        except CircuitError:
            s = None
        else:
            require(False, lambda: txt() + ": asking for the pure state after a mixed simulation gave %r" % (s,))
        D = circ.density_matrix
    else:
        require(ref.close(circ.state, e), lambda: txt() + ": wrong state")
        D = circ.density_matrix
        require(ref.close(circ.state, e), lambda: txt() + ": reading the density matrix changed the state")
    require(D is not None and ref.close(D, R),
            lambda: txt() + ": density matrix %s instead of %s" % (np.round(D, 5).tolist(), np.round(R, 5).tolist()))
    require(abs(np.trace(D) - 1) < 1e-9 and ref.close(D, D.conj().T) and np.linalg.eigvalsh(D).min() > -1e-9,
            lambda: txt() + ": not a density matrix")


ALL = [(True, False), (True, True), (False, False), (False, True)]


def run_case(case, cov):
    kind = case[0]
    if kind == "edits":
        def use(circ, ops, sizes, txt):
            psi = ref.run(ops, sum(sizes))
            for m, le in ALL if case[2] < 0 else [ALL[case[2]]]:
                expect(circ, sum(sizes), psi, m, le, txt)

        edits.run(case[1], use, cov)
        cov.outcome("edits")
    elif kind == "seq":
        _, n, prep, first = case
        A = ref.alphabet(n)
        head = (ref.generic(n) if prep else []) + [A[i] for i in first]
        v = ref.run(head, n)
        cov.state("s", n, prep, np.round(v, 9).tobytes())
        for last in A:
            ops = head + [last]
            circ = drive.build(dict(q=[n], ops=ops))
            psi = ref.apply(v, ref.cmatrix(last[0], last[1]), last[2], n)
            for m, le in ALL:
                expect(circ, n, psi, m, le, lambda: repr(ops))
                cov.step()
    elif kind == "place":
        _, lay, i = case
        n = sum(lay)
        op = ref.alphabet(n)[i]
        ops = ref.generic(n) + [op]
        circ = drive.build(dict(q=lay, ops=ops))
        psi = ref.run(ops, n)
        for m, le in ALL:
            expect(circ, n, psi, m, le, lambda: repr((lay, ops)))
            cov.step()
        cov.state("p", tuple(lay), i)
    elif kind == "orders":
        _, n, perm = case
        ops = ref.generic(n)
        circ = drive.build(dict(q=[n], ops=ops))
        psi = ref.run(ops, n)
        for k in perm:
            expect(circ, n, psi, ALL[k][0], ALL[k][1], lambda: "order %s of simulations of %r" % (perm, ops))
            cov.step()
            cov.state("o", n, tuple(perm), k)
    elif kind == "cond":
        # conditions on bits with preset values (unset, 0, 1)
        _, n, i = case
        op = ref.alphabet(n)[i]
        for vals in itertools.product((None, 0, 1), repeat=2):
            for conds in ([0], [1], [0, 1]):
                cop = op[:4] + [conds]
                ops = ref.generic(n)
                circ = drive.build(dict(q=[n], c=[2], ops=ops + [cop]))
                for b, v in zip(circ.bits, vals):
                    if v is not None:
                        b.set(v)
                on = all(vals[c] == 1 for c in conds)
                psi = ref.run(ops + ([op] if on else []), n)
                for m, le in ALL:
                    expect(circ, n, psi, m, le, lambda: repr((vals, ops + [cop])))
                    cov.step()
                require(drive.bitvals(circ) == list(vals), "simulating changed bits that are not measured")
                cov.state("c", n, i, vals, tuple(conds))
                cov.outcome("executed" if on else "blocked")
    elif kind == "angle":
        _, g, idx = case
        n = ref.GATES[g][0]
        for qs in itertools.permutations(range(n)):
            for prep in (ref.generic(n), [["X", [], [i], None, None] for i in range(n - 1)]):
                ops = prep + [[g, [GRID[i] for i in idx], list(qs), None, None]]
                circ = drive.build(dict(q=[n], ops=ops))
                psi = ref.run(ops, n)
                for m, le in ALL:
                    expect(circ, n, psi, m, le, lambda: repr(ops))
                    cov.step()
        cov.state("a", g, tuple(idx))
    elif kind == "kept":
        from dwave.gate.simulator import simulate

        _, n, m = case
        A = ref.alphabet(n)
        kept = []
        for i in range(m):
            name, params, qs = A[(7 * i) % len(A)][:3]
            ops = [["RY", [0.3 + 0.01 * i], [i % n], None, None], [name, [p + 0.02 * i for p in params], list(qs), None, None],
                   ["RX", [0.2 + 0.015 * i], [(i + 1) % n], None, None]]
            circ = drive.build(dict(q=[n], ops=ops))
            mixed, le = ALL[i % len(ALL)]
            simulate(circ, mixed_state=mixed, little_endian=le)
            psi = ref.run(ops, n)
            kept.append((circ, ref.rho(ref.reverse(psi, n) if le else psi)))
        for i, (circ, rho) in enumerate(kept):
            require(ref.close(circ.density_matrix, rho), lambda: "circuit %d of %d has another density matrix, %s" % (
                i, m, circ.density_matrix.tolist()))
            cov.step()
        cov.state("kept", n, m)
        cov.outcome("kept")
    elif kind == "long":
        from checks.c01 import program

        _, n, step = case
        for length in (20, 65, 130):
            ops = program(n, step, length)
            circ = drive.build(dict(q=[1] * n if step % 2 else [n], ops=ops))
            psi = ref.run(ops, n)
            for m, le in ALL:
                expect(circ, n, psi, m, le, lambda: "program of %d gates on %d qubits, stride %d" % (length, n, step))
                cov.step(length)
            cov.state("lg", n, step, length)
    elif kind == "custom":
        from dwave.gate.mixedproperty import mixedproperty
        from dwave.gate.operations import Operation
        from dwave.gate.operations.base import ControlledOperation

        M = [np.array([[0.6, 0.8j], [0.8j, 0.6]]), np.array([[0, -1j], [1, 0]]), np.array([[0.0, 1], [1, 0]]),
             np.array([[0.28 + 0.96j, 0], [0, 0.6 - 0.8j]]).T][case[1]]

        class Custom(Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                return M

        class Ctl(ControlledOperation):
            _num_control = 1
            _num_target = 1
            _target_operation = Custom

        class Ctl2(ControlledOperation):
            _num_control = 2
            _num_target = 1
            _target_operation = Custom

        for n in (1, 2, 3):
            prep = ref.generic(n)
            vp = ref.run(prep, n)
            for cls, k in ((Custom, 1), (Ctl, 2), (Ctl2, 3)):
                U = np.eye(2 ** k, dtype=complex)
                U[-2:, -2:] = M
                for qs in itertools.permutations(range(n), k):
                    circ = drive.new_circuit([n])
                    with circ.context:
                        Q = list(circ.qubits)
                        for o in prep:
                            drive.make_op(o, Q, [])
                        cls(qubits=[Q[i] for i in qs])
                    for m, le in ALL:
                        expect(circ, n, ref.apply(vp, U, qs, n), m, le, lambda: "custom %s" % (qs,))
                        cov.step()
                    cov.state("u", case[1], n, k, qs)
    cov.outcome(kind)


EXPECT_OUTCOMES = ("edits", "angle", "long", "kept", "place", "orders", "cond", "custom", "seq", "executed", "blocked")
