"""C14: unitary builders embed gates on the right qubits."""
import itertools

import numpy as np

from mc import edits, drive, ref
from mc.core import require

PROPERTY = "C14"
RULE = (
    "every history of the stated depth of adding, appending again, removing and moving operations between uses (`edits`); every sequence of distinct control qubits (every subset in every order), target and width up to the stated "
    "number of qubits x several asymmetric unitaries and argument forms, every overlapping, out-of-range (also "
    "negative) or multi-target request; every circuit of the stated length over all single-qubit and (multi-)controlled "
    "gates; control sequences and circuits on larger widths (positions of several digits), long circuits; many matrices alive at once (`kept`); every history of appending, removing, resetting and building of the stated depth, and every short one repeated, the matrix compared "
    "after every step with the ordered product of the embedded gates"
)
BOUNDS = {
    "quick": dict(edits=4, width=5, sizes=((1, 2), (2, 2), (3, 2)), depth=5, loop=(3, 6), wide=(9, 10, 11), kept=(65, 300)),
    "thorough": dict(edits=5, width=7, sizes=((1, 4), (2, 3), (3, 2), (4, 2)), depth=7, loop=(4, 6), wide=(8, 9, 10, 11), kept=(9, 17, 33, 65, 101, 130, 257, 300, 520, 1030)),
}
ASSUMPTIONS = ["repeated control qubits are not claimed",
               "circuits with gates the builder does not support must be refused or built correctly"]

UNITARIES = [
    ref.matrix("Rotation", (0.4, 1.1, -0.9)),
    ref.matrix("Hadamard") @ ref.matrix("S"),
    ref.matrix("X"),
    1j * ref.matrix("T") @ ref.matrix("RX", (0.3,)),
]


def generate(b):
    for acts, k in edits.histories(b["edits"]):
        yield ["edits", acts, k]
    for n in range(1, b["width"] + 1):
        for t in range(n):
            others = [q for q in range(n) if q != t]
            for k in range(0, n):
                for cs in itertools.combinations(others, k):
                    yield ["cu", n, list(cs), t]
    for n in range(1, b["width"] + 1):
        yield ["bad", n]
    for n in b["wide"]:
        for i in range(len(wide_tuples(n))):
            yield ["wide", n, i]
        yield ["widecircuit", n]
    for m in b["kept"]:
        yield ["kept", m]
    for n in (1, 2, 3, 4):
        for k in range(4):
            yield ["long", n, k]
    for g in ref.GATES:
        if ref.GATES[g][1] and g in UNITARY_GATES:
            yield ["confuse", g]
    for n, k in b["sizes"]:
        N = len(gates(n))
        for l in range(0, k + 1):
            for idx in itertools.product(range(N), repeat=l):
                yield ["circuit", n, list(idx)]
    for d in range(1, b["depth"] + 1):
        for acts in itertools.product(range(len(ACTS)), repeat=d):
            # histories differ only after the first step
            yield ["history", list(acts)]
    for k in range(1, b["loop"][0] + 1):
        for word in itertools.product(range(len(ACTS)), repeat=k):
            yield ["history", list(word) * b["loop"][1]]


UNITARY_GATES = [g for g in ref.GATES if g in ref.ONE or g in ref.CONTROLLED]
ACTS = ["h0", "cx10", "crx01", "remove", "reset", "mutate"]
HIST = {"h0": ["Hadamard", [], [0], None, None], "cx10": ["CX", [], [1, 0], None, None],
        "crx01": ["CRX", [0.8], [0, 1], None, None]}

_gates = {}
_extra = {}


def prepare():
    import dwave.gate.operations as ops
    from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation

    class CCS(ControlledOperation):
        _num_control = 2
        _num_target = 1
        _target_operation = ops.S

    class CCRY(ParametricControlledOperation):
        _num_control = 2
        _num_target = 1
        _num_params = 1
        _target_operation = ops.RY

    _extra.update(CCS=CCS, CCRY=CCRY)


EXTRA = {"CCS": ("S", []), "CCRY": ("RY", [0.6])}


def gates(n):
    if n not in _gates:
        out = ref.alphabet(n, [g for g in ref.GATES if g in ref.ONE or g in ref.CONTROLLED])
        if n > 2:
            for g, (_, p) in EXTRA.items():
                out += [[g, p, list(q), None, None] for q in itertools.permutations(range(n), 3)]
        if n > 3:
            out = [o for i, o in enumerate(out) if i % 3 == 0]
        _gates[n] = out
    return _gates[n]


def op_matrix(o):
    if o[0] in EXTRA:
        t, p = EXTRA[o[0]]
        M = np.eye(8, dtype=complex)
        M[6:, 6:] = ref.matrix(t, p)
        return M
    return ref.cmatrix(o[0], o[1])


def product(ops, n):
    U = np.eye(2 ** n, dtype=complex)
    for o in ops:
        U = ref.apply(U, op_matrix(o), o[2], n)
    return U


def mk(o, Q):
    if o[0] in EXTRA:
        c = _extra[o[0]]
        qs = [Q[i] for i in o[2]]
        return c(o[1], qubits=qs) if o[1] else c(qubits=qs)
    return drive.make_op(o, Q, [])


def run_case(case, cov):
    globals()["do_" + case[0]](*case[1:], cov)
    cov.outcome(case[0])


def controlled(cs, t, U, n):
    k = len(cs)
    M = np.eye(2 ** (k + 1), dtype=complex)
    M[-2:, -2:] = U
    return ref.embed(M, list(cs) + [t], n)


def do_cu(n, cs, t, cov):
    from dwave.gate.tools.unitary import build_controlled_unitary

    for i, U in enumerate(UNITARIES):
        E = controlled(cs, t, U, n)
        for perm in itertools.permutations(cs):
            u = U.copy()
            forms = [(list(perm), [t]), (tuple(perm), t)]
            if len(cs) == 1:
                forms.append((perm[0], (t,)))
            for c, tt in forms:
                M = build_controlled_unitary(c, tt, u, n)
                require(M.shape == E.shape and ref.close(M, E),
                        lambda: "controls %s target %s of %d, unitary %d: %s" % (c, tt, n, i, M.tolist()))
                M[:] = 0
            require(ref.close(u, U), lambda: "controls %s target %s: the given unitary changed" % (perm, t))
            m = max(list(cs) + [t])
            if i == 0:
                M = build_controlled_unitary(list(perm), t, u)
                require(ref.close(M, controlled(cs, t, U, m + 1)),
                        lambda: "controls %s target %s without a width: %s" % (perm, t, M.tolist()))
            cov.state("cu", n, perm, t, i)
            cov.step(len(forms))
    # a real unitary
    R = np.array([[0.6, -0.8], [0.8, 0.6]])
    for dt in (complex, float):
        M = build_controlled_unitary(list(cs), t, R, n, dt)
        require(ref.close(M, controlled(cs, t, R, n)), lambda: "real unitary, controls %s target %s: %s" % (cs, t, M.tolist()))
    # types of numbers of the unitary and of the result
    for V in (R, np.array([[0, 1], [1, 0]]), np.array([[0, 1], [-1, 0]], dtype=np.int8),
              np.array([[0, 1], [1, 0]], dtype=bool), np.asfortranarray(UNITARIES[0]), np.diag([1, 1j]).astype(np.complex64)):
        for kw in ({}, dict(dtype=complex), dict(dtype=np.complex64), dict(dtype=np.clongdouble)):
            M = build_controlled_unitary(list(cs), t, V, num_qubits=n, **kw)
            want = controlled(cs, t, np.asarray(V, dtype=complex), n)
            require(M.dtype == np.dtype(kw.get("dtype", complex)) and ref.close(M, want, 1e-6 if "64" in str(kw) else 1e-12),
                    lambda: "unitary %r, controls %s target %s, %s: %s" % (V, cs, t, kw, M.tolist()))


def wide_tuples(n):
    """Control sequences and targets with positions of several digits."""
    out = []
    for k in (1, 2, 3):
        pos = [p for p in (0, 2, 8, 9, 10) if p < n]
        for qs in itertools.permutations(pos, k + 1):
            if k < 2 or (sorted(qs)[-1] == n - 1 and (sum(qs) + qs[0]) % 3 == 0 and k + sum(qs[:2]) % 2 < 4):
                out.append(list(qs))
    out.append(list(range(n)))
    out.append(list(range(n))[::-1])
    out.append([q for q in range(n) if q != 1] + [1])
    return out[::1 if n < 10 else 3 if n < 11 else 9]


def do_wide(n, i, cov):
    from dwave.gate.tools.unitary import build_controlled_unitary

    qs = wide_tuples(n)[i]
    U = UNITARIES[i % len(UNITARIES)]
    M = build_controlled_unitary(qs[:-1], qs[-1], U, n)
    require(ref.close(M, controlled(qs[:-1], qs[-1], U, n)), lambda: "controls %s target %s of %d: wrong matrix" % (qs[:-1], qs[-1], n))
    cov.state("wide", n, i)
    cov.step()


def do_confuse(g, cov):
    """The same gate with two parameters that are easily taken for one another."""
    from dwave.gate.tools.unitary import build_unitary

    n, p = ref.GATES[g]
    for i in range(p):
        for x, y in itertools.permutations(ref.CONFUSABLE, 2):
            ops = [[g, [v if j == i else 0.3 + j for j in range(p)], list(range(n)), None, None] for v in (x, y, x)]
            M = build_unitary(drive.build(dict(q=[n], ops=ops)))
            require(ref.close(M, product(ops, n)), lambda: "unitary of %s is wrong" % ops)
            cov.step(3)
        cov.state("confuse", g, i)


def do_kept(m, cov):
    """Many matrices requested one after another, compared at the end; the same requests once more."""
    from dwave.gate.tools.unitary import build_controlled_unitary, build_unitary

    want, got = [], []
    req = []
    for i in range(m):
        n = 2 + i % 3
        p = list(itertools.permutations(range(n), 2 + (i // 3) % (n - 1)))
        qs = list(p[i % len(p)])
        U = ref.matrix("Rotation", (0.01 * i, 1 + 0.02 * i, -0.4))
        req.append((qs[:-1], qs[-1], U, n))
        want.append(controlled(qs[:-1], qs[-1], U, n))
    for _ in range(2):
        got += [build_controlled_unitary(*r) for r in req]
    for i, (M, E) in enumerate(zip(got, want * 2)):
        require(ref.close(M, E), lambda: "request %d of %d: controls %s target %s of %d" % (i, 2 * m, *req[i % m][:2], req[i % m][3]))
    kept = []
    for i in range(m):
        n = 1 + i % 3
        G = gates(n)
        ops = [["RX", [0.01 * i], [0], None, None], G[(5 * i) % len(G)], ["RZ", [0.4 + 0.02 * i], [n - 1], None, None]]
        circ = drive.new_circuit([n])
        with circ.context:
            for o in ops:
                mk(o, list(circ.qubits))
        kept.append((circ, build_unitary(circ), product(ops, n), ops))
    for circ, M, E, ops in kept:
        require(ref.close(M, E), lambda: "one of %d circuits, %s: wrong matrix" % (m, ops))
        require(ref.close(build_unitary(circ), E), lambda: "one of %d circuits, %s, again: wrong matrix" % (m, ops))
        cov.step(4)
    cov.state("kept", m)


def do_widecircuit(n, cov):
    from dwave.gate.tools.unitary import build_unitary

    ops = [["RX", [0.7], [n - 1], None, None], ["CRY", [0.9], [n - 1, 2], None, None], ["T", [], [2], None, None],
           ["CX", [], [2, n - 2], None, None], ["Hadamard", [], [0], None, None], ["CRotation", [0.3, 0.8, -1], [0, n - 1], None, None]]
    circ = drive.fill(drive.new_circuit([3, n - 3]), ops)
    require(ref.close(build_unitary(circ), product(ops, n)), lambda: "unitary of %s on %d qubits" % (ops, n))
    cov.state("widecircuit", n)
    cov.step(len(ops))


def do_long(n, k, cov):
    """Long circuits: every gate once, in several orders, the unitary after every tenth operation."""
    from dwave.gate.tools.unitary import build_unitary

    G = gates(n)
    step = (1, 5, 7, 11)[k]
    ops = [G[(i * step + k) % len(G)] for i in range(min(len(G), 120))]
    circ = drive.new_circuit([n])
    for i in range(0, len(ops), 10):
        circ.unlock()
        with circ.context:
            for o in ops[i:i + 10]:
                mk(o, list(circ.qubits))
        require(ref.close(build_unitary(circ), product(ops[:i + 10], n)),
                lambda: "unitary of %d operations %s" % (len(circ.circuit), ops[:i + 10]))
        cov.step(10)
    cov.state("long", n, k)


def do_bad(n, cov):
    from dwave.gate.tools.unitary import build_controlled_unitary

    U = UNITARIES[0]

    def refused(c, t, w):
        u = U.copy()
        try:
            M = build_controlled_unitary(c, t, u, *([] if w is None else [w]))
        except (ValueError, NotImplementedError, IndexError, TypeError):
            cov.outcome("refused")
            cov.step()
            return
        require(False, lambda: "controls %s target %s of %s: accepted with matrix %s" % (c, t, w, np.asarray(M).tolist()))

    idx = list(range(-n - 1, n + 2))
    for t in idx:
        for k in range(1, 3 if n > 3 else 4):
            for cs in itertools.combinations(idx, k):
                if all(0 <= x < n for x in list(cs) + [t]) and t not in cs:
                    continue
                refused(list(cs), t, n)
                if t in cs or min(list(cs) + [t]) < 0:
                    refused(list(cs), t, None)
                if k == 1:
                    refused(cs[0], t, n)
        cov.state("bad", n, t)
    if n > 2:
        for ts in itertools.permutations(range(n), 2):
            for c in range(n):
                refused([c], list(ts), n)
    refused([0], [], n)


def do_circuit(n, idx, cov):
    from dwave.gate.tools.unitary import build_unitary

    ops = [gates(n)[i] for i in idx]
    E = product(ops, n)
    for layout in ([n], [1, n - 1]) if n > 1 and len(idx) < 3 else ([n],):
        circ = drive.new_circuit(layout)
        with circ.context:
            Q = list(circ.qubits)
            for o in ops:
                mk(o, Q)
        snap = drive.snapshot(circ)
        for k in range(2):
            M = build_unitary(circ)
            require(ref.close(M, E), lambda: "unitary of %s (layout %s, call %d): %s" % (ops, layout, k, np.asarray(M).tolist()))
            M[:] = 0
        require(drive.snapshot(circ) == snap, lambda: "building the unitary of %s changed the circuit" % ops)
    # an additional qubit
    if len(idx) < 3:
        circ.unlock()
        circ.add_qregister(1)
        M = build_unitary(circ)
        require(ref.close(M, np.kron(E, np.eye(2))), lambda: "unitary of %s after adding a qubit: %s" % (ops, M.tolist()))
    # multi-qubit gates without controls: refused or correct
    if len(idx) == 1 and n in (2, 3):
        for g in ("SWAP", "CCX", "CSWAP"):
            k = ref.GATES[g][0]
            if k > n:
                continue
            for qs in itertools.permutations(range(n), k):
                circ = drive.new_circuit([n])
                more = ops + [[g, [], list(qs), None, None]]
                with circ.context:
                    for o in more:
                        mk(o, list(circ.qubits))
                try:
                    M = np.asarray(build_unitary(circ))
                except Exception:
                    cov.outcome("unsupported")
                    continue
                require(ref.close(M, product(more, n)), lambda: "unitary of %s: %s" % (more, M.tolist()))
    cov.state("circuit", n, tuple(idx))
    cov.step(len(idx) + 1)


def do_edits(acts, k, cov):
    from dwave.gate.tools.unitary import build_unitary

    def use(circ, ops, sizes, txt):
        M = build_unitary(circ)
        require(ref.close(M, product(ops, sum(sizes))), lambda: "%s the circuit is %s but its unitary %s" % (txt(), ops, M.tolist()))

    edits.run(acts, use, cov)


def do_history(acts, cov):
    from dwave.gate.tools.unitary import build_unitary

    circ = drive.new_circuit([1, 1])
    model = []
    Q = list(circ.qubits)
    for i, a in enumerate(acts):
        a = ACTS[a]
        if a in HIST:
            circ.unlock()
            with circ.context:
                mk(HIST[a], Q)
            model.append(HIST[a])
        elif a == "remove":
            if model:
                circ.remove(circ.circuit[-1])
                # the first equal operation goes
                model.remove(model[-1])
        elif a == "reset":
            circ.reset()
            model.clear()
        elif a == "mutate":
            build_unitary(circ)[:] = 9
        M = build_unitary(circ)
        require(ref.close(M, product(model, 2)),
                lambda: "after %s the circuit is %s but its unitary %s" % ([ACTS[x] for x in acts[:i + 1]], model, M.tolist()))
        cov.state("history", repr(model))
        cov.step()


EXPECT_OUTCOMES = ("edits", "wide", "kept", "widecircuit", "long", "cu", "bad", "circuit", "history", "refused")
