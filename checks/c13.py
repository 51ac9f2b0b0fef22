"""C13: an operation created from a circuit acts as that circuit."""
import itertools
import warnings

import numpy as np

from mc import drive, ref
from mc.core import require

PROPERTY = "C13"
RULE = (
    "every source circuit of the stated length and width over all single-qubit and single-control gates on every "
    "ordered tuple of qubits (several register layouts), and every parametric source circuit over an alphabet with "
    "shared, repeated and permuted variables, all value tuples, larger numbers of variables (each used repeatedly, in several orders), wider and longer sources; many created operations and instances alive at once (`kept`); class and instance matrices (repeated, mutated, in "
    "and outside of contexts, interleaved with a second operation of the same name) compared with the product of the "
    "gates; single-qubit operations used in circuits on every qubit (plain, parametric, conditional, controlled, "
    "inside another created operation) and the simulated state compared"
)
BOUNDS = {
    "quick": dict(sizes=((1, 2), (2, 2), (3, 2)), plen=2, use_len=2, many=(4, 10, 11, 13, 21), wide=(4, 5, 7), kept=(17, 65, 130)),
    "thorough": dict(sizes=((1, 4), (2, 3), (3, 2)), plen=3, use_len=3, many=(4, 7, 10, 11, 12, 13, 21, 101, 130), wide=(4, 5, 6, 7, 8, 9, 10, 11), kept=(9, 10, 11, 17, 33, 65, 101, 130, 257, 300)),
}
ASSUMPTIONS = [
    "source circuits consist of single-qubit and single-control gates and are not modified afterwards",
    "two-qubit created operations cannot be simulated by the repository and are compared by matrix",
]

V = lambda i: {"v": i}  # noqa: E731
VALS = (0.6, 0, -1.7)


def gates(n):
    return ref.alphabet(n, [g for g in ref.GATES if g in ref.ONE or g in ref.CONTROLLED])


def pgates(n):
    out = [
        ["RX", [V(0)], [0], None, None], ["RY", [V(1)], [n - 1], None, None], ["RZ", [V(2)], [0], None, None],
        ["Rotation", [V(1), V(0), V(1)], [n - 1], None, None], ["Rotation", [0.3, V(2), V(0)], [0], None, None],
        ["Rotation", [V(0), V(1), V(2)], [0], None, None], ["RX", [0.9], [n - 1], None, None],
        ["Hadamard", [], [0], None, None],
    ]
    if n > 1:
        out += [["CRX", [V(1)], [1, 0], None, None], ["CRY", [V(0)], [0, 1], None, None],
                ["CRotation", [V(2), -0.8, V(1)], [1, 0], None, None], ["CX", [], [0, 1], None, None]]
    return out


def nvars(ops):
    return 1 + max([p["v"] for o in ops for p in o[1] if isinstance(p, dict)], default=-1)


def subst(ops, vals):
    return [[o[0], [vals[p["v"]] if isinstance(p, dict) else p for p in o[1]], o[2], None, None] for o in ops]


def generate(b):
    for n, k in b["sizes"]:
        N = len(gates(n))
        for l in range(0, k + 1):
            for idx in itertools.product(range(N), repeat=l):
                yield ["plain", n, list(idx)]
    for n in (1, 2):
        N = len(pgates(n))
        for l in range(1, b["plen"] + 1):
            for idx in itertools.product(range(N), repeat=l):
                if nvars([pgates(n)[i] for i in idx]):
                    yield ["param", n, list(idx)]
                    if l == 1:
                        yield ["confuse", n, list(idx)]
    for m in b["many"]:
        for k in range(6):
            yield ["many", m, k]
    for n in b["wide"]:
        for k in range(4):
            yield ["big", n, k]
    for m in b["kept"]:
        for how in ("plain", "param", "named"):
            yield ["kept", m, how]
    N = len(gates(1))
    for idx in itertools.product(range(N), repeat=b["use_len"]):
        yield ["use", list(idx)]
    N = len(pgates(1))
    for l in range(1, b["use_len"] + 1):
        for idx in itertools.product(range(N), repeat=l):
            if nvars([pgates(1)[i] for i in idx]):
                yield ["puse", list(idx)]


def layouts(n):
    return {1: [[1]], 2: [[2], [1, 1]], 3: [[3], [1, 2]]}[n]


def source(n, layout, ops, cls=None, m=0):
    circ = drive.new_circuit(layout, (), cls)
    with circ.context as reg:
        if m:
            reg.p[m - 1]
        Q = list(circ.qubits)
        for o in ops:
            drive.make_op(o, Q, [], getattr(reg, "p", None))
    return circ


def same(M, E, txt):
    M = np.asarray(M)
    require(M.shape == E.shape and ref.close(M, E), lambda: "%s: matrix %s instead of %s" % (txt(), M.tolist(), E.tolist()))


def run_case(case, cov):
    globals()["do_" + case[0]](*case[1:], cov)
    cov.outcome(case[0])


def do_plain(n, idx, cov):
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation

    ops = [gates(n)[i] for i in idx]
    E = ref.unitary(ops, n)
    other_ops = [["RY", [0.4], [0], None, None], ["RZ", [-0.7], [n - 1], None, None]]
    E2 = ref.unitary(other_ops, n)
    txt = lambda: "operation from %d-qubit circuit %s" % (n, ops)  # noqa: E731
    for layout in layouts(n) if len(idx) < 2 else layouts(n)[len(idx) - 2:][:1]:
        circ = source(n, layout, ops)
        snap = drive.snapshot(circ)
        name = ["Op", None][len(idx) % 2]
        Op = create_operation(circ, name) if name else create_operation(circ)
        Other = create_operation(source(n, [n], other_ops), name)
        require(Op.num_qubits == n and Op().num_qubits == n, lambda: "%s has %s qubits" % (txt(), Op.num_qubits))
        require(not hasattr(Op, "num_parameters"), lambda: "%s has parameters" % txt())
        if name:
            require(Op.name == name and Op.__name__ == name, lambda: "%s is called %s" % (txt(), Op.name))
        same(Op.matrix, E, txt)
        same(Other.matrix, E2, lambda: "second operation")
        m = Op.matrix
        if m.flags.writeable:
            m[:] = 0
        same(Op.matrix, E, txt)
        inst = Op(list(circ.qubits))
        bare = Op()
        same(inst.matrix, E, txt)
        m = bare.matrix
        if m.flags.writeable:
            m[:] = 5
        same(bare.matrix, E, txt)
        same(inst.matrix, E, txt)
        same(Other().matrix, E2, lambda: "second operation")
        require(drive.snapshot(circ) == snap, lambda: "%s: the source circuit changed" % txt())
        outer = Circuit(n + 1)
        with outer.context as (q, _):
            x = Op(list(q)[1:])
            same(x.matrix, E, lambda: txt() + " in an open context")
            same(Op.matrix, E, lambda: txt() + " in an open context")
            same(inst.matrix, E, lambda: txt() + " in an open context")
        require([id(o) for o in outer.circuit] == [id(x)], lambda: "%s: recorded %s" % (txt(), outer.circuit))
        for bad in (list(outer.qubits)[:n - 1], list(outer.qubits)[: n + 1]):
            try:
                Op(bad)
                require(False, lambda: "%s accepts %d qubits" % (txt(), len(bad)))
            except ValueError:
                pass
        if len(idx) < 2:
            # a parametric circuit without variables
            c = source(n, layout, ops, ParametricCircuit)
            same(create_operation(c).matrix, E, lambda: txt() + " (parametric circuit without variables)")
    cov.state("plain", n, tuple(idx))
    cov.step(len(idx) + 1)


def do_param(n, idx, cov):
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation

    ops = [pgates(n)[i] for i in idx]
    txt = lambda: "operation from %d-qubit parametric circuit %s" % (n, ops)  # noqa: E731
    k = nvars(ops)
    for extra in (0, 1) if len(idx) < 2 else (0,):
        m = k + extra  # possibly an unused variable at the end
        circ = source(n, layouts(n)[-1], ops, ParametricCircuit, m)
        snap = drive.snapshot(circ)
        Op = create_operation(circ, "Rot")
        require(Op.num_qubits == n and Op.num_parameters == m,
                lambda: "%s: %s qubits, %s parameters" % (txt(), Op.num_qubits, Op.num_parameters))
        require(Op.matrix is None, lambda: "%s: the class has a matrix" % txt())
        insts = []
        for vals in itertools.product(VALS, repeat=m):
            vals = list(vals)
            E = ref.unitary(subst(ops, vals), n)
            o = Op(vals)
            same(o.matrix, E, lambda: "%s with %s" % (txt(), vals))
            insts.append((vals, o, E))
            require(list(o.parameters) == vals, lambda: "%s: parameters %s" % (txt(), o.parameters))
            cov.state("param", n, tuple(idx), tuple(vals))
            cov.step()
        for vals, o, E in insts[::-5]:
            mat = o.matrix
            if mat.flags.writeable:
                mat[:] = 0
            same(o.matrix, E, lambda: "%s with %s, again" % (txt(), vals))
        outer = Circuit(n)
        vals, o, E = insts[len(insts) // 2]
        with outer.context as (q, _):
            x = Op(vals, list(q))
            same(x.matrix, E, lambda: "%s with %s, in an open context" % (txt(), vals))
            same(o.matrix, E, lambda: "%s with %s, in an open context" % (txt(), vals))
        require([id(y) for y in outer.circuit] == [id(x)], lambda: "%s: recorded %s" % (txt(), outer.circuit))
        for bad in (vals[:-1], vals + [0.5]):
            try:
                Op(bad)
                require(False, lambda: "%s accepts %d parameters" % (txt(), len(bad)))
            except ValueError:
                pass
        require(drive.snapshot(circ) == snap, lambda: "%s: the source circuit changed" % txt())
        # variables of the source which have values of their own
        for given in range(1, 1 + 2 ** min(m, 2)):
            for i, var in enumerate(circ._parameter_register):
                var.reset()
                if given > 2 ** i - 1 or i > 1:
                    var.set(VALS[(i + given) % 3] if given % 2 else 2.5 + i)
            for vals, o, E in insts[:: max(1, len(insts) // 4)]:
                same(o.matrix, E, lambda: "%s with %s, its variables having values" % (txt(), vals))
                same(Op(vals).matrix, E, lambda: "%s with %s, its variables having values" % (txt(), vals))
                same(create_operation(circ, "Rot")(vals).matrix, E,
                     lambda: "%s with %s, created when its variables have values" % (txt(), vals))
        circ.reset_variables()


def do_confuse(n, idx, cov):
    """Instances of one created operation with parameters that are easily taken for one another."""
    from dwave.gate.circuit import ParametricCircuit
    from dwave.gate.operations import create_operation

    ops = [pgates(n)[i] for i in idx]
    k = nvars(ops)
    Op = create_operation(source(n, [n], ops, ParametricCircuit, k), "Rot")
    for i in range(k):
        par = lambda v: [v if j == i else 0.3 + j for j in range(k)]  # noqa: E731
        for x, y in itertools.permutations(ref.CONFUSABLE, 2):
            made = []
            for v in (x, y):
                made.append(Op(par(v)))
                for o, w in zip(made, (x, y)):
                    same(o.matrix, ref.unitary(subst(ops, par(w)), n),
                         lambda: "operation from %s with %s, having used %s before" % (ops, par(w), (x, y)[:len(made)]))
            cov.step(3)
        cov.state("confuse", n, tuple(idx), i)


def do_many(m, k, cov):
    """m variables, each used several times, in several orders; long circuits."""
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation

    n = 1 + k % 3
    ops = []
    for j in range(m):
        v = (j * (1, 7, m - 1)[k % 3] + k) % m if m % 7 else (m - 1 - j)
        ops.append([("RX", "RY", "RZ")[j % 3], [V(v)], [(j + k) % n], None, None])
        if j % 2:
            ops.append(["Rotation", [V((v + 1) % m), 0.25 * j, V(j)], [j % n], None, None])
        if n > 1:
            ops.append([("CRX", "CRZ")[j % 2], [V((v + 3) % m)], [(j + 1) % n, j % n], None, None])
        if j % 3 == 2:
            ops.append(["Hadamard", [], [0], None, None])
    txt = lambda: "operation with %d parameters (%d)" % (m, k)  # noqa: E731
    circ = source(n, [n] if k % 2 else [1] * n, ops, ParametricCircuit, m)
    Op = create_operation(circ, "Many")
    require((Op.num_qubits, Op.num_parameters) == (n, m), lambda: "%s has %s, %s" % (txt(), Op.num_qubits, Op.num_parameters))
    for vals in ([round(0.1 + 0.37 * i, 3) for i in range(m)], [(-1) ** i * (m - i) for i in range(m)],
                 [np.float64(1 / (i + 1)) for i in range(m)]):
        E = ref.unitary(subst(ops, vals), n)
        same(Op(vals).matrix, E, txt)
        same(Op(list(vals)).matrix, E, txt)
        rev = vals[::-1]
        same(Op(rev).matrix, ref.unitary(subst(ops, rev), n), txt)
        if n == 1:
            c = Circuit(2)
            with c.context as (Q, _):
                Op(vals, Q[1])
            require(ref.close(sim(c), ref.apply(ref.zero(2), E, [1], 2)), lambda: "%s: wrong state" % txt())
        # bound to the variables of another circuit in reverse order
        pc = ParametricCircuit(n)
        with pc.context as r:
            r.p[m - 1]
            Op([r.p[m - 1 - i] for i in range(m)], list(r.q))
        c = Circuit(n)
        with c.context as (Q, _):
            pc(vals, Q)
        require(list(c.circuit[0].parameters) == rev, lambda: "%s in a parametric circuit: %s" % (txt(), c.circuit[0].parameters))
        same(c.circuit[0].matrix, ref.unitary(subst(ops, rev), n), txt)
    cov.state("many", m, k)
    cov.step(3 * len(ops))


def do_kept(m, how, cov):
    """Many created operations, and many instances, used one after another and read again afterwards."""
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation

    kept = []
    for i in range(m):
        if how == "param":
            ops = [["RX", [V(0)], [0], None, None], ["Rotation", [V(1), 0.01 * i, V(0)], [0], None, None]]
            Op = create_operation(source(1, [1], ops, ParametricCircuit, 2))
        else:
            ops = [["RY", [0.01 * i + 0.1], [0], None, None], [("T", "S", "X")[i % 3], [], [0], None, None]]
            Op = create_operation(source(1, [1], ops), *(["Same"] if how == "named" else []))
        pars = [[0.02 * i - 1, 0.5], [0.3, 0.01 * i]] if how == "param" else [None]
        insts = [Op(p) if p is not None else Op() for p in pars]
        want = [ref.unitary(subst(ops, p) if p else ops, 1) for p in pars]
        for o, E in zip(insts, want):
            same(o.matrix, E, lambda: "operation %d of %d" % (i, m))
        kept.append((Op, insts, want))
    for i, (Op, insts, want) in enumerate(kept):
        for o, E in zip(insts, want):
            same(o.matrix, E, lambda: "operation %d of %d (%s), again" % (i, m, how))
        if how != "param":
            same(Op.matrix, want[0], lambda: "operation %d of %d (%s), class" % (i, m, how))
    # in one circuit
    circ = Circuit(2)
    U = np.eye(4, dtype=complex)
    with circ.context as (q, _):
        for i, (Op, insts, want) in enumerate(kept):
            for k, E in enumerate(want):
                if how == "param":
                    Op([[0.02 * i - 1, 0.5], [0.3, 0.01 * i]][k], qubits=[q[i % 2]])
                else:
                    Op(qubits=[q[i % 2]])
                U = ref.embed(E, [i % 2], 2) @ U
    got = sim(circ)
    require(ref.close(got, U[:, 0], 1e-8), lambda: "%d created operations (%s) in one circuit: state %s instead of %s" % (m, how, got, U[:, 0]))
    # one operation many times
    if how == "param":
        Op = kept[0][0]
        ops = [["RX", [V(0)], [0], None, None], ["Rotation", [V(1), 0.0, V(0)], [0], None, None]]
        insts = [Op([0.01 * i, 1 - 0.02 * i]) for i in range(m)]
        for _ in range(2):
            for i, o in enumerate(insts):
                same(o.matrix, ref.unitary(subst(ops, [0.01 * i, 1 - 0.02 * i]), 1), lambda: "instance %d of %d" % (i, m))
    cov.state("kept", m, how)
    cov.step(m)


def do_big(n, k, cov):
    """Wide and long source circuits."""
    from dwave.gate.operations import create_operation

    pos = [[i, (i * (k + 2) + 1) % n] for i in range(n)]
    ops = []
    for i, (a, c) in enumerate(pos):
        ops.append([ref.ONE[(i + 3 * k) % len(ref.ONE)], list(ref.DEF[ref.GATES[ref.ONE[(i + 3 * k) % len(ref.ONE)]][1]]), [c], None, None])
        if a != c:
            g = sorted(ref.CONTROLLED)[(i + k) % len(ref.CONTROLLED)]
            ops.append([g, [x * (i + 1) for x in ref.DEF[ref.GATES[g][1]]], [a, c] if k % 2 else [c, a], None, None])
    if n < 6:
        ops = ops * 5
    Op = create_operation(source(n, [[n], [1] * n, [2, n - 2], [n - 1, 1]][k], ops))
    require(Op.num_qubits == n, lambda: "wide operation has %s qubits" % Op.num_qubits)
    E = ref.unitary(ops, n)
    for _ in range(2 if n < 8 else 1):
        M = np.asarray(Op.matrix)
        require(ref.close(M, E), lambda: "operation from %d-qubit circuit %s: wrong matrix" % (n, ops))
    cov.state("big", n, k)
    cov.step(len(ops))


def sim(circ):
    from dwave.gate.simulator import simulate

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        simulate(circ)
    return np.array(circ.state)


def do_use(idx, cov):
    """Single-qubit created operations in circuits."""
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation
    from dwave.gate.operations.base import ControlledOperation

    ops = [gates(1)[i] for i in idx]
    U = ref.unitary(ops, 1)
    txt = lambda: "operation from %s" % ops  # noqa: E731
    Op = create_operation(source(1, [1], ops), "HS")
    pre_ops = [["T", [], [0], None, None], ["RY", [0.8], [0], None, None]]
    Pre = create_operation(source(1, [1], pre_ops), "HS")
    P = ref.unitary(pre_ops, 1)
    n = 3
    prep = ref.generic(n)
    v0 = ref.run(prep, n)
    for q in range(n):
        circ = Circuit(n)
        with circ.context as (Q, _):
            for o in prep:
                drive.make_op(o, list(Q), [])
            Pre(Q[q])
            Op(Q[q])
            Op([Q[(q + 1) % n]])
        want = ref.apply(ref.apply(ref.apply(v0, P, [q], n), U, [q], n), U, [(q + 1) % n], n)
        require(ref.close(sim(circ), want), lambda: "%s on qubit %d: wrong state" % (txt(), q))
        require(ref.close(sim(circ), want), lambda: "%s on qubit %d: wrong state the second time" % (txt(), q))
        cov.state("use", tuple(idx), q)
        cov.step(3)
    # conditional
    for bit in (0, 1):
        circ = drive.new_circuit([2], [1])
        with circ.context as (Q, C):
            if bit:
                drive.op_class("X")(Q[0])
            drive.op_class("Measurement")(Q[0]) | C[0]
            Op(Q[1]).conditional(C[0])
        v = ref.zero(2)
        if bit:
            v = ref.apply(ref.apply(v, ref.PX, [0], 2), U, [1], 2)
        require(ref.close(sim(circ), v), lambda: "conditional %s, bit %d: wrong state" % (txt(), bit))
    # applied as part of a circuit, and as part of another created operation
    sub = Circuit(1)
    with sub.context as (Q, _):
        Op(Q[0])
        Pre(Q[0])
    outer = Circuit(2)
    with outer.context as (Q, _):
        sub(Q[1])
    require(ref.close(sim(outer), ref.apply(ref.zero(2), P @ U, [1], 2)), lambda: "%s in an applied circuit" % txt())
    Nested = create_operation(sub, "HS")
    same(Nested.matrix, P @ U, lambda: "created operation around %s" % txt())
    circ = Circuit(2)
    with circ.context as (Q, _):
        Nested(Q[1])
        Op(Q[1])
    require(ref.close(sim(circ), ref.apply(ref.zero(2), U @ P @ U, [1], 2)), lambda: "nested %s" % txt())
    # controlled
    C = type(ControlledOperation)("COp", (ControlledOperation,), dict(_num_control=1, _num_target=1, _target_operation=Op))
    M = np.eye(4, dtype=complex)
    M[2:, 2:] = U
    same(C.matrix, M, lambda: "controlled %s" % txt())
    circ = Circuit(2)
    with circ.context as (Q, _):
        for o in ref.generic(2):
            drive.make_op(o, list(Q), [])
        C(Q[1], Q[0])
    require(ref.close(sim(circ), ref.apply(ref.run(ref.generic(2), 2), M, [1, 0], 2)), lambda: "controlled %s: wrong state" % txt())
    # in a parametric circuit
    pc = ParametricCircuit(1)
    with pc.context as r:
        Op(r.q[0])
        drive.op_class("RX")(r.p[0], r.q[0])
    circ = Circuit(1)
    with circ.context as (Q, _):
        pc([0.3], Q)
    require(ref.close(sim(circ), ref.matrix("RX", [0.3]) @ U @ ref.zero(1)), lambda: "%s in a parametric circuit" % txt())


def do_puse(idx, cov):
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation
    from dwave.gate.operations.base import ParametricControlledOperation

    ops = [pgates(1)[i] for i in idx]
    m = nvars(ops)
    txt = lambda: "operation from %s" % ops  # noqa: E731
    Op = create_operation(source(1, [1], ops, ParametricCircuit, m), "Rot")
    for k, vals in enumerate(itertools.product(VALS, repeat=m)):
        vals = list(vals)
        U = ref.unitary(subst(ops, vals), 1)
        W = ref.unitary(subst(ops, vals[::-1]), 1)
        q = k % 2
        circ = Circuit(2)
        with circ.context as (Q, _):
            for o in ref.generic(2):
                drive.make_op(o, list(Q), [])
            Op(vals, Q[q])
            Op(vals[::-1], qubits=[Q[1 - q]])
        want = ref.apply(ref.apply(ref.run(ref.generic(2), 2), U, [q], 2), W, [1 - q], 2)
        require(ref.close(sim(circ), want), lambda: "%s with %s: wrong state" % (txt(), vals))
        # with variables, in a parametric circuit: applied in reverse order of the variables
        pc = ParametricCircuit(1)
        with pc.context as r:
            r.p[m - 1]
            Op([r.p[m - 1 - i] for i in range(m)], r.q[0])
        circ = Circuit(1)
        with circ.context as (Q, _):
            pc(vals, Q)
            pc(vals[::-1], Q)
        require(ref.close(sim(circ), U @ W @ ref.zero(1)),
                lambda: "%s bound to variables with %s: wrong state" % (txt(), vals))
        e = pc.eval([vals[::-1]])
        require(ref.close(sim(e), W @ ref.zero(1)), lambda: "%s evaluated with %s: wrong state" % (txt(), vals[::-1]))
        # as part of another created operation
        if k < 4:
            Outer = create_operation(pc, "Rot")
            same(Outer(vals).matrix, W, lambda: "created operation around %s with %s" % (txt(), vals))
            C = type(ParametricControlledOperation)(
                "COp", (ParametricControlledOperation,),
                dict(_num_control=1, _num_target=1, _num_params=m, _target_operation=Op))
            M = np.eye(4, dtype=complex)
            M[2:, 2:] = U
            same(C(vals).matrix, M, lambda: "controlled %s with %s" % (txt(), vals))
            circ = Circuit(2)
            with circ.context as (Q, _):
                for o in ref.generic(2):
                    drive.make_op(o, list(Q), [])
                C(vals, Q[1], Q[0])
            require(ref.close(sim(circ), ref.apply(ref.run(ref.generic(2), 2), M, [1, 0], 2)),
                    lambda: "controlled %s with %s: wrong state" % (txt(), vals))
        cov.state("puse", tuple(idx), tuple(vals))
        cov.step(4)


EXPECT_OUTCOMES = ("plain", "param", "use", "puse", "many", "big", "kept")
