"""C15: OpenQASM export denotes the same circuit."""
import itertools
import math

import numpy as np

from mc import edits, drive, qasm, ref
from mc.core import require

PROPERTY = "C15"
RULE = (
    "every history of the stated depth of adding, appending again, removing and moving operations between uses (`edits`); every circuit of the stated length over every gate and alias on every ordered tuple of qubits x every quantum "
    "register layout (empty registers included) x classical layouts x labels x the options of the export; every "
    "parameter of a grid of magnitudes and number types and every combination of parameters of a smaller one; every history of the stated depth of additions, removals and "
    "exports; wide and long circuits; circuits sharing operations: the text is read by an independent OpenQASM 2.0 reader and its registers, operations (qubits, "
    "parameters) and unitary are compared with the circuit; everything inexpressible must be refused"
)
BOUNDS = {
    "quick": dict(edits=4, sizes=((1, 2), (2, 2), (3, 1)), pairs3=False, depth=4, wide=ref.WIDE[:7]),
    "thorough": dict(edits=4, sizes=((1, 3), (2, 2), (3, 2), (4, 1)), pairs3=True, depth=6, wide=ref.WIDE),
}
ASSUMPTIONS = [
    "rot and crot denote the rotation and controlled rotation (their definition is left to the reader of the text)",
    "labels are not OpenQASM keywords or gate names; parameters are finite real numbers",
    "real literals with an exponent need no decimal point",
]
QNAME = {
    "Identity": "id", "X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "S": "s", "T": "t", "RX": "rx", "RY": "ry",
    "RZ": "rz", "Rotation": "rot", "CX": "cx", "CY": "cy", "CZ": "cz", "CHadamard": "ch", "CRX": "crx", "CRY": "cry",
    "CRZ": "crz", "CRotation": "crot", "SWAP": "swap", "CSWAP": "cswap", "CCX": "ccx",
}
NEEDS_DEF = ("Rotation", "CRotation", "SWAP", "CSWAP")
VALUES = [*ref.CONFUSABLE, 0, 0.0, -0.0, 1, -3, 0.1, 1 / 3, math.pi, -math.pi / 7, 1e-5, -1.5e-12, 1e22, 123456789012345678, 5e-324,
          np.float64(0.1), np.float64(-1e-7), np.int64(-4), np.int32(7), 0.1 + 0.2]


def qlayouts(n):
    out = {0: [[]], 1: [[1], [1, 0], [0, 1]], 2: [[2], [1, 1], [0, 2], [1, 0, 1]],
           3: [[3], [1, 2], [2, 1], [1, 1, 1], [2, 0, 1]], 4: [[4], [2, 2], [1, 3]]}
    return out[n]


CLAYOUTS = [[], [0], [2], [1, 2]]
LABELS = [None, "alpha"]  # default labels or own labels


def generate(b):
    for acts, k in edits.histories(b["edits"], 4):
        yield ["edits", acts, k]
    for n in range(0, 4):
        for ql in range(len(qlayouts(n))):
            for cl in range(len(CLAYOUTS)):
                yield ["empty", n, ql, cl]
    for n, k in b["sizes"]:
        N = len(alphabet(n))
        for l in range(1, k + 1):
            for idx in itertools.product(range(N), repeat=l):
                yield ["circ", n, list(idx)]
    for g, (n, p) in ref.GATES.items():
        if p:
            for v in range(len(VALUES)):
                yield ["values", g, v]
            for first in ref.GRID:
                yield ["grid", g, first]
    for d in range(1, b["depth"] + 1):
        for acts in itertools.product(range(len(ACTS)), repeat=d):
            yield ["history", list(acts)]
    for i in range(4):
        yield ["refuse", i]
    for a in ref.ALIASES:
        yield ["alias", a]
    yield ["labels"]
    yield ["definition", "rot"]
    yield ["definition", "crot"]
    for g in ref.GATES:
        yield ["standalone", g]
    for n in (1, 2):
        yield ["custom", n]
    for n in b["wide"]:
        for lay in range(len(ref.wide_layouts(n))):
            for labels in range(2):
                yield ["wide", n, lay, labels]


_alpha = {}


def alphabet(n):
    if n not in _alpha:
        _alpha[n] = ref.alphabet(n)
    return _alpha[n]


def make(n, ql, cl, labels):
    from dwave.gate.circuit import Circuit

    circ = Circuit()
    qn, cn = [], []
    for i, s in enumerate(ql):
        lab = None if labels is None else "%sQ_%d" % (labels, i)
        circ.add_qregister(s, lab) if lab else circ.add_qregister(s)
        qn.append(lab or "qreg%d" % i)
    for i, s in enumerate(cl):
        lab = None if labels is None else "%sC_%d" % (labels, i)
        circ.add_cregister(s, lab) if lab else circ.add_cregister(s)
        cn.append(lab or "creg%d" % i)
    # the labels of qubits and bits (not registers) have no meaning
    drive.relabel(circ, (sum(ql) + len(cl)) % 3)
    return circ, qn, cn


def do_wide(n, lay, labels, cov):
    """Positions with several digits, long programs, many registers."""
    ql, cl = ref.wide_layouts(n)[lay], ref.wide_layouts(n)[-1 - lay]
    ops = ref.wide_ops(n)
    circ, qn, cn = make(n, ql, cl, LABELS[labels])
    fill(circ, ops)
    check(circ, ops, ql, cl, qn, cn, lambda: "%d gates on %d qubits, layout %s" % (len(ops), n, ql), cov=cov)
    cov.state("wide", n, lay, labels)


def expected_names(kind, sizes, own, reg_labels):
    if reg_labels:
        return list(zip(own, sizes))
    if len(sizes) == 1:
        return [(kind, sizes[0])]
    return [("%s%d" % (kind, i), s) for i, s in enumerate(sizes)]


def strip_known(text):
    """Remove the declarations recorded as known findings (lines), if present as such."""
    lines, kept, removed = text.split("\n"), [], 0
    for l in lines:
        if l.startswith("gate rot(") and "q[0]" in l:
            removed += 1
        else:
            kept.append(l)
    return "\n".join(kept), removed


OPTIONS = list(itertools.product((False, True), repeat=2))


def check(circ, ops, ql, cl, qn, cn, txt, custom=None, U=None, cov=None, options=OPTIONS):
    n = sum(ql)
    for reg_labels, defs in options:
        kw = {}
        if reg_labels:
            kw["reg_labels"] = True
        if defs:
            kw["gate_definitions"] = True
        what = lambda: "%s, options %s" % (txt(), kw)  # noqa: E731
        snap = drive.snapshot(circ)
        text = circ.to_qasm(**kw)
        require(circ.to_qasm(**kw) == text, lambda: "%s: exporting twice differs" % what())
        require(drive.snapshot(circ) == snap, lambda: "%s: exporting changes the circuit" % what())
        plain, rots = strip_known(text)
        try:
            r = qasm.Reader(plain, dict(qasm.DOCUMENTED, **(custom or {})))
        except qasm.QasmError as e:
            require(False, lambda: "%s: not OpenQASM (%s): %s" % (what(), e, text))
        require(r.qregs == expected_names("q", ql, qn, reg_labels),
                lambda: "%s: quantum registers %s" % (what(), r.qregs))
        require(r.cregs == expected_names("c", cl, cn, reg_labels),
                lambda: "%s: classical registers %s" % (what(), r.cregs))
        exp = [(QNAME.get(o[0], o[0]), list(o[1]), list(o[2])) for o in ops]
        require([(a, b, c) for a, b, c in r.ops] == exp,
                lambda: "%s: operations %s instead of %s" % (what(), r.ops, exp))
        if U is not None and n:
            require(ref.close(r.unitary(), U), lambda: "%s: denotes another unitary: %s" % (what(), text))
        used = {o[0] for o in ops}
        for g in NEEDS_DEF:
            times = (QNAME[g] in r.defs) + (rots if g == "Rotation" else 0)
            require(times == (1 if defs and g in used else 0),
                    lambda: "%s: %d definitions of %s: %s" % (what(), times, QNAME[g], text))
        require(set(r.defs) <= {QNAME.get(g) for g in used}, lambda: "%s: definitions of unused gates: %s" % (what(), text))
        for name, (np_, nq, mat) in r.defs.items():
            g = [x for x in QNAME if QNAME[x] == name][0]
            vals = (0.4, 1.1, -0.9)[:np_]
            require((nq, np_) == ref.GATES[g] and ref.phase_equal(np.asarray(mat(*vals)), ref.matrix(g, vals), 1e-8),
                    lambda: "%s: the definition of %s is another gate: %s" % (what(), name, text))
        if cov is not None:
            cov.step(len(ops) + 1)


def fill(circ, ops):
    with circ.context:
        Q = list(circ.qubits)
        for o in ops:
            drive.make_op(o, Q, [])


def run_case(case, cov):
    globals()["do_" + case[0]](*case[1:], cov)
    cov.outcome(case[0])


def do_empty(n, ql, cl, cov):
    for lab in LABELS:
        q, c = qlayouts(n)[ql], CLAYOUTS[cl]
        circ, qn, cn = make(n, q, c, lab)
        check(circ, [], q, c, qn, cn, lambda: "empty circuit %s %s" % (q, c), cov=cov)
    cov.state("empty", n, ql, cl)


def do_circ(n, idx, cov):
    ops = [alphabet(n)[i] for i in idx]
    U = ref.unitary(ops, n)
    lays = qlayouts(n)
    combos = list(itertools.product(range(len(lays)), range(len(CLAYOUTS)), range(2)))
    if len(idx) > 1:
        k = sum((j + 3) * i for j, i in enumerate(idx))
        combos = [combos[k % len(combos)], combos[(k * 7 + 3) % len(combos)]]
    for q, c, l in combos:
        circ, qn, cn = make(n, lays[q], CLAYOUTS[c], LABELS[l])
        fill(circ, ops)
        check(circ, ops, lays[q], CLAYOUTS[c], qn, cn,
              lambda: "circuit %s, layout %s %s" % (ops, lays[q], CLAYOUTS[c]), U=U, cov=cov)
        cov.state(n, tuple(idx), q, c, l)


def do_grid(g, first, cov):
    n, p = ref.GATES[g]
    for rest in itertools.product(ref.GRID, repeat=p - 1):
        ops = [[g, [first, *rest], list(range(n)), None, None]]
        circ, qn, cn = make(n, [n], [], None)
        fill(circ, ops)
        check(circ, ops, [n], [], qn, cn, lambda: "circuit %s" % ops, cov=cov)
        cov.state("grid", g, first, rest)


def do_values(g, v, cov):
    n, p = ref.GATES[g]
    for pos in range(p):
        ops = []
        for q in range(2):
            vals = list(ref.DEF[p])
            vals[pos] = VALUES[(v + q) % len(VALUES)]
            ops.append([g, vals, list(range(n)), None, None])
        for one in (ops[:1], ops[:1] * 2, ops):
            circ, qn, cn = make(n, [n], [], None)
            fill(circ, one)
            check(circ, one, [n], [], qn, cn, lambda: "circuit %s" % one, cov=cov)
        cov.state("values", g, pos, v)


ACTS = ["qubit", "qreg", "bit", "creg", "oplast", "opfirst", "remove"]


def do_edits(acts, k, cov):
    edits.run(acts, lambda circ, ops, sizes, txt: check(circ, ops, sizes, [], ["qreg0", "qreg1"], [], txt, U=ref.unitary(ops, sum(sizes)),
                                                        options=OPTIONS if k < 0 else [OPTIONS[k]]), cov)


def do_history(acts, cov):
    """The export describes the circuit as it currently is."""
    from dwave.gate.circuit import Circuit

    circ = Circuit(1)
    regs, cregs = [["a"]], []
    elems = {}
    names = iter("bcdefghijk")
    ops = []  # on element names
    pos = {}
    elems["a"] = circ.qubits[0]
    for i, a in enumerate(acts):
        a = ACTS[a]
        if a == "qubit":
            circ.add_qubit()
            e = next(names)
            regs[0].append(e)
            elems[e] = list(circ.qregisters.values())[0][len(regs[0]) - 1]
        elif a == "qreg":
            circ.add_qregister(1)
            e = next(names)
            regs.append([e])
            elems[e] = list(circ.qregisters.values())[-1][0]
        elif a == "bit":
            circ.add_bit()
            if not cregs:
                cregs.append(0)
            cregs[0] += 1
        elif a == "creg":
            circ.add_cregister(2)
            cregs.append(2)
        elif a in ("oplast", "opfirst"):
            flat = [e for r in regs for e in r]
            sel = flat[-1] if a == "oplast" else flat[0]
            other = flat[0] if a == "oplast" else flat[-1]
            circ.unlock()
            with circ.context:
                if sel == other:
                    drive.op_class("RX")(0.25, elems[sel])
                    ops.append(("RX", [0.25], [sel]))
                else:
                    drive.op_class("CX")(elems[sel], elems[other])
                    ops.append(("CX", [], [sel, other]))
        elif a == "remove" and ops:
            circ.remove(circ.circuit[0])
            ops.pop(0)
        flat = [e for r in regs for e in r]
        pos = {e: k for k, e in enumerate(flat)}
        now = [[g, p, [pos[e] for e in qs], None, None] for g, p, qs in ops]
        ql = [len(r) for r in regs]
        check(circ, now, ql, cregs, ["qreg%d" % k for k in range(len(ql))], ["creg%d" % k for k in range(len(cregs))],
              lambda: "after %s" % [ACTS[x] for x in acts[: i + 1]], U=ref.unitary(now, len(flat)) if len(flat) < 5 else None)
        cov.state("history", tuple(ql), tuple(cregs), repr(now))
        cov.step()


def refused(f, txt, cov):
    try:
        text = f()
    except Exception:
        cov.outcome("refused")
        cov.step()
        return
    require(False, lambda: "%s is exported as %s" % (txt(), text))


def do_refuse(i, cov):
    import dwave.gate.operations as ops_mod
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations.base import ControlledOperation

    class CCZ(ControlledOperation):
        _num_control = 2
        _num_target = 1
        _target_operation = ops_mod.Z

    opts = [dict(), dict(reg_labels=True), dict(gate_definitions=True), dict(reg_labels=True, gate_definitions=True)][i]
    for name in alphabet(3):
        # conditional operations, with the bits set, unset or cleared
        for bits in ([0], [1, 0]):
            for val in (None, 0, 1):
                circ = drive.new_circuit([2, 1], [2])
                with circ.context:
                    drive.make_op(["X", [], [0], None, None], list(circ.qubits), list(circ.bits))
                    drive.make_op(name[:4] + [bits], list(circ.qubits), list(circ.bits))
                if val is not None:
                    for b in circ.bits:
                        b.set(val)
                refused(lambda: circ.to_qasm(**opts), lambda: "conditional %s" % name, cov)
                cov.state("conditional", repr(name), tuple(bits), val, i)
    for qs in ([0], [1, 0], [2, 0, 1]):
        for kind in ("Measurement", "Barrier", "unstored"):
            circ = drive.new_circuit([3], [3])
            with circ.context:
                Q, C = list(circ.qubits), list(circ.bits)
                drive.make_op(["X", [], [0], None, None], Q, C)
                sel = [Q[k] for k in qs]
                if kind == "Barrier":
                    ops_mod.Barrier(sel)
                else:
                    m = ops_mod.Measurement(sel)
                    if kind == "Measurement":
                        m | C[: len(qs)]
            refused(lambda: circ.to_qasm(**opts), lambda: "a circuit with a %s" % kind, cov)
    circ = Circuit(3)
    with circ.context as (q, c):
        CCZ(list(q)[:2], q[2])
    refused(lambda: circ.to_qasm(**opts), lambda: "a user-defined operation", cov)
    circ = Circuit(1)
    for v in ("3.0", "1.0", "2", 2.0, None):
        refused(lambda: circ.to_qasm(v, **opts), lambda: "version %r" % v, cov)
    require(circ.to_qasm("2.0", **opts) == circ.to_qasm(version="2.0", **opts) == circ.to_qasm(**opts), "version 2.0 differs")
    pc = ParametricCircuit(1)
    with pc.context as r:
        ops_mod.RX(r.p[0], r.q[0])
    refused(lambda: pc.to_qasm(**opts), lambda: "a parametric circuit", cov)
    r.p[0].set(0.3)
    refused(lambda: pc.to_qasm(**opts), lambda: "a parametric circuit", cov)


def do_alias(a, cov):
    g = ref.ALIASES[a]
    n = ref.GATES[g][0]
    for qs in itertools.permutations(range(n)):
        circ, qn, cn = make(n, qlayouts(n)[-1], [], None)
        fill(circ, [[a, [], list(qs), None, None]])
        op = [[g, [], list(qs), None, None]]
        check(circ, op, qlayouts(n)[-1], [], qn, cn, lambda: "alias %s" % a, U=ref.unitary(op, n), cov=cov)
        cov.state("alias", a, qs)


def do_labels(cov):
    """Labels that are OpenQASM identifiers are used, any others refused (when labels are requested)."""
    from dwave.gate.circuit import Circuit

    good = ["a", "aB", "a_1", "reg0", "zZ9_", "q", "c", "q1"]
    bad = ["A", "_a", "1a", "a b", "a-b", "", "é", "a[0]", "a;", 1, 0, (), ("a", "b"), 2.5, "a\n"]
    for l1 in good + bad:
        for l2 in good + bad:
            if l1 == l2 and type(l1) is type(l2):
                continue
            for kinds in ("qq", "qc", "cc"):
                circ = Circuit()
                try:
                    (circ.add_qregister if kinds[0] == "q" else circ.add_cregister)(1, l1)
                    (circ.add_qregister if kinds[1] == "q" else circ.add_cregister)(2, l2)
                except Exception:
                    continue
                nq = circ.num_qubits
                sizes = {"q": [s for k, s in zip(kinds, (1, 2)) if k == "q"], "c": [s for k, s in zip(kinds, (1, 2)) if k == "c"]}
                names = {"q": [s for k, s in zip(kinds, (l1, l2)) if k == "q"], "c": [s for k, s in zip(kinds, (l1, l2)) if k == "c"]}
                ops = []
                if nq:
                    ops = [["Hadamard", [], [nq - 1], None, None]]
                    fill(circ, ops)
                ok = l1 in good and l2 in good
                txt = lambda: "labels %r, %r (%s)" % (l1, l2, kinds)  # noqa: E731
                if ok:
                    check(circ, ops, sizes["q"], sizes["c"], names["q"], names["c"], txt, cov=cov)
                else:
                    refused(lambda: circ.to_qasm(reg_labels=True), txt, cov)
                    r = qasm.Reader(circ.to_qasm())
                    require([s for _, s in r.qregs] == sizes["q"] and [s for _, s in r.cregs] == sizes["c"], txt)
                cov.state("labels", repr(l1), repr(l2), kinds)
    circ = Circuit()
    circ.add_qregister(1, "same")
    circ.add_cregister(1, "same")
    refused(lambda: circ.to_qasm(reg_labels=True), lambda: "a quantum and a classical register of one name", cov)
    qasm.Reader(circ.to_qasm())


def do_definition(name, cov):
    """The definitions as such, read strictly (without assuming what rot and crot are)."""
    g = {"rot": "Rotation", "crot": "CRotation"}[name]
    n = ref.GATES[g][0]
    op = [g, [0.4, 1.1, -0.9], list(range(n)), None, None]
    circ = drive.new_circuit([n])
    fill(circ, [op])
    text = circ.to_qasm(gate_definitions=True)
    cov.state("definition", name)
    cov.step()
    try:
        r = qasm.Reader(text)
    except qasm.QasmError as e:
        require(False, "gate_definitions=True with %s: %s" % (g, e), "gate definition of %s" % g)
    require(name in r.defs and ref.phase_equal(r.unitary(), ref.unitary([op], n)),
            lambda: "the definition of %s is another gate: %s" % (name, text))


def do_standalone(g, cov):
    """Operations on their own."""
    from dwave.gate.circuit import Circuit

    n, p = ref.GATES[g]
    params = list(ref.DEF[p])
    cls = drive.op_class(g)
    bare = cls(params) if p else cls()
    head = QNAME[g] + ("(%s)" % ", ".join(map(str, params)) if p else "")
    require(bare.to_qasm() == head, lambda: "%s without qubits: %s" % (g, bare.to_qasm()))
    circ = Circuit(n + 1)
    Q = list(circ.qubits)
    for qs in itertools.permutations(range(n + 1), n):
        quds = [Q[i] for i in qs]
        op = cls(params, qubits=quds) if p else cls(qubits=quds)
        for text, exp in (
            (op.to_qasm(), list(range(n))),
            (op.to_qasm({q: ("q", i) for i, q in enumerate(Q)}), list(qs)),
        ):
            r = qasm.Reader('OPENQASM 2.0; include "qelib1.inc"; qreg q[%d]; %s;' % (n + 1, text), qasm.DOCUMENTED)
            require(r.ops == [(QNAME[g], params, exp)], lambda: "%s on %s: %s" % (g, qs, text))
        cov.state("standalone", g, qs)
        cov.step()


def do_custom(n, cov):
    """Operations created from circuits, named by the user, with their parameters."""
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation

    src = Circuit(n)
    with src.context as (q, c):
        drive.op_class("Hadamard")(q[n - 1])
    psrc = ParametricCircuit(n)
    with psrc.context as r:
        drive.op_class("RX")(r.p[0], r.q[0])
        drive.op_class("RY")(r.p[1], r.q[n - 1])
    for name in ("MyGate", "other2"):
        A, B = create_operation(src, name), create_operation(psrc, "P" + name)
        for vals in itertools.product((0, 0.5, -1e-7, 3, 1 / 3, -math.pi * 1e5, np.float64(0.7)), repeat=2):
            for qs in itertools.permutations(range(n + 1), n):
                circ, qn, cn = make(n + 1, [1, n], [1], "lab")
                with circ.context:
                    Q = list(circ.qubits)
                    A([Q[i] for i in qs])
                    B(list(vals), [Q[i] for i in qs[::-1]])
                ops = [[name.lower(), [], list(qs), None, None], ["p" + name.lower(), list(vals), list(qs[::-1]), None, None]]
                check(circ, ops, [1, n], [1], qn, cn, lambda: "created operations %s" % ops,
                      custom={name.lower(): (0, n, None), "p" + name.lower(): (2, n, None)}, cov=cov)
                cov.state("custom", n, name, vals, qs)


EXPECT_OUTCOMES = ("edits", "empty", "circ", "grid", "values", "history", "refuse", "refused", "alias", "labels", "standalone", "custom", "wide")
