"""C16: QIR export denotes the same circuit."""
import itertools
import math

import numpy as np

from mc import edits, drive, qir, ref
from mc.core import require

PROPERTY = "C16"
RULE = (
    "every history of the stated depth of adding, appending again, removing and moving operations between uses (`edits`); every circuit of the stated length over every gate on every ordered tuple of qubits x register layouts (several "
    "and empty registers, permuted additions) x measurements of every ordered subset of qubits into every ordered "
    "subset of bits, singly and in two operations, at every position; up to three measurements of any qubits into any bits, repeated ones included; every parameter of a grid; external functions "
    "allowed or not; as text and as bitcode, compiled repeatedly: the executed calls, their arguments and declared "
    "signatures and the qubit and result counts, the profile and its version read by an independent reader of LLVM assembly (bitcode through "
    "llvm-dis as well), also of wide, long and shared circuits, compared with the circuit; everything the profile cannot express must be refused"
)
BOUNDS = {
    "quick": dict(edits=4, sizes=((1, 3), (2, 2), (3, 1)), depth=4, dis=40, wide=ref.WIDE[:7]),
    "thorough": dict(edits=5, sizes=((1, 4), (2, 2), (3, 2), (4, 1)), depth=6, dis=5, wide=ref.WIDE),
}
ASSUMPTIONS = [
    "parameters are Python numbers (finite); identities need not be exported",
    "gates named after a supported gate but acting differently are not claimed",
]
VALUES = [*ref.CONFUSABLE, 0, 0.0, -0.0, 1, -3, 0.1, 1 / 3, math.pi, -math.pi / 7, 1e-5, -1.5e-12, 1e22, 123456789, 5e-324, 0.1 + 0.2,
          np.float64(0.7)]


def qlayouts(n):
    return {0: [[]], 1: [[1], [0, 1]], 2: [[2], [1, 1], [0, 2]], 3: [[3], [1, 2], [2, 1], [1, 1, 1]],
            4: [[4], [1, 3], [2, 2]]}[n]


CL = [[], [1], [2], [1, 2], [3], [0, 2]]


def generate(b):
    for acts, k in edits.histories(b["edits"], 4):
        yield ["edits", acts, k]
    for n in range(0, 4):
        for ql in range(len(qlayouts(n))):
            for cl in range(len(CL)):
                yield ["empty", n, ql, cl]
    for n, k in b["sizes"]:
        N = len(alphabet(n))
        for l in range(1, k + 1):
            for idx in itertools.product(range(N), repeat=l):
                yield ["circ", n, list(idx), b["dis"]]
    for n in (1, 2, 3):
        for k in range(1, n + 1):
            for qs in itertools.permutations(range(n), k):
                yield ["measure", n, list(qs)]
    for g, (n, p) in ref.GATES.items():
        if p:
            for v in range(len(VALUES)):
                yield ["values", g, v]
            for first in ref.GRID:
                yield ["grid", g, first]
    for d in range(1, b["depth"] + 1):
        for acts in itertools.product(range(len(ACTS)), repeat=d):
            yield ["history", list(acts)]
    for a in ref.ALIASES:
        yield ["alias", a]
    for n in (1, 2):
        for i in range(len(alphabet(n))):
            yield ["mid", n, i]
    yield ["refuse"]
    for n in (1, 2, 3):
        for nb in (1, 2, 3):
            for k in (2, 3):
                yield ["again", n, nb, k]
    for n in b["wide"]:
        for lay in range(len(ref.wide_layouts(n))):
            yield ["wide", n, lay]


_alpha = {}


def alphabet(n):
    if n not in _alpha:
        _alpha[n] = ref.alphabet(n)
    return _alpha[n]


def same(calls, exp):
    return len(calls) == len(exp) and all(
        a[0] == b[0] and len(a[1]) == len(b[1])
        and all(x[0] == y[0] and x[1] == y[1] and math.copysign(1, x[1]) == math.copysign(1, y[1])
                for x, y in zip(a[1], b[1]))
        for a, b in zip(calls, exp))


def compare(text, ops, nq, nc, what, opaque=False):
    try:
        p = qir.Program(text)
    except qir.QirError as e:
        require(False, lambda: "%s: %s: %s" % (what(), e, text))
    require((p.qubits, p.results) == (nq, nc), lambda: "%s: declares %d qubits and %d results instead of %d and %d" % (
        what(), p.qubits, p.results, nq, nc))
    require(p.profile == qir.PROFILE, lambda: "%s: declares profile %s instead of %s" % (what(), p.profile, qir.PROFILE))
    exp = qir.expected_calls(ops)
    if opaque:
        exp = qir.opaque(exp)
    require(same(p.calls, exp), lambda: "%s: calls %s instead of %s" % (what(), p.calls, exp))


OPTIONS = list(itertools.product((False, True), repeat=2))


def check(circ, ops, txt, cov, dis=False, options=OPTIONS):
    import pyqir

    nq, nc = circ.num_qubits, circ.num_bits
    ext = any(o[0] not in qir.BASE + ("Identity", "Measurement") for o in ops)
    snap = drive.snapshot(circ)
    for add, bitcode in options:
        what = lambda: "%s, add_external=%s, bitcode=%s" % (txt(), add, bitcode)  # noqa: E731
        if ext and not add:
            try:
                circ.to_qir(add_external=add, bitcode=bitcode)
            except Exception:
                cov.outcome("external refused")
                continue
            require(False, lambda: "%s: functions outside of the profile are exported" % what())
        out = circ.to_qir(add_external=add, bitcode=bitcode)
        if bitcode:
            require(isinstance(out, bytes), lambda: "%s: not bytes" % what())
            if dis:
                compare(qir.disassemble(out), ops, nq, nc, what, opaque=True)
            out = str(pyqir.Module.from_bitcode(pyqir.Context(), out))
        compare(out, ops, nq, nc, what)
        cov.step(len(ops) + 1)
    if not ext and options is OPTIONS:
        require(circ.to_qir() == circ.to_qir(add_external=False), lambda: "%s: default options differ" % txt())
    require(drive.snapshot(circ) == snap, lambda: "%s: exporting changes the circuit" % txt())


def fill(circ, ops):
    circ.unlock()
    with circ.context:
        Q, C = list(circ.qubits), list(circ.bits)
        for o in ops:
            drive.make_op(o, Q, C)
    return circ


def run_case(case, cov):
    globals()["do_" + case[0]](*case[1:], cov)
    cov.outcome(case[0])


def do_empty(n, ql, cl, cov):
    circ = drive.new_circuit(qlayouts(n)[ql], CL[cl])
    check(circ, [], lambda: "empty circuit %s %s" % (qlayouts(n)[ql], CL[cl]), cov, dis=True)
    cov.state("empty", n, ql, cl)


def do_circ(n, idx, dis, cov):
    ops = [alphabet(n)[i] for i in idx]
    k = sum((j + 3) * (i + 1) for j, i in enumerate(idx))
    lays = list(itertools.product(qlayouts(n), CL))
    use = lays if len(idx) == 1 else [lays[k % len(lays)]]
    for ql, cl in use:
        circ = fill(drive.new_circuit(ql, cl), ops)
        check(circ, ops, lambda: "circuit %s, layout %s %s" % (ops, ql, cl), cov, dis=k % dis == 0 and ql is use[0][0])
        cov.state(n, tuple(idx), tuple(ql), tuple(cl))


def wide_measurements(n):
    """Every qubit measured, in several operations, into a fixed permutation of the bits."""
    qs = [(7 * i + 3) % n if n % 7 else (5 * i + 3) % n for i in range(n)]
    bs = [(3 * i + 1) % n if n % 3 else (5 * i + 1) % n for i in range(n)]
    assert sorted(qs) == sorted(bs) == list(range(n)), n
    out, i, k = [], 0, 1
    while i < n:
        out.append(["Measurement", [], qs[i:i + k], bs[i:i + k], None])
        i, k = i + k, k + 1
    return out


def do_wide(n, lay, cov):
    """Positions with several digits, long programs, many registers and measurements."""
    ql, cl = ref.wide_layouts(n)[lay], ref.wide_layouts(n)[-1 - lay]
    gates = ref.wide_ops(n)
    base = [o for o in gates if o[0] in qir.BASE]
    ms = wide_measurements(n)
    for ops in (base + ms, gates + ms, gates[::-1] + ms[::-1], ms):
        circ = fill(drive.new_circuit(ql, cl), ops)
        check(circ, ops, lambda: "%d gates on %d qubits, layout %s %s" % (len(ops), n, ql, cl), cov, dis=lay == 0 and n < 20)
    cov.state("wide", n, lay)


def do_measure(n, qs, cov):
    """Measurements after gates, in one or two operations, into every choice of bits."""
    k = len(qs)
    gate = alphabet(n)[(sum(qs) * 5) % len(alphabet(n))]
    for nb in range(1, 4):
        for extra in range(0, 2 if nb > k else 1):
            if k + extra > nb:
                continue
            for bs in itertools.permutations(range(nb), k):
                lay = [[nb]] if nb == 1 else [[nb], [1, nb - 1]]
                for cl in lay:
                    for cut in range(0, k):
                        ms = [["Measurement", [], qs[:cut], list(bs[:cut]), None]] if cut else []
                        ms += [["Measurement", [], qs[cut:], list(bs[cut:]), None]]
                        for where in range(2):
                            ops = [gate] + ms if where == 0 else ms
                            circ = fill(drive.new_circuit(qlayouts(n)[-1], cl), ops)
                            check(circ, ops, lambda: "circuit %s, bits %s" % (ops, cl), cov)
                            cov.state("measure", n, tuple(qs), bs, cut, where, tuple(cl))
                    # more bits than qubits
                    more = [b for b in range(nb) if b not in bs]
                    if more:
                        circ = drive.new_circuit([n], cl)
                        with circ.context as (q, c):
                            drive.op_class("Measurement")([q[i] for i in qs]) | [c[b] for b in list(bs) + more]
                        check(circ, [["Measurement", [], qs, list(bs), None]], lambda: "measurement with surplus bits", cov)


def do_again(n, nb, k, cov):
    """Measurements of any qubits into any bits, also the same ones again, in operations of every size."""
    for qs in itertools.product(range(n), repeat=k):
        for bs in itertools.product(range(nb), repeat=k):
            for cuts in itertools.product((False, True), repeat=k - 1):
                ms, i = [], 0
                for j in range(1, k + 1):
                    if j == k or cuts[j - 1]:
                        ms.append(["Measurement", [], list(qs[i:j]), list(bs[i:j]), None])
                        i = j
                if any(len(set(m[2])) < len(m[2]) for m in ms):
                    continue
                circ = fill(drive.new_circuit([n], [nb]), ms)
                check(circ, ms, lambda: "circuit %s" % ms, cov, options=OPTIONS[:1])
                cov.state("again", n, nb, qs, bs, cuts)


def do_grid(g, first, cov):
    n, p = ref.GATES[g]
    for rest in itertools.product(ref.GRID, repeat=p - 1):
        ops = [[g, [first, *rest], list(range(n)), None, None]]
        circ = fill(drive.new_circuit([n]), ops)
        check(circ, ops, lambda: "circuit %s" % ops, cov, dis=False)
        cov.state("grid", g, first, rest)


def do_values(g, v, cov):
    n, p = ref.GATES[g]
    for pos in range(p):
        ops = []
        for q in range(2):
            vals = list(ref.DEF[p])
            vals[pos] = VALUES[(v + q) % len(VALUES)]
            ops.append([g, vals, list(range(n)), None, None])
        for one in (ops[:1], ops):
            circ = fill(drive.new_circuit([n]), one)
            check(circ, one, lambda: "circuit %s" % one, cov, dis=pos == 0)
        cov.state("values", g, pos, v)
    # all parameters alike, and all but one
    for pos in range(-1, p if p > 2 else 0):
        vals = [VALUES[v]] * p
        if pos >= 0:
            vals[pos] = VALUES[(v + 1) % len(VALUES)]
        for gates in ([vals], [vals, ref.DEF[p]], [ref.DEF[p], vals]):
            ops = [[g, list(x), list(range(n))[::1 if i else -1], None, None] for i, x in enumerate(gates)]
            circ = fill(drive.new_circuit([n]), ops)
            check(circ, ops, lambda: "circuit %s" % ops, cov, dis=pos == -1)
        cov.state("alike", g, pos, v)


ACTS = ["qubit", "qreg", "bit", "op", "ext", "remove", "reset", "module"]


def do_edits(acts, k, cov):
    edits.run(acts, lambda circ, ops, sizes, txt: check(circ, ops, txt, cov, options=OPTIONS if k < 0 else [OPTIONS[k]]), cov)


def do_history(acts, cov):
    """The export describes the circuit as it currently is; modules can be compiled repeatedly."""
    from dwave.gate.circuit import Circuit
    from dwave.gate.qir.compiler import CompileError, qir_module

    circ = Circuit(1)
    circ.add_qregister(1)
    first, second, nb = 1, 1, 0
    model = []  # (gate, [(register, index)])
    more = 0

    def flat(e):
        return e[1] if e[0] == 0 else (first + e[1] if e[0] == 1 else first + second + e[1])

    for i, a in enumerate(acts):
        a = ACTS[a]
        if a == "qubit":
            circ.add_qubit()
            first += 1
        elif a == "qreg":
            circ.add_qregister(1)
            more += 1
        elif a == "bit":
            circ.add_bit()
            nb += 1
        elif a in ("op", "ext"):
            e = (1, 0)
            f = (0, first - 1)
            circ.unlock()
            with circ.context as (q, c):
                name = "CX" if a == "op" else "CRY"
                drive.make_op([name, list(ref.DEF[ref.GATES[name][1]]), [flat(e), flat(f)], None, None], list(q), [])
            model.append((name, [e, f]))
        elif a == "remove" and model:
            # the first equal operation goes
            circ.remove(circ.circuit[-1])
            model.remove(model[-1])
        elif a == "reset":
            circ.reset()
            model.clear()
        ops = [[g, list(ref.DEF[ref.GATES[g][1]]), [flat(e) for e in qs], None, None] for g, qs in model]
        txt = lambda: "after %s" % [ACTS[x] for x in acts[: i + 1]]  # noqa: E731
        if a == "module":
            m = qir_module(circ, add_external=True)
            compare(m.qir, ops, circ.num_qubits, nb, txt)
            for k in range(2):
                m.compile(force=True)
                compare(m.qir, ops, circ.num_qubits, nb, lambda: txt() + " compiled again")
            try:
                m.compile()
                require(False, lambda: "%s: compiled twice without force" % txt())
            except CompileError:
                pass
            compare(m.qir, ops, circ.num_qubits, nb, lambda: txt() + " after a refused compilation")
        if i == len(acts) - 1 or a == "module":
            out = circ.to_qir(add_external=True)
            compare(out, ops, circ.num_qubits, nb, txt)
            require(circ.num_qubits == first + second + more, lambda: "%s: %d qubits" % (txt(), circ.num_qubits))
        cov.state("history", repr(ops), first, second, more, nb)
        cov.step()


def do_alias(a, cov):
    g = ref.ALIASES[a]
    n = ref.GATES[g][0]
    for qs in itertools.permutations(range(n)):
        circ = fill(drive.new_circuit([1] * n), [[a, [], list(qs), None, None]])
        check(circ, [[g, [], list(qs), None, None]], lambda: "alias %s" % a, cov)
        cov.state("alias", a, qs)


def refused(circ, txt, cov):
    for add in (True, False):
        for bitcode in (False, True):
            try:
                out = circ.to_qir(add_external=add, bitcode=bitcode)
            except Exception:
                cov.outcome("refused")
                cov.step()
                continue
            require(False, lambda: "%s (add_external=%s) is exported as %s" % (txt(), add, out))


def do_mid(n, i, cov):
    """Gates after measurements cannot be expressed."""
    gate = alphabet(n)[i]
    if gate[0] == "Identity":
        return
    for k in range(1, n + 1):
        for qs in itertools.permutations(range(n), k):
            m = ["Measurement", [], list(qs), list(range(k)), None]
            for ops in ([m, gate], [gate, m, gate], [m, m, gate], [m, ["Identity", [], [0], None, None], gate],
                        [m, gate, m]):
                circ = fill(drive.new_circuit([n], [n]), ops)
                refused(circ, lambda: "gate after a measurement: %s" % ops, cov)
            cov.state("mid", n, i, qs)


def do_refuse(cov):
    import dwave.gate.operations as ops_mod
    from dwave.gate.circuit import ParametricCircuit
    from dwave.gate.operations import create_operation
    from dwave.gate.operations.base import ControlledOperation

    class CCZ(ControlledOperation):
        _num_control = 2
        _num_target = 1
        _target_operation = ops_mod.Z

    for op in alphabet(3) + [["Measurement", [], [1], [0], None], ["Measurement", [], [0, 2], [1, 0], None]]:
        for bits in ([0], [1, 0]):
            for val in (None, 0, 1):
                for first in (True, False):
                    ops = [op[:4] + [bits]]
                    if not first:
                        ops = [["X", [], [0], None, None], ["Measurement", [], [1], [0], None]] + ops
                    circ = fill(drive.new_circuit([2, 1], [2]), ops)
                    if val is not None:
                        for b in circ.bits:
                            b.set(val)
                    refused(circ, lambda: "conditional %s" % op, cov)
                cov.state("conditional", repr(op), tuple(bits), val)
    for kind in ("Barrier", "unstored", "CCZ", "custom"):
        circ = drive.new_circuit([3], [3])
        src = drive.new_circuit([1])
        fill(src, [["Hadamard", [], [0], None, None]])
        with circ.context as (q, c):
            if kind == "Barrier":
                ops_mod.Barrier(list(q))
            elif kind == "unstored":
                ops_mod.Measurement(list(q))
            elif kind == "CCZ":
                CCZ(list(q)[:2], q[2])
            else:
                create_operation(src, "HOp")(q[1])
        refused(circ, lambda: "a circuit with %s" % kind, cov)
        cov.state("refuse", kind)
    pc = ParametricCircuit(1)
    with pc.context as r:
        ops_mod.RX(r.p[0], r.q[0])
    refused(pc, lambda: "unset variables", cov)


EXPECT_OUTCOMES = ("edits", "empty", "circ", "measure", "grid", "values", "history", "alias", "mid", "refuse", "again", "refused", "external refused", "wide")
