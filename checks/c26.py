"""C26: every way of passing a program on preserves what it does."""
import copy
import itertools
import pickle
import signal

import numpy as np

from mc import branch, drive, qasm, qir, ref
from mc.core import require

PROPERTY = "C26"
RULE = (
    "every chain of the stated length of ways to pass a program on (copying, pickling, applying, applying twice, applying "
    "together with the first circuit, binding or evaluating variables, appending or re-applying its operations, exporting "
    "and loading QIR as text, bitcode or into another circuit) and to change or use circuits in between (adding, removing, "
    "conditioning, extending by its own operations, adding qubits, simulating pure or mixed, reading everything, wiping or "
    "changing the preceding circuit), from every base circuit: afterwards every circuit of the chain holds exactly the "
    "operations the chain gives it, and its simulation (both orders, pure and mixed), unitary, OpenQASM, QIR and matrix as an operation all denote them"
)
BOUNDS = {
    "quick": dict(all=3, core=4, loop=((1, 6), (1, 33)), pairs=8),
    "thorough": dict(all=3, core=6, loop=((1, 65), (2, 6), (2, 17)), pairs=8),
}
ASSUMPTIONS = ["conditions and bits are not claimed for operations re-applied by calling them",
               "consecutive measurements may be grouped into one operation by loading; identities are not exported to QIR"]
EXPECT_OUTCOMES = ("pure", "measured", "conditional", "variables", "refused", "qasm", "qir", "skipped", "loop")

V = lambda i: {"v": i}  # noqa: E731
G = lambda name, qs, ps=(), conds=(): [name, list(ps), list(qs), None, list(conds)]  # noqa: E731
M = lambda q, b, conds=(): ["Measurement", [], [q], [b], list(conds)]  # noqa: E731

# kind: (quantum registers, classical registers, parametric, operations)
BASES = [
    ([2], [], False, [G("Hadamard", [1]), G("CRotation", [1, 0], (0.4, 1.1, -0.9)), G("T", [0]), G("CY", [0, 1])]),
    ([1, 2], [1], False, [G("RX", [2], (0.7,)), G("Hadamard", [0]), G("CSWAP", [0, 2, 1]), G("Identity", [1]),
                          G("CCX", [2, 0, 1]), G("RZ", [1], (-1e-5,))]),
    ([1, 1], [2], False, [G("RY", [0], (1.1,)), G("CX", [0, 1]), G("S", [1]), M(1, 0), M(0, 1)]),
    ([2], [1, 2], False, [G("Hadamard", [0]), M(0, 1), G("RY", [1], (0.6,), [1]), G("CHadamard", [1, 0]), M(1, 0, [1]),
                          G("X", [1], (), [0, 1]), M(0, 2), G("Y", [0], (), [0, 1, 2])]),
    ([2], [1], True, [G("RX", [0], (V(0),)), G("Rotation", [1], (V(1), 0.5, V(0))), G("CRZ", [1, 0], (V(1),)), G("Hadamard", [0])]),
    ([1, 1], [2], True, [G("Hadamard", [0]), G("CRX", [0, 1], (V(0),)), M(1, 1), G("RZ", [0], (V(0),), [1]), G("RY", [0], (V(1),))]),
    ([1], [], False, [G("Hadamard", [0]), G("T", [0]), G("RX", [0], (-2,))]),
    ([0], [], False, []),
]
CORE = ["copy", "apply", "qir", "append", "more", "eval"]
LETTERS = CORE + ["pickle", "twice", "both", "bitcode", "into", "reapply", "rm", "cond", "addq", "sim", "mixed", "read", "wipe", "cut", "extend"]
VALS = [0.3, -1.25, 0]


def generate(b):
    for base in range(len(BASES)):
        for k in range(b["all"] + 1):
            for word in itertools.product(LETTERS, repeat=k):
                yield ["chain", base, list(word)]
        for k in range(b["all"] + 1, b["core"] + 1):
            for word in itertools.product(CORE, repeat=k):
                yield ["chain", base, list(word)]
        for k, times in b["loop"]:
            for word in itertools.product(LETTERS, repeat=k):
                if any(w in ("twice", "both") for w in word):
                    continue  # grows exponentially
                yield ["loop", base, list(word), times]
    # a chain, then every pair of uses of every earlier circuit
    for base in range(len(BASES)):
        for word in itertools.product(CORE, repeat=2):
            for use in itertools.product(("more", "rm", "cond", "sim", "wipe", "eval", "copy", "addq")[: b["pairs"]], (0, 1)):
                yield ["earlier", base, list(word), list(use)]


class Circ:
    """A circuit and the program it must hold."""

    def __init__(self, circ, nq, nb, ops):
        self.circ, self.nq, self.nb, self.ops = circ, nq, nb, ops
        self.exact = True  # its operations are known one by one

    @property
    def unbound(self):
        return any(isinstance(p, dict) for o in self.ops for p in o[1])

    @property
    def measured(self):
        return any(o[0] == "Measurement" for o in self.ops)

    @property
    def conditional(self):
        return any(o[4] for o in self.ops)

    @property
    def expressible(self):
        """Whether QIR can express the program (None: left open)."""
        if self.conditional or self.unbound:
            return False
        seen, left_open = False, False
        for o in self.ops:
            if o[0] == "Measurement":
                seen = True
            elif seen and o[0] == "Identity":
                left_open = True
            elif seen:
                return False
        return None if left_open else True


def mapped(ops, qm, bm, vals=None):
    return [[o[0], [vals[p["v"]] if isinstance(p, dict) else p for p in o[1]], [qm[q] for q in o[2]],
             None if o[3] is None else [bm[b] for b in o[3]], [bm[b] for b in o[4]]] for o in ops]


def shared(new, old):
    """The same, where operations held twice stay so."""
    seen = {}
    return [seen.setdefault(id(o), x) for x, o in zip(new, old)]


def start(base):
    from dwave.gate.circuit import Circuit, ParametricCircuit

    q, c, par, ops = BASES[base]
    circ = drive.new_circuit(q, c, ParametricCircuit if par else Circuit)
    if par:
        with circ.context as reg:
            reg.p[1]
        circ.unlock()
    drive.fill(circ, ops)
    return Circ(circ, sum(q), sum(c), copy.deepcopy(ops))


def apply(inner, outer, qm, bm):
    """Within the open context of outer."""
    from dwave.gate.circuit import ParametricCircuit

    Q, B = list(outer.qubits), list(outer.bits)
    args = ([Q[i] for i in qm], [B[i] for i in bm])
    if isinstance(inner.circ, ParametricCircuit):
        inner.circ(VALS[: inner.circ.num_parameters], *args)
    else:
        inner.circ(*args)
    return mapped(inner.ops, qm, bm, VALS)


def refused(f, txt, what):
    try:
        f()
    except Exception:
        return
    require(False, lambda: "%s: %s is not refused" % (txt(), what))


class Skip(Exception):
    """The step is not claimed for the circuit at hand."""


def step(chain, a, txt, cov):
    """Do one step; appends to the chain if a new circuit arises."""
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string
    from dwave.gate.simulator import simulate
    import dwave.gate.operations as OPS

    m = chain[-1]
    c = m.circ
    if a in ("copy", "pickle"):
        d = copy.deepcopy(c) if a == "copy" else pickle.loads(pickle.dumps(c))
        new = Circ(d, m.nq, m.nb, copy.deepcopy(m.ops))
    elif a in ("apply", "twice", "both"):
        first = chain[0]
        n, k = m.nq, m.nb
        if a == "both":
            n, k = max(n, first.nq), max(k, first.nb)
        if len(m.ops) > 60:
            raise Skip
        more = 1 if a == "apply" and n < 4 else 0
        n += more
        outer = drive.new_circuit([1, n - 1] if n > 1 else [n], [k, more], ParametricCircuit if a == "twice" else Circuit)
        k += more
        qm, bm = [(i + 1) % n for i in range(m.nq)], list(range(k))[::-1][: m.nb]
        with outer.context as reg:
            if a == "both":
                ops = apply(first, outer, list(range(first.nq)), list(range(first.nb)))
                ops += apply(m, outer, qm, bm)
            elif a == "twice":
                ops = apply(m, outer, list(range(m.nq)), list(range(m.nb)))
                ops += apply(m, outer, qm[::-1], bm)
            else:
                ops = []
                if n:
                    OPS.S(reg.q[0])
                    ops = [G("S", [0])]
                ops += apply(m, outer, qm, bm)
        new = Circ(outer, n, k, ops)
    elif a in ("qir", "bitcode", "into"):
        bitcode = a == "bitcode"
        if m.unbound or m.expressible is None or a == "into" and m.nq > 6:
            raise Skip
        if not m.expressible:
            refused(lambda: c.to_qir(add_external=True, bitcode=bitcode), txt, "exporting a program that QIR cannot express")
            cov.outcome("refused")
            return
        data = c.to_qir(add_external=True, bitcode=bitcode)
        flat = [copy.deepcopy(o) for o in m.ops if o[0] != "Identity"]
        if a == "into":
            # as many qubits and bits as there are already are used
            outer = drive.new_circuit([m.nq, 1], [1])
            with outer.context as reg:
                OPS.Y(reg.q[m.nq])
                OPS.RX([0.25], reg.q[m.nq])
            load_qir_string(data, outer)
            new = Circ(outer, m.nq + 1, max(1, m.nb), [G("Y", [m.nq]), G("RX", [m.nq], (0.25,))] + flat)
        else:
            new = Circ((load_qir_bitcode if bitcode else Circuit.from_qir)(data), m.nq, m.nb, flat)
    elif a == "append":
        if m.unbound:
            raise Skip
        d = Circuit()
        for x in c.qubits:
            d.add_qubit(x)
        for x in c.bits:
            d.add_bit(x)
        half = len(c.circuit) // 2
        for o in c.circuit[:half]:
            d.append(o)
        d.extend(c.circuit[half:])
        new = Circ(d, m.nq, m.nb, list(m.ops))  # the operations are shared
    elif a == "reapply":
        if m.unbound or m.measured or m.conditional:
            raise Skip
        d = drive.new_circuit([m.nq], [m.nb])
        with d.context as reg:
            for o in c.circuit:
                qs = [reg.q[c.qubits.index(x)] for x in o.qubits]
                o(qs[:1], qs[1:]) if hasattr(o, "control") else o(qs)
        new = Circ(d, m.nq, m.nb, [copy.deepcopy(o) for o in m.ops])
    elif a == "eval":
        if not isinstance(c, ParametricCircuit) or grouped(m):
            raise Skip
        vals = [[VALS[p["v"]] if isinstance(p, dict) else p for p in o[1]] for o in m.ops]
        new = Circ(c.eval(vals), m.nq, m.nb, shared(mapped(m.ops, list(range(m.nq)), list(range(m.nb)), VALS), m.ops))
    else:
        if a in ("wipe", "cut"):
            if len(chain) < 2:
                raise Skip
            m = chain[-2]
            c = m.circ
        if a == "more":
            if not m.nq:
                raise Skip
            c.unlock()
            with c.context as reg:
                Q = list(c.qubits)
                OPS.SWAP([Q[-1], Q[0]]) if m.nq > 1 else OPS.Y(Q[0])
                OPS.RY([0.9], Q[0])
                if isinstance(c, ParametricCircuit) and c.num_parameters:
                    OPS.RZ([reg.p[0]], Q[-1])
                    extra = [G("RZ", [m.nq - 1], (V(0),))]
                else:
                    extra = []
            m.ops += [G("SWAP", [m.nq - 1, 0]) if m.nq > 1 else G("Y", [0]), G("RY", [0], (0.9,))] + extra
        elif a in ("rm", "cut"):
            if not m.ops or m.ops[0][0] == "Measurement":
                raise Skip
            c.remove(c.circuit[0])
            del m.ops[0]
        elif a == "cond":
            if not m.nb or not m.ops or m.ops[-1][0] == "Measurement" or m.ops[-1][4]:
                raise Skip
            c.circuit[-1].conditional(c.bits[m.nb - 1])
            m.ops[-1][4] = [m.nb - 1]
        elif a == "addq":
            if m.nq > 4:
                raise Skip
            c.add_qubit(qreg_label=list(c.qregisters)[-1] if c.qregisters else None)
            m.nq += 1
        elif a in ("sim", "mixed"):
            if m.unbound or a == "mixed" and m.measured or not m.nq:
                raise Skip
            simulate(c, mixed_state=a == "mixed", rng_seed=3)
        elif a == "read":
            reading(m, txt, cov)
        elif a == "wipe":
            c.reset()
            m.ops = []
        elif a == "extend":
            # by its own operations, each then held twice
            if len(m.ops) > 30:
                raise Skip
            c.unlock()
            left = signal.alarm(10)
            c.extend(c.circuit)
            signal.alarm(left)
            m.ops = m.ops + m.ops
        return
    chain.append(new)


def grouped(m):
    return len(m.ops) != len(m.circ.circuit)


_names = []


def flat_view(circ):
    out = []
    for name, params, qs, ctl, tgt, bits, conds in drive.snapshot(circ):
        params = tuple({"v": int(p[1])} if isinstance(p, tuple) else p for p in params)
        if name == "Measurement":
            require(bits is not None and len(bits) == len(qs), lambda: "measurement of %s into %s" % (qs, bits))
            out += [[name, [], [q], [b], sorted(conds)] for q, b in zip(qs, bits)]
        else:
            if ctl is not None:
                require((ctl, tgt) == (qs[:1], qs[1:]), lambda: "control %s, target %s, qubits %s" % (ctl, tgt, qs))
            out.append([name, list(params), list(qs), None, sorted(conds)])
    return out


_leaves = {}


def leaves(m):
    key = repr((m.nq, m.nb, m.ops))
    if key not in _leaves:
        if len(_leaves) > 500:
            _leaves.clear()
        _leaves[key] = branch.leaves(m.ops, m.nq, m.nb)
    return _leaves[key]


def reading(m, txt, cov, light=False):
    """Everything the circuit says about its program."""
    from dwave.gate.circuit import CircuitContext, ParametricCircuit
    from dwave.gate.operations import create_operation
    from dwave.gate.simulator import simulate
    from dwave.gate.tools.unitary import build_unitary

    c, ops, n = m.circ, m.ops, m.nq
    require(CircuitContext.active_context is None, lambda: "%s: a context is open" % txt())
    require((c.num_qubits, c.num_bits) == (m.nq, m.nb), lambda: "%s: %d qubits and %d bits instead of %d and %d" % (
        txt(), c.num_qubits, c.num_bits, m.nq, m.nb))
    got = flat_view(c)
    want = [[o[0], list(o[1]), list(o[2]), o[3], sorted(o[4])] for o in ops]
    require(got == want, lambda: "%s: holds %s instead of %s" % (txt(), got, want))
    if m.unbound:
        cov.outcome("variables")
        return
    for b in c.bits:
        b.reset()
    if n:
        L = leaves(m)
        for seed in (1,) if light else (1, 2):
            simulate(c, rng_seed=seed)
            bits = tuple(b.value for b in c.bits)
            require(any(l.bits == bits and ref.close(c.state, l.state, 1e-7) for l in L),
                    lambda: "%s: simulated state %s with bits %s, possible are %s"
                    % (txt(), np.round(c.state, 5).tolist(), bits, [(l.bits, np.round(l.state, 5).tolist()) for l in L[:8]]))
    for b in c.bits:
        b.reset()
    cov.outcome("measured" if m.measured else "conditional" if m.conditional else "pure")
    if light:
        return
    if n and not m.measured:
        v = leaves(m)[0].state
        simulate(c, little_endian=True)
        require(ref.close(c.state, ref.reverse(v, n), 1e-7), lambda: "%s: wrong state in little-endian order" % txt())
        simulate(c, mixed_state=True)
        require(ref.close(c.density_matrix, ref.rho(v), 1e-7), lambda: "%s: wrong density matrix" % txt())
        if not m.conditional:
            U = ref.unitary(ops, n)
            supported = all(len(o[2]) == 1 or o[0] in ref.CONTROLLED for o in ops)
            if supported:
                require(ref.close(build_unitary(c), U, 1e-7), lambda: "%s: wrong unitary" % txt())
            if supported and ops:
                op = create_operation(c, name="Op")
                mat = op([0.0] * op.num_parameters, qubits=list(c.qubits)).matrix if getattr(op, "num_parameters", 0) else op.matrix
                require(ref.close(mat, U, 1e-7), lambda: "%s: wrong matrix of the operation made of it" % txt())
            if not isinstance(c, ParametricCircuit):
                text = c.to_qasm()
                r = qasm.Reader(text, dict(qasm.DOCUMENTED))
                require(ref.close(r.unitary(), U, 1e-7) and [o[2] for o in r.ops] == [o[2] for o in ops],
                        lambda: "%s: wrong OpenQASM: %s" % (txt(), text))
                cov.outcome("qasm")
    e = m.expressible
    if e:
        text = c.to_qir(add_external=True)
        p = qir.Program(text)
        require((p.qubits, p.results) == (m.nq, m.nb), lambda: "%s: wrong numbers in QIR: %s" % (txt(), text))
        require([(f, [(k, float(x)) for k, x in a]) for f, a in p.calls] ==
                [(f, [(k, float(x)) for k, x in a]) for f, a in qir.expected_calls(ops)],
                lambda: "%s: QIR calls %s instead of %s" % (txt(), p.calls, qir.expected_calls(ops)))
        cov.outcome("qir")
    elif e is False:
        refused(lambda: c.to_qir(add_external=True), txt, "exporting a program that QIR cannot express")
        cov.outcome("refused")
    require(flat_view(c) == want, lambda: "%s: reading changed the circuit" % txt())


def run_case(case, cov):
    kind, base, word = case[:3]
    if kind == "loop":
        word = word * case[3]
        cov.outcome("loop")
    txt = lambda: "base circuit %d, then %s" % (base, ", ".join(word))  # noqa: E731
    chain = [start(base)]
    for a in word:
        try:
            step(chain, a, txt, cov)
        except Skip:
            cov.outcome("skipped")
        cov.step()
    if kind == "earlier":
        a, which = case[3]
        if which < len(chain) - 1:
            part = chain[: which + 1]
            rest = chain[which + 1:]
            try:
                step(part, a, txt, cov)
            except Skip:
                cov.outcome("skipped")
            chain = part + rest
            txt = lambda: "base circuit %d, then %s, then %s of circuit %d" % (base, ", ".join(word), a, which)  # noqa: E731
    for i in range(len(chain) - 1, -1, -1):
        reading(chain[i], lambda: "%s: circuit %d of %d" % (txt(), i + 1, len(chain)), cov,
                light=i < len(chain) - 1 and (len(word) > 1))
    cov.state(base, repr([(m.nq, m.nb, m.ops) for m in chain]))
