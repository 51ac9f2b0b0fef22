"""Drives the real implementation through its public API."""
import numpy as np


def mods():
    import dwave.gate.operations as ops
    from dwave.gate import Circuit, CircuitContext, ParametricCircuit
    from dwave.gate.simulator import simulate

    return ops, Circuit, ParametricCircuit, CircuitContext, simulate


_ops = None


def op_class(name):
    global _ops
    if _ops is None:
        import dwave.gate.operations as _ops_mod

        _ops = _ops_mod
    return getattr(_ops, name)


_calls = [0]


def start_case(key):
    """Labels are chosen from a sequence fixed by the case (see relabel)."""
    _calls[0] = key


def relabel(circ, mode):
    """Labels carry no meaning: 0 keeps the default labels, 1 gives every element the
    same label, 2 permutes the default labels (bits and qubits share them)."""
    for xs in (list(circ.qubits), list(circ.bits)):
        for i, x in enumerate(xs):
            if mode == 1:
                x.label = "a"
            elif mode == 2:
                x.label = "q%d" % (len(xs) - 1 - i)


def new_circuit(q, c=(), cls=None):
    from dwave.gate.circuit import Circuit

    circ = (cls or Circuit)()
    for s in q:
        circ.add_qregister(s)
    for s in c:
        circ.add_cregister(s)
    _calls[0] += 1
    relabel(circ, _calls[0] % 3)
    return circ


def make_op(op, Q, C, P=None):
    """Create the operation of a program entry on the given qubits/bits (recorded by
    the active context, if any)."""
    name, params, qs = op[0], op[1], op[2]
    bits = op[3] if len(op) > 3 else None
    conds = op[4] if len(op) > 4 else None
    cls = op_class(name)
    quds = [Q[i] for i in qs]
    if name == "Measurement":
        o = cls(quds)
        if bits is not None:
            o | [C[b] for b in bits]
    elif params:
        vals = [P[p["v"]] if isinstance(p, dict) else p for p in params]
        o = cls(vals, qubits=quds)
    else:
        o = cls(qubits=quds)
    if conds:
        o.conditional([C[b] for b in conds])
    return o


def fill(circ, ops):
    """Record the operations in the circuit's context."""
    with circ.context as reg:
        Q, C = list(circ.qubits), list(circ.bits)
        P = getattr(reg, "p", None)
        for op in ops:
            make_op(op, Q, C, P)
    return circ


def build(prog, cls=None):
    return fill(new_circuit(prog["q"], prog.get("c", ()), cls), prog["ops"])


def norm_param(p):
    if hasattr(p, "name") and hasattr(p, "set"):
        return ("var", p.name)
    return p


def conditions(o, bits):
    """The bits an operation is conditioned on, found by probing: with every bit set to 1
    it must not be blocked, and clearing a condition must block it."""
    saved = [b.value for b in bits]
    try:
        for b in bits:
            b.set(1, force=True)
        if o.is_blocked:
            return ("blocked",)
        out = []
        for i, b in enumerate(bits):
            b.set(0, force=True)
            if o.is_blocked:
                out.append(i)
            b.set(1, force=True)
        return tuple(out)
    finally:
        for b, v in zip(bits, saved):
            if v is None:
                b.reset()
            else:
                b.set(v, force=True)


def snapshot(circ, conds=True):
    """Observable content of a circuit: its operations in order."""
    Q = {id(q): i for i, q in enumerate(circ.qubits)}
    C = {id(b): i for i, b in enumerate(circ.bits)}
    bits = list(circ.bits) if conds else None
    return tuple(op_view(o, Q, C, bits) for o in circ.circuit)


def op_view(o, Q, C, bits=None):
    """(kind, parameters, qubits, control, target, bits, conditions) by identity."""

    def ids(xs, M):
        if xs is None:
            return None
        return tuple(M.get(id(x), "?" + repr(x)) for x in xs)

    return (
        type(o).__name__,
        tuple(norm_param(p) for p in getattr(o, "parameters", ()) or ()),
        ids(o.qubits, Q),
        ids(getattr(o, "control", None), Q),
        ids(getattr(o, "target", None), Q),
        ids(getattr(o, "bits", None), C),
        conditions(o, bits) if bits else (),
    )


def expected_view(op):
    """What op_view must report for a program entry."""
    name, params, qs = op[0], tuple(op[1]), tuple(op[2])
    bits = tuple(op[3]) if len(op) > 3 and op[3] is not None else None
    conds = tuple(sorted(op[4])) if len(op) > 4 and op[4] else ()
    from . import ref

    ctl = tgt = None
    if name in ref.CONTROLLED:
        ctl, tgt = qs[:1], qs[1:]
    return (name, params, qs, ctl, tgt, bits, conds)


def bitvals(circ):
    return [b.value for b in circ.bits]
