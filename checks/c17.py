"""C17: QIR loading reconstructs the program, and round trips preserve it."""
import itertools
import math

from mc import drive, qir, ref
from mc.core import require

PROPERTY = "C17"
RULE = (
    "every QIR program of the stated length over every known quantum function (every ordered tuple of qubits), "
    "measurements and runtime calls, split into blocks at every position, with code after the return, unknown "
    "functions, null or cast first elements, both literal styles, more qubits and results declared than used: "
    "written by an independent writer, loaded as text and bitcode into a fresh or an existing circuit and compared "
    "operation by operation; wide and long programs; every circuit of the stated length exported and loaded back"
)
BOUNDS = {
    "quick": dict(sizes=((1, 2), (2, 2), (3, 1)), mix=4, trip=((1, 2), (2, 2), (3, 1)), wide=ref.WIDE[:7]),
    "thorough": dict(sizes=((1, 3), (2, 2), (3, 2), (4, 1)), mix=5, trip=((1, 3), (2, 2), (3, 2)), wide=ref.WIDE),
}
ASSUMPTIONS = [
    "programs consist of one function; blocks follow one another in order",
    "consecutive measurements may be grouped into one operation; identities are not exported",
]
FUNCS = dict(qir.QIS)
EXTRA_NAMES = {"CX": ["cnot", "cx"], "Identity": ["id"]}
VALUES = [0.0, 1.0, -1.0, -2.0, 0.1, 0.1 + 1e-7, 1 / 3, math.pi, -1e-5, 1e22, 5e-324]


def generate(b):
    for n, k in b["sizes"]:
        N = len(alphabet(n))
        for l in range(1, k + 1):
            for idx in itertools.product(range(N), repeat=l):
                yield ["prog", n, list(idx)]
    for d in range(1, b["mix"] + 1):
        for idx in itertools.product(range(len(MIX)), repeat=d):
            yield ["mix", list(idx)]
    for g, (n, p) in ref.GATES.items():
        if p:
            yield ["values", g]
    for n, k in b["trip"]:
        N = len(alphabet(n))
        for l in range(0, k + 1):
            for idx in itertools.product(range(N), repeat=l):
                yield ["trip", n, list(idx)]
    for i in range(len(UNKNOWN)):
        yield ["unknown", i]
    for n in b["wide"]:
        for lay in range(len(ref.wide_layouts(n))):
            yield ["wide", n, lay]
    for nq in range(0, 4):
        for nr in range(0, 4):
            yield ["declared", nq, nr]
    for e in range(len(EXISTING)):
        for d in range(1, 3):
            for idx in itertools.product(range(len(MIX)), repeat=d):
                yield ["existing", e, list(idx)]


_alpha = {}


def alphabet(n):
    if n not in _alpha:
        _alpha[n] = ref.alphabet(n)
    return _alpha[n]


MIX = [
    ["Hadamard", [], [0], None, None], ["CX", [], [2, 1], None, None], ["RZ", [-0.3], [1], None, None],
    ["Measurement", [], [1], [0], None], ["Measurement", [], [0], [2], None], ["Measurement", [], [2], [1], None],
    ["rt", "__quantum__rt__initialize", [("i8", 0)]],
    ["rt", "__quantum__rt__result_record_output", [("result", 1), ("i8", 0)]],
]
UNKNOWN = [
    ("__quantum__qis__foo__body", [("qubit", 0)]), ("__quantum__qis__s__adj", [("qubit", 0)]),
    ("__quantum__qis__t__adj", [("qubit", 0)]), ("__quantum__qis__reset__body", [("qubit", 1)]),
    ("__quantum__qis__rx__ctl", [("double", 0.5), ("qubit", 0)]), ("__quantum__qis__u3__body", [("double", 0.5), ("qubit", 0)]),
    ("__quantum__qis__X__body", [("qubit", 0)]), ("__quantum__qis__xx__body", [("qubit", 0)]),
    ("__quantum__qis__m__body", [("qubit", 0), ("result", 0)]), ("__quantum__qis__x", [("qubit", 0)]),
    ("__quantum__qis__barrier__body", [("qubit", 0)]),
    ("__quantum__qis__Measurement__body", [("qubit", 0), ("result", 0)]),
]


def call(o, name=None):
    if o[0] == "rt":
        return (o[1], o[2])
    if o[0] == "Measurement":
        return ("__quantum__qis__mz__body", [("qubit", o[2][0]), ("result", o[3][0])])
    return ("__quantum__qis__%s__body" % (name or FUNCS[o[0]]), [("double", p) for p in o[1]] + [("qubit", q) for q in o[2]])


def flat(ops):
    """Operations as a flat sequence; measurements per qubit."""
    out = []
    for o in ops:
        if o[0] == "rt":
            continue
        if o[0] == "Measurement":
            out += [("Measurement", q, b) for q, b in zip(o[2], o[3])]
        else:
            out.append((o[0], tuple(o[1]), tuple(o[2])))
    return out


def flat_circuit(circ):
    out = []
    for name, params, qs, ctl, tgt, bits, conds in drive.snapshot(circ):
        require(conds == (), "loaded operations are conditional")
        if name == "Measurement":
            require(bits is not None and len(bits) == len(qs), lambda: "loaded measurement of %s into %s" % (qs, bits))
            out += [("Measurement", q, b) for q, b in zip(qs, bits)]
        else:
            require(ctl is None or ctl + tgt == qs, "control and target differ from the qubits")
            out.append((name, params, qs))
    return out


def load(text, how, circ=None):
    import pyqir

    from dwave.gate.circuit import Circuit
    from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string

    bit = how in ("bitcode", "from_bitcode")
    data = pyqir.Module.from_ir(pyqir.Context(), text).bitcode if bit and isinstance(text, str) else text
    if how.startswith("from_"):
        return Circuit.from_qir(data, bitcode=bit)
    f = load_qir_bitcode if bit else load_qir_string
    kw = {}
    if len(text) % 3 == 0:
        kw["context"] = pyqir.Context()
    elif len(text) % 3 == 1:
        kw["context"] = _shared.setdefault("context", pyqir.Context())
    if circ is None:
        return f(data, **kw)
    r = f(data, circ, **kw)
    require(r is circ, "loading into a circuit returns another one")
    return r


_shared = {}
HOW = ("string", "bitcode", "from_string", "from_bitcode")


def closed(txt):
    from dwave.gate.circuit import CircuitContext

    require(CircuitContext.active_context is None, lambda: "%s: a context is left open" % txt())


def verify(circ, ops, nq, nr, txt):
    got, exp = flat_circuit(circ), flat(ops)
    require(got == exp, lambda: "%s: loaded %s instead of %s" % (txt(), got, exp))
    require((circ.num_qubits, circ.num_bits) == (nq, nr), lambda: "%s: %d qubits and %d bits instead of %d and %d" % (
        txt(), circ.num_qubits, circ.num_bits, nq, nr))
    closed(txt)


def run_case(case, cov):
    globals()["do_" + case[0]](*case[1:], cov)
    cov.outcome(case[0])


def do_prog(n, idx, cov):
    ops = [alphabet(n)[i] for i in idx]
    names = [EXTRA_NAMES.get(o[0], [FUNCS.get(o[0])]) for o in ops]
    m = ["Measurement", [], [n - 1], [0], None]
    k = sum(idx)
    for j, ns in enumerate(itertools.product(*names)):
        calls = [call(o, x) for o, x in zip(ops, ns)]
        for style in range(2):
            how = HOW[(k + style + 2 * j) % 4]
            calls_m = calls + [call(m)] if style else calls
            text = qir.write([calls_m], n, style, null0=bool((k + j) % 2), style=style)
            verify(load(text, how), ops + [m] if style else ops, n, style, lambda: "%s (%s): %s" % (how, ns, text))
            cov.step(len(calls_m))
        if len(idx) == 1:
            for how in HOW:
                for null0 in (True, False):
                    text = qir.write([calls], n + 1, 0, null0=null0)
                    verify(load(text, how), ops, n + 1, 0, lambda: "%s: %s" % (how, text))
    cov.state(n, tuple(idx))


def do_mix(idx, cov):
    """Measurements, gates and runtime calls in every order; blocks; code after the return."""
    ops = [MIX[i] for i in idx]
    calls = [call(o) for o in ops]
    d = len(calls)
    dead = [call(MIX[1]), call(MIX[3]), ("__quantum__qis__foo__body", [("qubit", 7)])]
    for j, cut in enumerate(range(0, d + 1)):
        blocks = [calls[:cut], calls[cut:]]
        for tail in (None, dead):
            text = qir.write(blocks, 3, 3, tail=tail)
            how = HOW[(sum(idx) + j) % 4]
            verify(load(text, how), ops, 3, 3, lambda: "%s: %s" % (how, text))
            cov.step(d)
    if d > 2:
        text = qir.write([[c] for c in calls], 3, 3)
        verify(load(text, HOW[d % 4]), ops, 3, 3, lambda: "one call per block: %s" % text)
    cov.state("mix", tuple(idx))


def do_values(g, cov):
    n, p = ref.GATES[g]
    for vals in itertools.product(VALUES, repeat=p):
        ops = [[g, list(vals), list(range(n))[::-1], None, None]]
        for style in range(2):
            text = qir.write([[call(o) for o in ops]], n, 0, style=style)
            verify(load(text, HOW[style]), ops, n, 0, lambda: "%s: %s" % (g, text))
            cov.step()
        if p == 1 or 0.1 in vals or 0.0 in vals:
            circ = drive.new_circuit([n])
            with circ.context:
                for o in ops:
                    drive.make_op(o, list(circ.qubits), [])
            for bit in (False, True):
                r = load(circ.to_qir(add_external=True, bitcode=bit), "from_bitcode" if bit else "from_string")
                verify(r, ops, n, 0, lambda: "round trip of %s" % ops)
        cov.state("values", g, vals)


def do_trip(n, idx, cov):
    """Export and load back."""
    ops = [alphabet(n)[i] for i in idx]
    k = sum(idx) + len(idx)
    ms = [[], [["Measurement", [], list(range(n))[::-1], list(range(n)), None]],
          [["Measurement", [], [n - 1], [n], None], ["Measurement", [], [0], [0], None]]]
    for j, m in enumerate(ms):
        layout = [n] if (k + j) % 2 or n == 1 else [1, n - 1]
        cl = [n + 1] if (k + j) % 3 else [1, n]
        circ = drive.new_circuit(layout, cl)
        with circ.context:
            for o in ops + m:
                drive.make_op(o, list(circ.qubits), list(circ.bits))
        want = [o for o in ops + m if o[0] != "Identity"]
        bit = bool((k + j) % 2)
        text = circ.to_qir(add_external=True, bitcode=bit)
        r = load(text, "from_bitcode" if bit else "from_string")
        verify(r, want, n, n + 1, lambda: "round trip of %s" % (ops + m))
        # and once more
        again = r.to_qir(add_external=True, bitcode=not bit)
        verify(load(again, "bitcode" if not bit else "string"), want, n, n + 1, lambda: "second round trip of %s" % (ops + m))
        cov.step(2 * len(want) + 2)
        # measurement free round trips preserve the unitary as well
        if j == 0:
            M = ref.unitary(ops, n)
            got = ref.unitary([[a, list(p), list(q)] for a, p, q in flat_circuit(r)], n)
            require(ref.close(M, got), lambda: "round trip of %s changes the unitary" % ops)
    cov.state("trip", n, tuple(idx))


def do_wide(n, lay, cov):
    """Positions with several digits, long programs, measurements throughout."""
    from checks.c16 import wide_measurements

    gates = [o for o in ref.wide_ops(n) if o[0] != "Identity"]
    ms = [["Measurement", [], [q], [b], None] for m in wide_measurements(n) for q, b in zip(m[2], m[3])]
    mixed = []
    for i, g in enumerate(gates):
        if i % 5 == 0 and i // 5 < len(ms):
            mixed.append(ms[i // 5])
        mixed.append(g)
    for j, ops in enumerate((gates + ms, mixed, ms[::-1] + gates)):
        calls = [call(o) for o in ops]
        for null0 in (True, False):
            how = HOW[(j + null0 + lay) % 4]
            third = len(calls) // 3
            text = qir.write([calls[:third], calls[third:2 * third], calls[2 * third:]], n, n, null0=null0, style=lay % 2)
            verify(load(text, how), ops, n, n, lambda: "%s: %d calls on %d qubits" % (how, len(calls), n))
            cov.step(len(calls))
    ql, cl = ref.wide_layouts(n)[lay], ref.wide_layouts(n)[-1 - lay]
    circ = drive.new_circuit(ql, cl)
    ops = gates + wide_measurements(n)
    with circ.context:
        for o in ops:
            drive.make_op(o, list(circ.qubits), list(circ.bits))
    for bit in (False, True):
        r = load(circ.to_qir(add_external=True, bitcode=bit), "from_bitcode" if bit else "from_string")
        verify(r, ops, n, n, lambda: "round trip of %d operations on %d qubits, layout %s %s" % (len(ops), n, ql, cl))
        # into the circuit itself
        again = drive.new_circuit(ql[::-1], cl[::-1])
        load(circ.to_qir(add_external=True, bitcode=bit), "bitcode" if bit else "string", again)
        verify(again, ops, n, n, lambda: "round trip into a circuit with registers %s %s" % (ql[::-1], cl[::-1]))
        cov.step(len(ops))
    cov.state("wide", n, lay)


def do_unknown(i, cov):
    f = UNKNOWN[i]
    x, m = call(MIX[0]), call(MIX[3])
    for calls in ([f], [x, f], [f, x], [m, f], [f, m], [x, m, f, x]):
        for cut in range(len(calls) + 1):
            text = qir.write([calls[:cut], calls[cut:]], 2, 2)
            for how in HOW:
                try:
                    c = load(text, how)
                except TypeError:
                    cov.outcome("refused")
                    closed(lambda: f[0])
                    continue
                require(False, lambda: "%s is loaded as %s" % (f[0], drive.snapshot(c)))
            # unless it comes after the return
            text = qir.write([[x]], 2, 2, tail=calls)
            verify(load(text, HOW[cut % 4]), [MIX[0]], 2, 2, lambda: "code after the return: %s" % text)
            cov.step(5)
    cov.state("unknown", i)


def do_declared(nq, nr, cov):
    """Counts: declared, used, or both."""
    for uq in range(0, 4):
        for ur in range(-1, 3):
            ops = []
            if uq:
                ops.append(["X", [], [uq - 1], None, None])
            if ur >= 0:
                ops.append(["Measurement", [], [max(uq - 1, 0)], [ur], None])
            wq = max(nq, uq, 1 if ur >= 0 else 0)
            wr = max(nr, ur + 1)
            text = qir.write([[call(o) for o in ops]], nq, nr)
            for how in HOW:
                verify(load(text, how), ops, wq, wr, lambda: "declaring %d and %d: %s" % (nq, nr, text))
            cov.state("declared", nq, nr, uq, ur)
            cov.step()


EXISTING = [([], [], []), ([1], [], []), ([3], [3], []), ([1, 1], [1, 1], [["X", [], [1], None, None]]),
            ([2, 2], [0, 4], [["CX", [], [3, 0], None, None], ["Measurement", [], [2], [3], None]]),
            ([0], [0], []), ([1, 0], [2], [["RX", [0.5], [0], None, None]])]


def do_existing(e, idx, cov):
    ql, cl, have = EXISTING[e]
    ops = [MIX[i] for i in idx]
    for lock in (True, False):
        for how in ("string", "bitcode"):
            circ = drive.new_circuit(ql, cl)
            if have:
                with circ.context:
                    for o in have:
                        drive.make_op(o, list(circ.qubits), list(circ.bits))
            if lock:
                circ.lock()
            else:
                circ.unlock()
            Q, C = list(circ.qubits), list(circ.bits)
            old = [id(o) for o in circ.circuit]
            regs = {k: list(v) for k, v in circ.qregisters.items()}
            text = qir.write([[call(o) for o in ops]], 3, 3)
            load(text, how, circ)
            nq, nr = max(3, sum(ql)), max(3, sum(cl))
            txt = lambda: "loading %s into a circuit %s %s with %s" % (ops, ql, cl, have)  # noqa: E731
            verify(circ, have + ops, nq, nr, txt)
            require([id(o) for o in circ.circuit][: len(old)] == old, lambda: "%s: earlier operations were replaced" % txt())
            require(all(a is b for a, b in zip(circ.qubits, Q)) and all(a is b for a, b in zip(circ.bits, C)),
                    lambda: "%s: qubits or bits moved" % txt())
            now = list(circ.qregisters.items())
            require(all(list(v)[: len(regs[k])] == regs[k] for k, v in now if k in regs),
                    lambda: "%s: registers changed" % txt())
            # loading again appends again
            load(text, how, circ)
            verify(circ, have + ops + ops, nq, nr, lambda: txt() + " twice")
            cov.step(2 * len(ops))
    cov.state("existing", e, tuple(idx))


EXPECT_OUTCOMES = ("prog", "mix", "values", "trip", "unknown", "refused", "declared", "existing", "wide")
