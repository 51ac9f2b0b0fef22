"""C11: parametric circuits bind each variable to its value, everywhere and only once."""
import itertools

import numpy as np

from mc import drive, ref
from mc.core import require

PROPERTY = "C11"
RULE = (
    "every parametric circuit of the stated length over an alphabet of parametric operations (shared, repeated and "
    "reordered variables, constants, controlled and conditional operations, measurements), with every tuple of the "
    "stated values, under every sequence of the stated number of uses (applications in the same or a later context, "
    "in a plain, parametric or frozen context, nested two levels, failing calls, evaluations in place or not, by "
    "lists or by set variables, explicit values over previously set ones), single operations with qubits, controls and conditions evaluated in and out of contexts, parameter registers of variables added under other names (`named`), and circuits with the stated larger numbers of "
    "variables, qubits and bits in rotated orders; circuits of many operations, applied and evaluated many times (`many`); every recorded circuit is compared with writing the numbers directly, and the "
    "circuit and its variables with what they were before"
)
BOUNDS = {
    "quick": dict(loop=2, wide=(10, 11, 13), many=(17, 65, 130, 300), len1=3, vals=(0, 0.7, -1.3), uses=2, len2=2),
    "thorough": dict(loop=3, wide=(10, 11, 12, 13, 17, 101, 130), many=(9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 130, 256, 257, 300, 512, 513, 1001), len1=4, vals=(0, 0.0, 0.7, -1.3, 7), uses=4, len2=1),
}
ASSUMPTIONS = ["surplus values are not claimed; evaluation takes one list of parameters per operation",
               "variables are released when the context in which the circuit was applied is left"]

V = lambda i: {"v": i}  # noqa: E731
NQ = 2
ALPHA = [
    ["RX", [V(0)], [0], None, None],
    ["RY", [V(1)], [1], None, None],
    ["Rotation", [V(1), V(0), V(1)], [1], None, None],
    ["Rotation", [V(0), 0.0, V(2)], [0], None, None],
    ["CRZ", [V(0)], [1, 0], None, None],
    ["CRotation", [V(2), -0.4, V(0)], [0, 1], None, None],
    ["RZ", [V(1)], [0], None, [1, 0]],
    ["RZ", [0.25], [1], None, None],
    ["CX", [], [1, 0], None, None],
    ["Measurement", [], [1, 0], [0, 1], None],
]


# variables that users add on their own, before any is asked for by its number
NAMES = [*(list(p) for k in (1, 2, 3) for p in itertools.permutations("012", k) if list(p) != ["0", "1", "2"][:k]),
         ["b", "a"], ["x", "0"], ["10", "9"], ["0.7", "-1.3"], ["", "1"], ["-1", "0"], ["0", "00", "01"], ["c", "b", "a", "0"]]


def nvars(ops):
    return 1 + max([p["v"] for o in ops for p in o[1] if isinstance(p, dict)], default=-1)


def subst(ops, vals, qmap=None, bmap=None):
    qmap = qmap or list(range(NQ))
    bmap = bmap or list(range(NQ))
    return [[o[0], [vals[p["v"]] if isinstance(p, dict) else p for p in o[1]], [qmap[q] for q in o[2]],
             None if o[3] is None else [bmap[b] for b in o[3]], None if not o[4] else [bmap[b] for b in o[4]]]
            for o in ops]


# what may be done with a parametric circuit; every entry is followed by a full comparison
USES = ("plain", "twice", "parametric", "frozen", "few", "badqubits", "outside", "raises", "eval", "evalset", "inner",
        "variables", "preset")


def generate(b):
    n = len(ALPHA)
    for k in range(1, b["len1"] + 1):
        for idx in itertools.product(range(n), repeat=k):
            if nvars([ALPHA[i] for i in idx]):
                yield ["prog", list(idx)]
    for k in range(1, b["len2"] + 1):
        for idx in itertools.product(range(n), repeat=k):
            if nvars([ALPHA[i] for i in idx]):
                for u in itertools.product(USES, repeat=b["uses"]):
                    yield ["uses", list(idx), list(u)]
    for i in range(n):
        if nvars([ALPHA[i]]):
            for u in itertools.product(USES, repeat=b["loop"]):
                yield ["uses", [i], list(u) * 4]
    for i in range(n):
        if nvars([ALPHA[i]]):
            yield ["confuse", i]
    for i in range(n):
        for j in range(n):
            if nvars([ALPHA[i]]) and nvars([ALPHA[j]]):
                yield ["nest", i, j]
    for i in range(n):
        if nvars([ALPHA[i]]):
            for j in range(len(NAMES)):
                yield ["named", i, j]
    for i in range(7):
        yield ["ops", i]
    for i in range(n):
        if nvars([ALPHA[i]]):
            for k in range(len(PLACED)):
                yield ["placed", i, k]
    for n in b["wide"]:
        for k in range(n if n < 20 else 4):
            yield ["wide", n, k]
    for n in b["many"]:
        for how in ("times", "contexts", "evals", "long", "deep"):
            yield ["many", n, how]


def template(ops, names=()):
    from dwave.gate.circuit import ParametricCircuit
    from dwave.gate.primitives import Variable

    circ = drive.new_circuit([NQ], [NQ], ParametricCircuit)
    with circ.context as reg:
        for name in names:
            reg.p.add(Variable(name))
        reg.p[max(nvars(ops) - 1, len(names) - 1, 0)]
        Q, C = list(circ.qubits), list(circ.bits)
        for o in ops:
            drive.make_op(o, Q, C, reg.p)
    return circ, list(reg.p)


class Template:
    """A parametric circuit with what it must look like for ever."""

    def __init__(self, ops, names=()):
        self.ops, self.names = ops, names
        self.circ, self.vars = template(ops, names)
        self.snap = self.look()

    def look(self):
        bits = list(self.circ.bits)
        Q = {id(q): i for i, q in enumerate(self.circ.qubits)}
        C = {id(b): i for i, b in enumerate(bits)}
        M = {id(v): i for i, v in enumerate(self.vars)}
        out = []
        for o in self.circ.circuit:
            pars = tuple(("var", M.get(id(p), "?")) if hasattr(p, "set") else p for p in getattr(o, "parameters", ()))
            out.append((id(o), pars, drive.op_view(o, Q, C, bits)))
        return out, self.circ.num_parameters, self.circ.is_locked()

    def check(self, txt):
        require(self.look() == self.snap, lambda: "%s: the parametric circuit changed: %s" % (txt(), self.look()))
        require(all(v.value is None for v in self.vars),
                lambda: "%s: variables keep values %s" % (txt(), [v.value for v in self.vars]))


def values(t, k, vals=(0, 0.7, -1.3)):
    """k-th tuple of values for a template."""
    m = len(t.vars)
    return [vals[(k + i) % len(vals)] for i in range(m)]


def compare(circ, ops, txt, frozen_ids=()):
    exp = tuple(drive.expected_view(o) for o in ops)
    got = drive.snapshot(circ)
    require(got == exp, lambda: "%s: recorded %s instead of %s" % (txt(), got, exp))
    for o in circ.circuit:
        require(not any(hasattr(p, "set") for p in getattr(o, "parameters", ())),
                lambda: "%s: a variable is left in %r" % (txt(), o))


def outer_circuit(cls=None):
    return drive.new_circuit([NQ + 1], [NQ + 1], cls)


def expect_error(f, txt, kinds=(Exception,)):
    try:
        f()
    except kinds:
        return
    require(False, lambda: "%s is accepted" % txt())


def use(t, kind, k, txt, cov, vals=None):
    from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit

    a = vals or values(t, k)
    b = values(t, k + 1)
    qm, bm = ([0, 1], [1, 2]) if k % 2 else ([2, 0], [0, 2])
    direct = lambda v, q=qm, c=bm: subst(t.ops, v, q, c)  # noqa: E731

    def call(circ, v, q=qm, c=bm):
        t.circ(v, [circ.qubits[i] for i in q], [circ.bits[i] for i in c])

    def text():
        return "%s, use %s with %s" % (txt(), kind, a)

    if kind == "plain":
        o = outer_circuit()
        with o.context:
            call(o, a)
        compare(o, direct(a), text)
    elif kind == "twice":
        o = outer_circuit()
        with o.context:
            call(o, a)
            call(o, b, qm[::-1], bm[::-1])
            call(o, a)
        compare(o, direct(a) + direct(b, qm[::-1], bm[::-1]) + direct(a), text)
        o.unlock()
        with o.context:
            call(o, b)
        compare(o, direct(a) + direct(b, qm[::-1], bm[::-1]) + direct(a) + direct(b), text)
    elif kind == "parametric":
        o = outer_circuit(ParametricCircuit)
        with o.context as reg:
            drive.op_class("RX")(reg.p[0], reg.q[0])
            call(o, a)
            call(o, b)
        v = o.circuit[0].parameters[0]
        require(v is reg.p[0] and v.value is None and o.num_parameters == 1,
                lambda: "%s: the surrounding circuit's variable changed" % text())
        o.remove(o.circuit[0])
        compare(o, direct(a) + direct(b), text)
    elif kind == "frozen":
        for cls in (None, ParametricCircuit):
            o = outer_circuit(cls)
            with o.context as reg:
                if cls:
                    reg.p[1]
                with o.context.freeze:
                    call(o, a)
                require(len(o.circuit) == 0, lambda: "%s: recorded in a frozen context" % text())
                call(o, b)
                with CircuitContext.freeze:
                    call(o, a)
            compare(o, direct(b), text)
    elif kind == "few":
        o = outer_circuit()
        with o.context:
            call(o, b)
            for v in ([], a[:-1]):
                expect_error(lambda: call(o, v), lambda: "%s: too few values" % txt())
            require(len(o.circuit) == len(t.ops), lambda: "%s: a refused call appended operations" % text())
            call(o, a)
        compare(o, direct(b) + direct(a), text)
    elif kind == "badqubits":
        o = outer_circuit()
        with o.context:
            for q, c in (([0], bm), ([0, 1, 2], bm), (qm, [0])):
                expect_error(lambda: call(o, b, q, c), lambda: "%s: wrong qubits" % txt())
            require(len(o.circuit) == 0, lambda: "%s: a refused call appended operations" % text())
            call(o, a)
        compare(o, direct(a), text)
    elif kind == "outside":
        o = outer_circuit()
        expect_error(lambda: call(o, a), lambda: "%s: a call outside of a context" % txt())
        require(len(o.circuit) == 0, lambda: "%s: a refused call appended operations" % text())
    elif kind == "raises":
        class Stop(Exception):
            pass

        o = outer_circuit()
        try:
            with o.context:
                call(o, a)
                raise Stop
        except Stop:
            pass
        compare(o, direct(a), text)
    elif kind in ("eval", "evalset"):
        per_op = [[a[p["v"]] if isinstance(p, dict) else p for p in op[1]] for op in t.ops]

        def go(circ, inplace):
            if kind == "eval":
                return circ.eval(per_op, inplace=inplace)
            return circ.eval(inplace=inplace)

        if kind == "evalset":
            if nvars(t.ops):
                expect_error(lambda: t.circ.eval(), lambda: "%s: evaluating without values" % txt(), (ValueError,))
            t.check(text)
            for v, x in zip(t.vars, a):
                v.set(x)
        # evaluations that fail, for the lack of values, leave everything as it was
        seen = t.look()
        fails = [per_op[:-1]] if kind == "eval" else []
        fails += [per_op[:j] + [x[:-1]] + per_op[j + 1:] for j, x in enumerate(per_op)
                  if len(x) > 1 and isinstance(t.ops[j][1][-1], dict)] if kind == "eval" else []
        missing = [] if kind == "eval" else [v for v in t.vars if any(p == {"v": t.vars.index(v)} for o in t.ops for p in o[1])]
        for inplace in (False, True):
            for f in fails:
                expect_error(lambda: t.circ.eval(f, inplace=inplace), lambda: "%s: evaluating (in place: %s) with %s" % (text(), inplace, f))
                require(t.look() == seen, lambda: "%s: a refused evaluation (in place: %s) changed the circuit" % (text(), inplace))
            for v in missing:
                x = v.value
                v.reset()
                expect_error(lambda: t.circ.eval(inplace=inplace), lambda: "%s: evaluating without a value" % text(), (ValueError,))
                require(t.look() == seen, lambda: "%s: a refused evaluation (in place: %s) changed the circuit" % (text(), inplace))
                v.set(x)
        e = go(t.circ, False)
        require(e is not t.circ, lambda: "%s: evaluation returns the circuit itself" % text())
        compare(e, subst(t.ops, a), text)
        for v in t.vars:
            v.reset()
        t.check(text)
        compare(e, subst(t.ops, a), text)
        fresh = Template(t.ops, t.names)
        if kind == "evalset":
            for v, x in zip(fresh.vars, a):
                v.set(x)
        r = go(fresh.circ, True)
        require(r is fresh.circ, lambda: "%s: evaluation in place returns another circuit" % text())
        for v in fresh.vars:
            v.reset()
        compare(fresh.circ, subst(t.ops, a), text)
    elif kind == "inner":
        # this circuit applied in another parametric circuit, itself applied with values
        mid = outer_circuit(ParametricCircuit)
        with mid.context as reg:
            drive.op_class("RY")(reg.p[1], reg.q[1])
            call(mid, a)
            drive.op_class("RX")(reg.p[0], reg.q[0])
        require([v.value for v in reg.p] == [None, None], lambda: "%s: variables of the other circuit changed" % text())
        t.check(text)
        o = outer_circuit()
        mops = lambda x, y: ([["RY", [y], [1], None, None]] + direct(a) + [["RX", [x], [0], None, None]])  # noqa: E731
        with o.context:
            call(o, b)
            mid([5.5, 6.5], list(o.qubits), list(o.bits))
            call(o, a)
            mid([0, 0.5], list(o.qubits), list(o.bits))
        compare(o, direct(b) + mops(5.5, 6.5) + direct(a) + mops(0, 0.5), text)
    elif kind == "preset":
        # values the variables already have are overridden by explicit ones
        n = len(t.vars)
        per_op = [[a[p["v"]] if isinstance(p, dict) else p for p in op[1]] for op in t.ops]
        for set_ in ((True,) * n, tuple(i % 2 == 0 for i in range(n)), tuple(i % 2 == 1 for i in range(n))):
            fresh = Template(t.ops, t.names)
            for T, inplace in ((t, False), (fresh, True)):
                for v, x, on in zip(T.vars, b, set_):
                    if on:
                        v.set(x)
                e = T.circ.eval(per_op, inplace=inplace)
                compare(e, subst(t.ops, a), text)
                require([v.value for v in T.vars] == [x if on else None for x, on in zip(b, set_)],
                        lambda: "%s: explicit values changed the variables" % text())
                for v in T.vars:
                    v.reset()
                compare(e, subst(t.ops, a), text)
            for v, x, on in zip(t.vars, b, set_):
                if on:
                    v.set(x)
            o = outer_circuit()
            with o.context:
                call(o, a)
            compare(o, direct(a), text)
            t.check(text)
    elif kind == "variables":
        # bound to the variables of the surrounding parametric circuit
        o = outer_circuit(ParametricCircuit)
        n = len(t.vars)
        with o.context as reg:
            vs = [reg.p[n - i] for i in range(n)]
            call(o, vs)
        pars = [p for x in o.circuit for p in getattr(x, "parameters", ())]
        exp = [vs[p["v"]] if isinstance(p, dict) else p for x in t.ops for p in x[1]]
        require(len(pars) == len(exp) and all(p is e or (not hasattr(e, "set") and p == e) for p, e in zip(pars, exp)),
                lambda: "%s: bound to variables gives %s" % (text(), pars))
        t.check(text)
        o2 = drive.new_circuit([NQ + 1], [NQ + 1], Circuit)
        with o2.context:
            o([0.125] + list(a)[::-1], list(o2.qubits), list(o2.bits))
        compare(o2, direct(a), text)
    else:
        raise KeyError(kind)
    require(CircuitContext.active_context is None, lambda: "%s: a context is left open" % text())
    t.check(text)
    cov.step(len(t.ops))
    cov.state(kind, repr(t.ops), tuple(map(repr, a)))
    cov.outcome(kind)


def run_case(case, cov):
    kind = case[0]
    if kind == "prog":
        ops = [ALPHA[i] for i in case[1]]
        txt = lambda: "circuit %s" % ops  # noqa: E731
        t = Template(ops)
        for a in itertools.product(_vals, repeat=len(t.vars)):
            use(t, "plain", 0, txt, cov, list(a))
        for k, u in enumerate(USES):
            use(t, u, k, txt, cov)
        # the states agree as well
        meas = any(o[0] == "Measurement" for o in ops)
        if not meas:
            a = values(t, 1)
            o = outer_circuit()
            from dwave.gate.simulator import simulate

            with o.context:
                t.circ(a, list(o.qubits)[:NQ], list(o.bits)[:NQ])
            for b in o.bits:
                b.set(1, force=True)
            simulate(o)
            # simulation clears bits only where measured; blocked operations are compared by C03
            want = ref.run([x for x in subst(ops, a)], NQ + 1)
            if not any(x[4] for x in ops):
                require(ref.close(o.state, want), lambda: "%s applied with %s: wrong state" % (txt(), a))
    elif kind == "uses":
        _, idx, uses = case
        ops = [ALPHA[i] for i in idx]
        t = Template(ops)
        for k, u in enumerate(uses):
            use(t, u, k, lambda: "circuit %s after %s" % (ops, uses[:k]), cov)
    elif kind == "nest":
        _, i, j = case
        nest(ALPHA[i], ALPHA[j], cov)
    elif kind == "confuse":
        # values that are easily taken for one another, one after another
        ops = [ALPHA[case[1]]]
        t = Template(ops)
        m = len(t.vars)
        for i in range(m):
            for x, y in itertools.permutations(ref.CONFUSABLE, 2):
                a, b = ([v if j == i else 0.3 + j for j in range(m)] for v in (x, y))
                txt = lambda: "circuit %s applied with %s and %s" % (ops, a, b)  # noqa: E731
                o = outer_circuit()
                ident = list(range(NQ))
                with o.context:
                    for v in (a, b, a):
                        t.circ(v, list(o.qubits)[:NQ], list(o.bits)[:NQ])
                compare(o, subst(ops, a) + subst(ops, b) + subst(ops, a), txt)
                for v in (a, b):
                    compare(t.circ.eval([[v[p["v"]] if isinstance(p, dict) else p for p in op[1]] for op in ops]),
                            subst(ops, v), txt)
                cov.step(5)
        t.check(lambda: "circuit %s" % ops)
        cov.state("confuse", case[1])
        cov.outcome("confuse")
    elif kind == "named":
        _, i, j = case
        for first in (-1, 5, 7):
            ops = [ALPHA[i]] if first < 0 else [ALPHA[first], ALPHA[i], ALPHA[1]]
            t = Template(ops, NAMES[j])
            require([v.name for v in t.vars][:len(NAMES[j])] == NAMES[j] and len({v.name for v in t.vars}) == len(t.vars),
                    lambda: "circuit %s has variables %s" % (ops, [v.name for v in t.vars]))
            for k, u in enumerate(USES):
                use(t, u, k, lambda: "circuit %s with variables %s" % (ops, [v.name for v in t.vars]), cov)
        cov.state("named", i, j)
        cov.outcome("named")
    elif kind == "ops":
        single_ops(case[1], cov)
    elif kind == "placed":
        placed(case[1], case[2], cov)
    elif kind == "wide":
        wide(case[1], case[2], cov)
    elif kind == "many":
        many(case[1], case[2], cov)


_vals = (0, 0.7, -1.3)


def prepare():
    global _vals
    import os
    import sys

    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    _vals = BOUNDS.get(tier, BOUNDS["quick"])["vals"]


def wide(n, k, cov):
    """n variables, qubits and bits, in every rotation of their order."""
    from dwave.gate.circuit import ParametricCircuit

    rot = [(i * (k + 1) + k) % n for i in range(n)]
    ops = []
    for i, v in enumerate(rot):
        ops.append(["RX", [V(v)], [i], None, None])
        ops.append(["Rotation", [V((v + 1) % n), 0.125 * i, V(i)], [v], None, [(v + 2) % n]])
        ops.append(["CRZ", [V(i)], [i, (i + k % (n - 1) + 1) % n], None, None])
        ops.append(["Measurement", [], [v], [i], None])
    t = drive.new_circuit([n] if k % 2 else [9, n - 9], [n] if k % 3 else [n - 9, 9], ParametricCircuit)
    with t.context as reg:
        for i in range(n):
            reg.p[i]
        for o in ops:
            drive.make_op(o, list(t.qubits), list(t.bits), reg.p)
    txt = lambda: "parametric circuit with %d variables (%d)" % (n, k)  # noqa: E731
    require(t.num_parameters == n and [p.name for p in reg.p] == [str(i) for i in range(n)],
            lambda: "%s has %s" % (txt(), [p.name for p in reg.p]))
    val = [round(0.01 * (i + 1), 3) for i in range(n)]
    qm = [(n + k - i) % (n + 1) for i in range(n)]
    bm = [(i + k) % (n + 1) for i in range(n)]
    exp = subst(ops, val, qm, bm)
    for rounds in range(2):
        o = drive.new_circuit([n + 1], [n + 1])
        with o.context:
            t(val, [o.qubits[i] for i in qm], [o.bits[i] for i in bm])
        compare(o, exp, txt)
        require(all(v.value is None for v in reg.p), lambda: "%s: variables keep values" % txt())
    mid = drive.new_circuit([n + 1], [n + 1], ParametricCircuit)
    with mid.context as mreg:
        mreg.p[n]
        t([mreg.p[n - i] for i in range(n)], [mid.qubits[i] for i in qm], [mid.bits[i] for i in bm])
    o = drive.new_circuit([n + 1], [n + 1])
    with o.context:
        mid([99.5] + val[::-1], list(o.qubits), list(o.bits))
    compare(o, exp, txt)
    ident = list(range(n))
    per_op = [[val[p["v"]] if isinstance(p, dict) else p for p in op[1]] for op in ops]
    compare(t.eval(per_op), subst(ops, val, ident, ident), txt)
    for v, x in zip(reg.p, val):
        v.set(x)
    compare(t.eval(), subst(ops, val, ident, ident), txt)
    cov.step(len(ops))
    cov.state("wide", n, k)
    cov.outcome("wide")


def many(n, how, cov):
    from dwave.gate.circuit import ParametricCircuit

    ops = [["RX", [V(0)], [0], None, None], ["Rotation", [V(1), 0.5, V(0)], [1], None, [0]],
           ["CRZ", [V(1)], [1, 0], None, None], ["CX", [], [0, 1], None, None], ["Measurement", [], [1, 0], [0, 1], None]]
    val = lambda i: [0.001 * i - 0.1, 0.3 + 0.002 * i]  # noqa: E731
    maps = [([0, 1], [1, 2]), ([2, 0], [0, 2]), ([1, 2], [2, 1])]
    txt = lambda: "%d uses (%s)" % (n, how)  # noqa: E731
    t = Template(ops)

    def call(o, i):
        q, c = maps[i % 3]
        t.circ(val(i), [o.qubits[j] for j in q], [o.bits[j] for j in c])
        return subst(ops, val(i), q, c)

    if how == "times":
        o, want = outer_circuit(), []
        with o.context:
            for i in range(n):
                want += call(o, i)
        compare(o, want, txt)
    elif how == "contexts":
        kept = []
        for i in range(n):
            o = outer_circuit((None, ParametricCircuit)[i % 2])
            with o.context:
                kept.append((o, call(o, i)))
            require(all(v.value is None for v in t.vars), lambda: "%s: variables keep values" % txt())
        for o, want in kept:
            compare(o, want, txt)
    elif how == "evals":
        ident = list(range(NQ))
        kept = []
        for i in range(n):
            if i % 2:
                for v, x in zip(t.vars, val(i)):
                    v.set(x)
                e = t.circ.eval()
                for v in t.vars:
                    v.reset()
            else:
                e = t.circ.eval([[val(i)[p["v"]] if isinstance(p, dict) else p for p in op[1]] for op in ops])
            kept.append((e, subst(ops, val(i), ident, ident)))
        for e, want in kept:
            compare(e, want, txt)
    elif how == "long":
        t = Template([[o[0], o[1] and [V(j % 2) if isinstance(p, dict) else p for p in o[1]], o[2], o[3], o[4]]
                      for j in range(n) for o in ops[j % len(ops):][:1]])
        for k, u in enumerate(USES):
            use(t, u, k, txt, cov)
    else:  # a circuit within a circuit within a circuit ..., the variables exchanged at every level
        d = min(n, 130)
        circ, want = t.circ, list(ops)
        swap = {0: 1, 1: 0}
        for i in range(d):
            o = drive.new_circuit([NQ], [NQ], ParametricCircuit)
            with o.context as reg:
                a, b = reg.p[0], reg.p[1]
                circ([b, a], list(o.qubits), list(o.bits))
                if i % 16 == 0:
                    drive.op_class("RY")(a, reg.q[1])
            want = [[x[0], [V(swap[p["v"]]) if isinstance(p, dict) else p for p in x[1]], *x[2:]] for x in want]
            if i % 16 == 0:
                want.append(["RY", [V(0)], [1], None, None])
            circ = o
        for i in range(3):
            o = outer_circuit()
            q, c = maps[i]
            with o.context:
                circ(val(i), [o.qubits[j] for j in q], [o.bits[j] for j in c])
            compare(o, subst(want, val(i), q, c), txt)
    t.check(txt)
    cov.state("many", n, how)
    cov.step(n)
    cov.outcome("many")


def nest(a, b, cov):
    """Two parametric circuits used in one another and side by side in one context."""
    from dwave.gate.circuit import ParametricCircuit

    t, s = Template([a]), Template([b])
    x, y = values(t, 0), values(s, 1)
    x2, y2 = values(t, 2), values(s, 0)
    ident = list(range(NQ))

    def call(T, circ, v):
        T.circ(v, [circ.qubits[i] for i in ident], [circ.bits[i] for i in ident])

    txt = lambda: "circuits %s and %s in one context" % (a, b)  # noqa: E731
    o = outer_circuit()
    with o.context:
        call(t, o, x)
        call(s, o, y)
        call(t, o, x2)
        call(s, o, y2)
    compare(o, subst([a], x) + subst([b], y) + subst([a], x2) + subst([b], y2), txt)
    t.check(txt)
    s.check(txt)
    mid = drive.new_circuit([NQ], [NQ], ParametricCircuit)
    n = len(t.vars)
    with mid.context as reg:
        reg.p[n - 1]
        call(s, mid, y)
        call(t, mid, list(reg.p))
        call(s, mid, y2)
    s.check(txt)
    t.check(txt)
    for k in range(2):
        o = outer_circuit()
        v = (x, x2)[k]
        with o.context:
            call(s, o, y2)
            mid(v, [o.qubits[i] for i in ident], [o.bits[i] for i in ident])
            call(t, o, x)
        compare(o, subst([b], y2) + subst([b], y) + subst([a], v) + subst([b], y2) + subst([a], x),
                lambda: "circuit %s in another around %s" % (a, b))
        require(all(p.value is None for p in reg.p), lambda: "%s: variables keep values" % txt())
        t.check(txt)
        s.check(txt)
    cov.state("nest", repr(a), repr(b))
    cov.step(9)
    cov.outcome("nest")


def single_ops(i, cov):
    """Parametric operations with variables on their own."""
    from dwave.gate.primitives import Variable

    name, k = [("RX", 1), ("RY", 1), ("RZ", 1), ("CRX", 1), ("CRY", 1), ("CRZ", 1), ("Rotation", 3)][i]
    cls = drive.op_class(name)
    for n, mask in enumerate(itertools.product((0, 1), repeat=k)):
        for vals in itertools.product(_vals, repeat=k):
            vs = [Variable("x%d" % j) for j in range(k)]
            pars = [vs[j] if mask[j] else vals[j] for j in range(k)]
            txt = lambda: "%s(%s)" % (name, pars)  # noqa: E731
            circ = outer_circuit()
            qs = [0] if name in ref.ONE else [2, 0]
            if any(mask):
                # unset variables cannot be recorded in a plain circuit
                with circ.context as (q, c):
                    expect_error(lambda: cls(pars, qubits=[q[j] for j in qs]),
                                 lambda: "%s: unset variable in a plain circuit" % txt(), (ValueError,))
                    require(len(circ.circuit) == 0, lambda: "%s: refused but recorded" % txt())
                op = cls(pars)
                expect_error(lambda: op.eval(), lambda: "%s: evaluating unset" % txt(), (ValueError,))
                require(list(op.parameters) == pars and all(p is q for p, q in zip(op.parameters, pars) if hasattr(q, "set")),
                        lambda: "%s: refused evaluation changed the parameters" % txt())
                circ.unlock()
            op = cls(pars)
            for preset in (False, True):
                for v in vs:
                    v.set(vals[0] + 0.5) if preset else v.reset()
                e = op.eval(list(vals))
                require(list(e.parameters) == list(vals), lambda: "%s (variables set: %s) evaluated with %s has %s" % (
                    txt(), preset, vals, e.parameters))
                require(e is not op, lambda: "%s: evaluated into itself" % txt())
                e.parameters[0] = 99
                require(list(op.parameters) != list(e.parameters) and all(p is q or p == q for p, q in zip(op.parameters, pars)),
                        lambda: "%s: changing the evaluated operation changes the original" % txt())
                e = op.eval(list(vals))
            for v in vs:
                v.reset()
            require(list(e.parameters) == list(vals) and not any(hasattr(p, "set") for p in e.parameters),
                    lambda: "%s evaluated with %s has %s" % (txt(), vals, e.parameters))
            require(all(p is q or p == q for p, q in zip(op.parameters, pars))
                    and all(v.value is None for v in vs), lambda: "%s: evaluation changed the operation" % txt())
            for v, x in zip(vs, vals):
                v.set(x)
            e = op.eval()
            with circ.context as (q, c):
                cls(pars, qubits=[q[j] for j in qs])
            for v in vs:
                v.reset()
            compare(circ, [[name, list(vals), qs, None, None]], txt)
            require(list(e.parameters) == list(vals) and not any(hasattr(p, "set") for p in e.parameters),
                    lambda: "%s evaluated gives %s" % (txt(), e.parameters))
            r = op.eval(list(vals), inplace=True)
            require(r is op and list(op.parameters) == list(vals), lambda: "%s evaluated in place gives %s" % (txt(), op.parameters))
            require(ref.close(np.asarray(op.matrix), ref.matrix(name, vals)), lambda: "%s: wrong matrix after evaluation" % txt())
            cov.state("op", name, mask, vals)
            cov.step(5)
    cov.outcome("ops")


PLACED = [(how, pre, cond) for how in ("closed", "other", "own", "frozen", "free") for pre in (False, True) for cond in range(4)]


def placed(i, k, cov):
    """One operation with qubits, controls and conditions evaluated on its own: everything but its parameters stays."""
    import contextlib

    from dwave.gate.circuit import ParametricCircuit
    from dwave.gate.operations import Measurement

    how, pre, cond = PLACED[k]
    name, pars, qs = ALPHA[i][:3]
    bits = [None, [0], [1, 0], "measured"][cond]
    for vals in ([0.7, -1.3, 0], [0.5, 0.5, 0.5], [0, 0, 0]):
        circ = drive.new_circuit([NQ], [NQ], ParametricCircuit)
        txt = lambda: "%s (%s, set before: %s, condition %s) evaluated with %s" % (ALPHA[i][:3], how, pre, bits, vals)  # noqa: E731
        val = [vals[p["v"]] if isinstance(p, dict) else p for p in pars]
        with circ.context as reg:
            reg.p[2]
            Q, C, P = list(circ.qubits), list(circ.bits), list(reg.p)
            own = [P[p["v"]] if isinstance(p, dict) else p for p in pars]
            n = 0
            if bits == "measured":
                m = Measurement([Q[1], Q[0]]) | [C[0], C[1]]
                n = 1
            with circ.context.freeze if how == "free" else contextlib.nullcontext():
                op = drive.op_class(name)(own, qubits=[Q[q] for q in qs])
                if bits:
                    op.conditional(m.bits if bits == "measured" else [C[b] for b in bits])
            n += how != "free"
            if how == "own":
                outs = _evaluate(op, P, val, pre)
            elif how == "frozen":
                with circ.context.freeze:
                    outs = _evaluate(op, P, val, pre)
            require(len(circ.circuit) == n, lambda: "%s: recorded %s" % (txt(), list(circ.circuit)))
        if how == "other":
            o = outer_circuit()
            with o.context:
                outs = _evaluate(op, P, val, pre)
            require(len(o.circuit) == 0, lambda: "%s: recorded %s" % (txt(), list(o.circuit)))
        elif how in ("closed", "free"):
            outs = _evaluate(op, P, val, pre)
        want_bits = [C[0], C[1]] if bits == "measured" else [C[b] for b in bits] if bits else []
        for e, expected in [(e, val) for e in outs] + [(op, own)]:
            require(type(e) is type(op) and list(e.parameters) == expected
                    and all(hasattr(a, "set") == hasattr(b, "set") for a, b in zip(e.parameters, expected)),
                    lambda: "%s: parameters %s" % (txt(), e.parameters))
            require(len(e.qubits) == len(qs) and all(a is Q[q] for a, q in zip(e.qubits, qs)),
                    lambda: "%s: qubits %s instead of %s" % (txt(), e.qubits, [Q[q] for q in qs]))
            if name[0] == "C":
                require(list(e.control) == [Q[qs[0]]] and list(e.target) == [Q[qs[1]]],
                        lambda: "%s: control %s target %s" % (txt(), e.control, e.target))
            require(_blocked(e, C, want_bits), lambda: "%s: the condition of %s is not %s" % (txt(), e, want_bits))
        require(all(v.value is None for v in P), lambda: "%s: variables keep values" % txt())
        require(outs and all(e is not op for e in outs), lambda: "%s: not another operation" % txt())
        r = op.eval(val, inplace=True)
        require(r is op and list(op.parameters) == val and list(op.qubits) == [Q[q] for q in qs] and _blocked(op, C, want_bits),
                lambda: "%s in place: %s" % (txt(), op))
        require(len(circ.circuit) == n, lambda: "%s: recorded %s" % (txt(), list(circ.circuit)))
        cov.step(3)
    cov.state("placed", i, k)
    cov.outcome("placed")


def _evaluate(op, P, val, pre):
    out = []
    if pre:
        for v, x in zip(P, (2.5, -0.25, 1.125)):
            v.set(x)
    out.append(op.eval(list(val)))
    for v in P:
        v.reset()
    used = [p for p in op.parameters if hasattr(p, "set")]
    for v, x in zip(op.parameters, val):
        if hasattr(v, "set"):
            v.reset()
            v.set(x)
    out.append(op.eval())
    for v in used:
        v.reset()
    return out


def _blocked(e, C, want):
    """The operation is blocked exactly while not all of its condition bits are set."""
    ok = True
    for vals in itertools.product((0, 1), repeat=len(C)):
        for b, v in zip(C, vals):
            b.set(v, force=True)
        ok = ok and bool(e.is_blocked) == (not all(vals[C.index(b)] for b in want))
    for b in C:
        b.reset()
    return ok


EXPECT_OUTCOMES = USES + ("nest", "many", "ops", "placed", "named")
