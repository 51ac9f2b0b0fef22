"""C21: operations validate their arguments and compare by kind, qubits and parameters."""
import copy
import itertools
import warnings
from fractions import Fraction

import numpy as np

from mc import drive, ref
from mc.core import require

PROPERTY = "C21"
RULE = (
    "every shipped, created and derived operation class after every history of the stated length of earlier uses of the "
    "class (reading attributes, constructing with right and wrong arguments, in and outside of a context), constructed "
    "with 0..4 qubits and 0..4 parameters in every calling style, then assigned 0..4 qubits in every style, then "
    "re-applied in every style; acceptance, qubits, control, target, parameters and the recorded operations compared "
    "with the requirement of the kind; all pairs of operations of an alphabet, and numbers of different types as parameters, compared; every circuit of the stated "
    "length over that alphabet with every removal; operations on many qubits and circuits of many operations (`sizes`)"
)
BOUNDS = {"quick": dict(hist=1, length=3, sizes=(9, 17, 65, 130, 300)), "thorough": dict(hist=2, length=4, sizes=(9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 130, 256, 257, 300, 512, 513))}
ASSUMPTIONS = ["the qubits of one operation are distinct", "kinds are told apart by their name",
               "operations of unrestricted width get at least one qubit",
               "an operation given only its control or only its target has no qubits yet"]
EXPECT_OUTCOMES = ["accepted", "refused", "removed", "not found", "large"]

CLASSES = [*ref.GATES, "Measurement", "Barrier", "custom1", "custom2", "customp", "CCY", "CSub", "Ctl0"]
PRE = ["class", "instance", "bound", "wrong", "context", "measure", "assign"]
PARAMS = [0.1, "v", 0, -1.5]
VALUE = 0.375  # of the variable; replaces it where the operation is recorded in a circuit


def generate(b):
    for name in CLASSES:
        for d in range(b["hist"] + 1):
            for pre in itertools.product(PRE, repeat=d):
                yield ["args", name, pre]
    for i in range(len(alphabet())):
        yield ["eq", i]
    for name in ("RX", "Rotation", "CRX", "CRotation", "customp", "CSub"):
        for kinds in itertools.product("vsu", repeat=make(name)[2]):
            for home in ("own", "foreign"):
                yield ["unset", name, kinds, home]
    for n in b["sizes"]:
        for how in ("operations", "front", "back", "stride", "equal"):
            yield ["large", n, how]
    for d in range(1, b["length"] + 1):
        for first in itertools.product(range(len(alphabet())), repeat=max(0, d - 2)):
            yield ["remove", d, first]


def run_case(case, cov):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"args": args, "eq": equality, "unset": unset, "remove": removal, "large": large}[case[0]](*case[1:], cov)


def make(name):
    """(class, qubits required or None, parameters, controls or None)"""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import ParametricCircuit

    if name in ref.GATES:
        n, k = ref.GATES[name]
        return drive.op_class(name), n, k, 1 if name in ref.CONTROLLED else None
    if name in ("Measurement", "Barrier"):
        return drive.op_class(name), None, 0, None
    if name in ("custom1", "custom2"):
        n = int(name[-1])
        return ops.create_operation(drive.build(dict(q=[n], ops=[["S", [], [n - 1]]])), name="Custom"), n, 0, None
    if name == "customp":
        prog = [["RX", [{"v": 1}], [0], None, None], ["RY", [{"v": 0}], [1], None, None]]
        return ops.create_operation(drive.build(dict(q=[2], ops=prog), ParametricCircuit), name="CustomP"), 2, 2, None
    if name == "CCY":
        return type("CCY", (ops.ControlledOperation,), dict(_num_control=2, _num_target=1, _target_operation=ops.Y)), 3, 0, 2
    if name == "CSub":
        return type("CSub", (ops.CRX,), {}), 2, 1, 1
    return type("Ctl0", (ops.ControlledOperation,), dict(_num_control=1, _num_target=2, _target_operation=ops.SWAP)), 3, 0, 1


def styles(nq, ctl, Q):
    """Every way to pass nq qubits: list of (name, qubits, keyword arguments)."""
    qs = Q[:nq]
    out = [("none", (), {})]
    if nq:
        out = [("tuple", qs, dict(qubits=tuple(qs))), ("list", qs, dict(qubits=list(qs))),
               ("reversed", qs[::-1], dict(qubits=list(qs[::-1])))]
        if nq == 1:
            if ctl is None:
                out.append(("single", qs, dict(qubits=qs[0])))
        if ctl is not None:
            for c in range(1, nq):
                out.append(("split%d" % c, qs, dict(control=tuple(qs[:c]), target=list(qs[c:]))))
                if c == 1:
                    out.append(("split single control", qs, dict(control=qs[0], target=tuple(qs[1:]))))
                if c == nq - 1:
                    out.append(("split single target", qs, dict(control=tuple(qs[:c]), target=qs[c])))
    elif ctl is None:
        out.append(("empty", None, dict(qubits=())))
    return out


def pstyles(k, vals):
    if k == 0:
        return [[]]
    out = [list(vals[:k]), tuple(vals[:k])]
    if k == 1:
        out.append(vals[0])
    return out


def legal(n, ctl, style, qs):
    if qs is None:  # explicitly empty
        return None if n is None else False
    if style.startswith("split"):
        return n is None or (len(qs) == n and (not style[5].isdigit() or int(style[5]) == ctl)
                             and (style != "split single control" or ctl == 1)
                             and (style != "split single target" or ctl == n - 1))
    return n is None or len(qs) == n


def recorded(params, inside):
    """Parameters of an operation recorded in a circuit without parameters of its own."""
    return [p.value if inside and hasattr(p, "set") else p for p in params] if params is not None else None


def check_op(o, C, qs, ctl, params, txt, n, copied=False):
    require(type(o) is C, lambda: "%s: gives a %r" % (txt(), type(o)))
    ids = lambda xs: None if xs is None else [x.id if copied else id(x) for x in xs]
    want = ids(qs) if qs else None
    require(ids(o.qubits) == want, lambda: "%s: qubits %r" % (txt(), o.qubits))
    require(o.qubits is None or isinstance(o.qubits, tuple), lambda: txt() + ": qubits are not a tuple")
    if want is not None or n is not None:
        require(o.num_qubits == (n or len(qs)), lambda: "%s: %r qubits" % (txt(), o.num_qubits))
    if ctl is not None:
        require(ids(o.control) == (want and want[:ctl]) and ids(o.target) == (want and want[ctl:]),
                lambda: "%s: control %r, target %r" % (txt(), o.control, o.target))
    if params is not None:
        require(isinstance(o.parameters, list) and len(o.parameters) == len(params)
                and all((a == b and type(a) is type(b)) if copied else a is b
                        for a, b in zip(o.parameters, params)),
                lambda: "%s: parameters %r instead of %r" % (txt(), o.parameters, params))


def args(name, pre, cov):
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Qubit, Variable

    C, n, k, ctl = make(name)
    vals = [Variable("v") if p == "v" else p for p in PARAMS]
    vals[1].set(VALUE)
    circ = Circuit(8)
    Q = list(circ.qubits)
    loose = [Qubit(i) for i in range(8)]
    good = {"parameters": vals[:k]} if k else {}
    for p in pre:
        prior(p, C, n, ctl, good, loose, circ)
    circ.reset()
    Q = list(circ.qubits)

    for kp in range(5 if k else 1):
        for pv in pstyles(kp, vals):
            if kp == 0 and k:
                pv = []
            for nq in range(5):
                for style, qs, kw in styles(nq, ctl, Q):
                    for inside in (False, True):
                        a = dict(kw)
                        if k:
                            a["parameters"] = pv
                        txt = lambda: "%s after %s: %d qubits (%s), parameters %r, %s" % (
                            name, pre, nq, style, pv, "in a context" if inside else "no context")
                        ok = legal(n, ctl, style, qs) if qs != () else not inside
                        if k and kp != k:
                            ok = False
                        if ok is None:
                            continue
                        before = len(circ.circuit)
                        o = None
                        try:
                            if inside:
                                with circ.context:
                                    o = C(**a)
                            else:
                                o = C(**a)
                        except (ValueError, TypeError) as e:
                            require(not ok, lambda: "%s: refused with %r" % (txt(), e))
                            require(len(circ.circuit) == before, lambda: txt() + ": refused, but recorded")
                            cov.outcome("refused")
                            circ.unlock()
                            continue
                        require(ok, lambda: "%s: accepted as %r" % (txt(), o))
                        cov.outcome("accepted")
                        check_op(o, C, qs, ctl, recorded(vals[:k], inside) if k else None, txt, n)
                        if inside:
                            require(len(circ.circuit) == before + 1 and circ.circuit[-1] is o,
                                    lambda: txt() + ": not recorded")
                            circ.unlock()
                        cov.step()
                        if kp == k and (style in ("none", "tuple", "reversed", "split single control")):
                            follow(o, C, n, k, ctl, qs, recorded(vals, inside), Q, circ, txt, cov)
                        cov.state(name, pre, kp, nq, style, inside)
    cov.traces += 1


def prior(p, C, n, ctl, good, loose, circ):
    """Earlier uses of the class, whose outcome is checked elsewhere."""
    nq = n or 3
    try:
        if p == "class":
            for attr in ("num_qubits", "matrix", "name", "num_parameters", "num_control", "num_target"):
                try:
                    getattr(C, attr)
                except Exception:
                    pass
        elif p == "instance":
            o = C(**good)
            o.matrix, o.name, repr(o)
        elif p == "bound":
            o = C(qubits=loose[:nq], **good)
            o.matrix, o.num_qubits, repr(o)
        elif p == "wrong":
            for m in (1, 2, 4):
                try:
                    C(qubits=loose[:m], **good)
                except ValueError:
                    pass
        elif p == "context":
            with circ.context as reg:
                C(qubits=list(reg.q)[:nq], **good).matrix
            circ.unlock()
        elif p == "measure":
            drive.op_class("Measurement")(loose[:4])
        elif p == "assign":
            o = C(qubits=loose[:nq], **good)
            o.qubits = loose[1:nq + 1]
            o.matrix
    except (ValueError, TypeError, AttributeError, NotImplementedError):
        circ.unlock()


def follow(o, C, n, k, ctl, qs, vals, Q, circ, txt0, cov):
    params = vals[:k] if k else None
    # assignment
    for m in range(5):
        for form in (tuple, list, "single"):
            if form == "single" and m != 1:
                continue
            x = copy.copy(o)
            new = Q[3:3 + m]
            txt = lambda: "%s; then assigning %d qubits (%s)" % (txt0(), m, form)
            ok = (n is None and m > 0) or m == n
            if n is None and m == 0:
                continue
            try:
                x.qubits = new[0] if form == "single" else form(new)
            except (ValueError, TypeError) as e:
                require(not ok, lambda: "%s: refused with %r" % (txt(), e))
                check_op(x, C, qs, ctl, params, lambda: txt() + " is refused", n)
            else:
                require(ok, lambda: txt() + ": accepted")
                check_op(x, C, new, ctl, params, txt, n)
                if C.__name__ == "Measurement":
                    from dwave.gate.primitives import Bit

                    bits = [Bit(i) for i in range(5)]
                    x | bits
                    require(len(x.bits) == m, lambda: "%s: measured into %d bits" % (txt(), len(x.bits)))
                reapply(x, C, n, k, ctl, new, params, Q, circ, txt, cov, False)
            cov.step()
    reapply(o, C, n, k, ctl, qs, params, Q, circ, txt0, cov, True)


def reapply(o, C, n, k, ctl, qs, params, Q, circ, txt0, cov, full):
    forms = [("same", {}, qs)]
    width = n or 2
    for m in range(1, 5) if full else (width,):
        new = Q[4 - m:4]
        if ctl is None:
            forms.append(("tuple", dict(qubits=tuple(new)), new))
            if m == 1:
                forms.append(("single", dict(qubits=new[0]), new))
        elif m > 1:
            for c in range(1, m):
                forms.append(("split", dict(control=tuple(new[:c]), target=tuple(new[c:])), new if (c == ctl or n is None) else None))
    if ctl is not None and n is not None:
        # only one side replaced
        cq, tq = Q[5:5 + ctl], Q[5:5 + n - ctl]
        forms.append(("control", dict(control=tuple(cq)), cq + list(qs[ctl:]) if qs else ()))
        forms.append(("target", dict(target=tuple(tq)), list(qs[:ctl]) + tq if qs else ()))
    for inside in (True, False):
        for form, kw, want in forms:
            ok = (want is not None and (not want or n is None or len(want) == n)) and bool(want or not inside)
            txt = lambda: "%s; re-applied (%s %r, %s)" % (txt0(), form, list(kw), "in a context" if inside else "outside")
            before = list(circ.circuit)
            try:
                if inside:
                    with circ.context:
                        r = o(**kw)
                else:
                    r = o(**kw)
            except (ValueError, TypeError) as e:
                circ.unlock()
                require(not ok, lambda: "%s: refused with %r" % (txt(), e))
                require(len(circ.circuit) == len(before), lambda: txt() + ": refused, but recorded")
                continue
            circ.unlock()
            require(ok, lambda: "%s: accepted as %r" % (txt(), r))
            require(r is not o, lambda: txt() + ": the operation itself is applied again")
            if want or form not in ("control", "target"):
                check_op(r, C, want, ctl, recorded(params, inside), txt, n)
            if params is not None:
                require(r.parameters is not o.parameters, lambda: txt() + ": parameters are shared")
            if want and qs and [id(q) for q in want] == [id(q) for q in qs]:
                # (a variable equals its value)
                require(r == o and o == r, lambda: txt() + ": differs from the original")
            require(len(circ.circuit) == len(before) + inside and (not inside or circ.circuit[-1] is r),
                    lambda: txt() + ": recorded %d operations" % (len(circ.circuit) - len(before)))
            check_op(o, C, qs, ctl, params, lambda: txt() + ": the original changed", n)
            cov.step()


NUMBERS = [
    (1, (1, 1.0, True, np.float64(1), np.int64(1), np.float32(1), 1 + 0j, Fraction(1))), (0, (0, 0.0, -0.0, False, np.float64(-0.0), 0j)),
    (1.0000000001, (1.0000000001, np.float64(1.0000000001))), (-1, (-1, -1.0, np.int8(-1))), (0.5, (0.5, np.float32(0.5), Fraction(1, 2))),
    (2 ** 60, (2 ** 60, 2.0 ** 60)), (2 ** 60 + 1, (2 ** 60 + 1, np.int64(2 ** 60 + 1))), (1e-300, (1e-300,)), (1j, (1j, np.complex128(1j))), (0.1 + 0.2, (0.1 + 0.2,)), (0.3, (0.3,)),
]


def alphabet():
    """(class, parameters, qubits)"""
    return [
        ("X", None, (0,)), ("X", None, (1,)), ("Y", None, (0,)),
        ("RX", (0.1,), (0,)), ("RX", (0.2,), (0,)), ("RX", (0,), (0,)), ("RX", ("a",), (0,)), ("RX", ("b",), (0,)),
        ("RX", (0.1,), (1,)), ("RY", (0.1,), (0,)),
        ("CX", None, (0, 1)), ("CX", None, (1, 0)), ("CZ", None, (0, 1)), ("CRX", (0.1,), (0, 1)), ("CRX", (0.1,), (1, 0)),
        ("SWAP", None, (0, 1)), ("Measurement", None, (0,)), ("Measurement", None, (0, 1)), ("Barrier", None, (0, 1)),
        ("MyX", None, (0,)),
    ]


def build(spec, Q, my):
    from dwave.gate.primitives import Variable

    name, params, qs = spec
    C = my if name == "MyX" else drive.op_class(name)
    kw = dict(qubits=[Q[i] for i in qs])
    if params is not None:
        kw["parameters"] = [Variable(p) if isinstance(p, str) else p for p in params]
    return C(**kw)


def equality(i, cov):
    import dwave.gate.operations as ops
    from dwave.gate.primitives import Bit, Qubit

    Q = [Qubit("q"), Qubit("q")]
    my = type("MyX", (ops.X,), {})
    A = alphabet()
    for j, spec in enumerate(A):
        a, b = build(A[i], Q, my), build(spec, Q, my)
        for variant in ("plain", "conditional", "matrix", "copied"):
            if variant == "conditional":
                b.conditional(Bit(0))
            elif variant == "matrix":
                if not any(hasattr(p, "set") for p in getattr(b, "parameters", ())):
                    b.matrix
            elif variant == "copied":
                a, b = copy.deepcopy((a, b))
            txt = lambda: "%r and %r (%s)" % (a, b, variant)
            require((a == b) is (i == j) and (b == a) is (i == j), lambda: txt() + ": equality is %r" % (a == b))
            require((a != b) is (i != j), lambda: txt() + ": inequality")
            cov.step()
        other = build(spec, [Qubit("q"), Qubit("q")], my)
        require(not (a == other), lambda: "%r equals %r on other qubits of the same labels" % (a, other))
        cov.state("eq", i, j)
    # numbers are compared by value, whatever their type
    name, params, qs = A[i]
    if params is not None:
        for value, same in NUMBERS:
            for x, y in itertools.product(same, repeat=2):
                a, b = build((name, (x,), qs), Q, my), build((name, (y,), qs), Q, my)
                require(a == b and b == a and not a != b, lambda: "%r and %r differ" % (a, b))
                cov.step()
            for v2, other in NUMBERS:
                if v2 != value:
                    a, b = build((name, same[:1], qs), Q, my), build((name, other[-1:], qs), Q, my)
                    require(not (a == b) and a != b, lambda: "%r and %r are equal" % (a, b))
    a = build(A[i], Q, my)
    for x in (None, 0, "X", a.qubits, my, type(a)):
        require(not (a == x) and not (x == a), lambda: "%r equals %r" % (a, x))
    if hasattr(a, "parameters"):
        v = a.parameters[0]
        if hasattr(v, "set"):  # a variable with a value equals that value
            v.set(0.1)
            b = build((A[i][0], (0.1,), A[i][2]), Q, my)
            require(a == b and b == a, lambda: "%r and %r differ" % (a, b))
            v.reset()
            require(not (a == b) and not (b == a), lambda: "%r and %r are equal" % (a, b))
    cov.outcome("eq")


def unset(name, kinds, home, cov):
    """Parameters: v(alue), s(et variable), u(nset variable). Evaluating or recording is
    refused for unset ones (or foreign qubits), leaving operation and circuit unchanged."""
    from dwave.gate.circuit import Circuit, CircuitError
    from dwave.gate.primitives import Qubit, Variable

    C, n, k, ctl = make(name)
    for way in ("append", "extend", "eval", "evalcopy", "evalwith"):
        params = [Variable("x%d" % i) if c != "v" else 0.5 + i for i, c in enumerate(kinds)]
        for p, c in zip(params, kinds):
            if c == "s":
                p.set(0)
        values = [0 if c == "s" else p for p, c in zip(params, kinds)]
        circ = Circuit(3)
        Q = (list(circ.qubits) if home == "own" else [Qubit(i) for i in range(3)])[:n]
        o = C(params, qubits=Q)
        ok = "u" not in kinds and (home == "own" or way.startswith("eval"))
        txt = lambda: "%s %s of %r with parameters %s" % (way, home, o, kinds)
        r = None
        if way == "evalwith":
            ok, values = True, [10 + i if c != "v" else p for i, (p, c) in enumerate(zip(params, kinds))]
        try:
            if way == "append":
                circ.append(o)
            elif way == "extend":
                circ.extend([o])
            elif way == "evalwith":
                r = o.eval([10 + i for i in range(k)])
            else:
                r = o.eval(inplace=way == "eval")
        except (ValueError, CircuitError) as e:
            require(not ok, lambda: "%s: refused with %r" % (txt(), e))
            check_op(o, C, Q, ctl, params, lambda: txt() + " is refused", n)
            require(len(circ.circuit) == 0, lambda: txt() + ": refused, but recorded")
            cov.outcome("refused")
        else:
            require(ok, lambda: txt() + ": accepted")
            inplace = way not in ("evalcopy", "evalwith")
            check_op(o, C, Q, ctl, values if inplace else params, txt, n)
            if r is not None:
                check_op(r, C, Q, ctl, values, txt, n, copied=r is not o)
                require((r is o) == inplace, lambda: txt() + ": returns " + ("a copy" if inplace else "itself"))
            cov.outcome("accepted")
        cov.step()
    cov.state("unset", name, kinds, home)


def large(n, how, cov):
    """Operations on many qubits; removing from many operations."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit

    circ = Circuit(n, n)
    Q, B = list(circ.qubits), list(circ.bits)
    same = lambda xs, ys: len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))  # noqa: E731
    if how == "operations":
        for C in (ops.Measurement, ops.Barrier):
            orders = [Q, Q[::-1], Q[1:] + Q[:1], Q[:-1], Q[:-2] + Q[-1:], Q[:-2] + [Q[-1], Q[-2]], Q[:n // 2], Q[:1]]
            objs = []
            with circ.context:
                for qs in orders:
                    o = C(list(qs)) if len(objs) % 2 else C(qubits=tuple(qs))
                    require(same(list(o.qubits), qs) and o.num_qubits == len(qs), lambda: "%s on %d qubits has %d" % (C.__name__, len(qs), len(o.qubits)))
                    objs.append(o)
            circ.unlock()
            for i, a in enumerate(objs):
                for j, b in enumerate(objs):
                    require((a == b) is (i == j) and (a != b) is (i != j), lambda: "%s on %d qubits: equality of %d and %d" % (C.__name__, n, i, j))
                with circ.context:
                    b = a(list(orders[i]))
                require(b is not a and type(b) is C and same(list(b.qubits), orders[i]) and circ.circuit[-1] is b and a == b,
                        lambda: "%s on %d qubits, applied again: %s" % (C.__name__, n, b))
                circ.unlock()
        for k in (n, n - 1, 1):
            m = ops.Measurement(Q[:k])
            m | B[:k][::-1]
            require(same(list(m.bits), B[:k][::-1]), lambda: "measurement of %d of %d qubits: bits %s" % (k, n, m.bits))
            cov.step()
        with circ.context:
            o = ops.X(Q[0]).conditional(B)
        for b in B:
            b.set(1)
        require(not o.is_blocked, "blocked by %d set bits" % n)
        for i in {0, n // 2, n - 1, n - 2}:
            B[i].set(0, force=True)
            require(o.is_blocked, lambda: "not blocked by bit %d of %d" % (i, n))
            B[i].set(1, force=True)
        cov.step(8)
    else:
        first = None
        with circ.context:
            for i in range(n):
                ops.X(Q[i])
                ops.CX(Q[i], Q[(i + 1) % n])
                ops.RX(0.5 + i, Q[0])
                ops.Measurement([Q[i]]) | B[i]
                if how == "equal":
                    ops.Z(Q[0])
        circ.unlock()
        want = list(circ.circuit)
        order = {"front": list(range(len(want))), "back": list(range(len(want)))[::-1], "equal": [],
                 "stride": [i * 7 % len(want) if len(want) % 7 else i for i in range(len(want))]}[how]
        txt = lambda: "%d operations (%s)" % (len(order) or 5 * n, how)  # noqa: E731
        all_ = list(want)
        for i in order:
            circ.remove(all_[i])
            at = next(p for p, x in enumerate(want) if x is all_[i])
            del want[at]
            if at % 16 == 0 or len(want) < 9:
                require(same(circ.circuit, want), lambda: "%s: removing operation %d leaves %d" % (txt(), i, len(circ.circuit)))
            cov.step()
        if how == "equal":  # n equal operations, removed one by one, from the front
            for k in range(n):
                i = next(p for p, x in enumerate(want) if type(x) is ops.Z)
                del want[i]
                with circ.context:
                    with circ.context.freeze:
                        o = ops.Z(Q[0])
                circ.unlock()
                circ.remove(o if k % 2 else next(x for x in circ.circuit[::-1] if type(x) is ops.Z))
                require(same(circ.circuit, want), lambda: "%s: removal %d of an equal operation" % (txt(), k))
                cov.step()
            try:
                circ.remove(o)
                require(False, "%s: a removed operation is removed again" % txt())
            except ValueError:
                cov.outcome("not found")
        else:
            require(len(circ.circuit) == 0, txt)
    cov.state("large", n, how)
    cov.outcome("large")


def removal(d, first, cov):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import ParametricCircuit

    my = type("MyX", (ops.X,), {})
    A = alphabet()
    for tail in itertools.product(range(len(A)), repeat=min(d, 2)):
        seq = (*first, *tail)
        for victim in sorted(set(seq)) + [next(i for i in range(len(A)) if i not in seq)]:
            last = max((p for p, i in enumerate(seq) if i == victim), default=None)
            for own in (False, True) if last is not None else (False,):
                circ = ParametricCircuit(2)
                with circ.context as reg:
                    reg.p[0]
                circ.unlock()
                Q = list(circ.qubits)
                for i in seq:
                    circ.append(build(A[i], Q, my))
                recorded = list(circ.circuit)
                op = recorded[last] if own else build(A[victim], Q, my)
                txt = lambda: "removing %r from %s" % (op, [A[i] for i in seq])
                want = list(recorded)
                at = next((p for p, i in enumerate(seq) if i == victim), None)
                if at is not None:
                    del want[at]
                try:
                    circ.remove(op)
                except ValueError:
                    require(at is None, lambda: txt() + ": not found")
                    cov.outcome("not found")
                else:
                    require(at is not None, lambda: txt() + ": accepted")
                    cov.outcome("removed")
                got = circ.circuit
                require(len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                        lambda: "%s leaves %r" % (txt(), got))
                cov.step()
        cov.state("remove", seq)
        cov.traces += 1
