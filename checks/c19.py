"""C19: bits, qubits and variables keep identity and value semantics."""
import copy
import itertools

from mc.core import require

PROPERTY = "C19"
RULE = (
    "every sequence up to the stated depth, and every short word repeated (`loop`: length, times), of set, forced set, reset, relabel and failing set over two bits, two "
    "variables of the same or different names, two qubits (same labels, used inside and outside of registers) with "
    "an alphabet of values incl. zero, negatives, booleans, numpy and non-numeric truth values; after every history all "
    "values, truth values, hashes, dictionary lookups and all pairwise comparisons (both directions, with copies and "
    "with plain values) compared with a reference"
)
BOUNDS = {"quick": dict(bits=4, vars=4, qubits=4, loop=(2, 65)), "thorough": dict(bits=5, vars=5, qubits=6, loop=(3, 130))}
ASSUMPTIONS = ["equality of a copied qubit or bit with its original is taken to hold (it is the same identity)"]
EXPECT_OUTCOMES = ["refused", "set", "loop bit", "loop var", "loop qubit", "truth"]


def values():
    import numpy as np

    return {
        "0": 0, "1": 1, "True": True, "False": False, "2": 2, "-1": -1, "0.5": 0.5, "''": "", "'0'": "0", "None": None,
        "np0": np.int64(0), "np1": np.float64(1), "[]": [],
    }


class Raises:
    def __bool__(self):
        raise ValueError("no truth value")


BIT_VALUES = ["0", "1", "False", "2", "-1", "''", "'0'", "None", "np0", "np1"]
BIT_ACTS = (
    [("set", i, v, f) for i in (0, 1) for v in ("0", "1", "''", "-1") for f in (False, True)]
    + [("set", 0, v, f) for v in ("False", "2", "None", "np0", "np1", "'0'") for f in (True,)]
    + [("reset", 0), ("reset", 1), ("label", 0, "b"), ("label", 1, 0), ("raise", 0)]
)
VAR_VALUES = {"0": 0, "0.0": 0.0, "1": 1, "-0.5": -0.5, "1j": 1j, "pi": 3.141592653589793, "name": "a"}
VAR_ACTS = [("set", i, v) for i in (0, 1) for v in ("0", "1", "-0.5", "1j")] + [("reset", 0), ("reset", 1),
            ("set", 0, "pi"), ("copyset", 0, "1"), ("none", 0)]
VAR_NAMES = [("a", "a"), ("a", "b"), ("0", 0), ("", "a"), ("1", "0")]
QUBIT_ACTS = [("label", 0, "a"), ("label", 1, "a"), ("label", 0, None), ("label", 1, 0), ("label", 0, ("t", 1)),
              ("read", 0), ("copy", 0)]
BIT_LABELS = [("a", "a"), (0, 1), (None, "x")]


def generate(b):
    for labels in BIT_LABELS:
        yield ["truth", labels]
    yield from words(b)
    for labels in BIT_LABELS:
        for d in range(1, b["bits"] + 1):
            for first in itertools.product(range(len(BIT_ACTS)), repeat=max(0, d - 2)):
                yield ["bit", labels, d, first]
    for names in VAR_NAMES:
        for d in range(1, b["vars"] + 1):
            for first in itertools.product(range(len(VAR_ACTS)), repeat=max(0, d - 2)):
                yield ["var", names, d, first]
    for labels in BIT_LABELS:
        for d in range(1, b["qubits"] + 1):
            for first in itertools.product(range(len(QUBIT_ACTS)), repeat=max(0, d - 2)):
                yield ["qubit", labels, d, first]


def words(b):
    for kind, acts, labels in (("bit", BIT_ACTS, BIT_LABELS), ("var", VAR_ACTS, VAR_NAMES), ("qubit", QUBIT_ACTS, BIT_LABELS)):
        for k in range(1, b["loop"][0] + 1):
            for word in itertools.product(range(len(acts)), repeat=k):
                yield [kind, labels[sum(word) % len(labels)], -b["loop"][1], word]


def run_case(case, cov):
    if case[0] == "truth":
        truth(case[1], cov)
        cov.traces += 1
        return
    kind, labels, d, first = case
    if d < 0:
        acts = {"bit": BIT_ACTS, "var": VAR_ACTS, "qubit": QUBIT_ACTS}[kind]
        {"bit": bits, "var": variables, "qubit": qubits}[kind](labels, [acts[i] for i in first] * -d, cov)
        cov.traces += 1
        cov.outcome("loop " + kind)
        return
    acts = {"bit": BIT_ACTS, "var": VAR_ACTS, "qubit": QUBIT_ACTS}[kind]
    for tail in itertools.product(range(len(acts)), repeat=min(d, 2)):
        hist = [acts[i] for i in (*first, *tail)]
        {"bit": bits, "var": variables, "qubit": qubits}[kind](labels, hist, cov)
        cov.traces += 1
    cov.outcome(kind)


def near():
    """Numbers next to the values, texts of them and other types of the same ones."""
    from decimal import Decimal
    from fractions import Fraction

    import numpy as np

    out = []
    for v in (0, 1, 0.5, -0.5, 3.141592653589793):
        out += [v + 1e-12, v - 1e-9, v + 1e-7, -v, str(v), repr(v), np.float32(v) if float(np.float32(v)) == v else v, np.float64(v), Fraction(v), Decimal(v), complex(v),
                complex(v, 1e-12), np.nextafter(v, 9)]
    return out + [1j + 1e-12, -1j, float("nan"), float("inf"), 1e-320, [], (), object()]


NEAR = near()


def truths():
    from decimal import Decimal
    from fractions import Fraction

    import numpy as np

    return [0.5, -0.25, 1e-300, float("nan"), float("inf"), -0.0, 0.0, Fraction(1, 2), Fraction(0), Decimal("0.3"), Decimal(0),
            0j, 0.1j, -1, -2, 2, 256, 2 ** 64, 10 ** 400, "", "0", "False", " ", b"", b"0", [], [0], (), (0,), {}, {0: 0},
            set(), {0}, range(0), range(1), None, True, False, object(), int, np.float32(0.25), np.float64(0), np.int8(-1),
            np.uint8(0), np.bool_(True), np.bool_(False), np.complex64(0.5j), np.array(0.5), np.array([0]), np.array([0.25])]


def truth(labels, cov):
    """Any value which is true or false, on bits with every earlier value."""
    from dwave.gate.primitives import Bit

    for v in truths():
        for before in (None, 0, 1):
            for how in ((), ("force",), ("reset",), ("reset", "force")):
                b = Bit(labels[0])
                if before is not None:
                    b.set(before)
                if "reset" in how:
                    b.reset()
                txt = lambda: "bit with value %r, %s, set to %r" % (before, "+".join(how), v)  # noqa: E731
                refuse = before is not None and not how
                try:
                    b.set(v, force="force" in how)
                    require(not refuse, lambda: txt() + ": overwritten without force")
                except ValueError:
                    require(refuse, lambda: txt() + ": refused")
                want = before if refuse else 1 if v else 0
                require(type(b.value) is int and b.value == want, lambda: "%s: value %r" % (txt(), b.value))
                require(bool(b) == bool(want), lambda: "%s: truth value" % txt())
                c = copy.deepcopy(b)
                require(c.value == want and c == b, lambda: "%s: copy has value %r" % (txt(), c.value))
                cov.step()
                cov.state("truth", repr(v)[:20], before, how)
    cov.outcome("truth")


PROBES = [0, 1, True, False, 2, -1, 0.5, "a", "0", None, 1j]


def bits(labels, hist, cov):
    from dwave.gate.primitives import Bit, Qubit

    V = values()
    B = [Bit(labels[0]), Bit(labels[1])]
    lab = list(labels)
    other = Qubit(labels[0])
    H = [hash(x) for x in B]
    table = {B[0]: "x", B[1]: "y"}
    val = [None, None]
    for step, a in enumerate(hist):
        txt = lambda: "bits labelled %s, %s step %d" % (labels, hist, step)
        i = a[1]
        if a[0] == "set":
            v, force = V[a[2]], a[3]
            refuse = val[i] is not None and not force
            try:
                r = B[i].set(v, force=True) if force else B[i].set(v)
            except ValueError:
                require(refuse, lambda: txt() + ": refused")
                cov.outcome("refused")
            else:
                require(not refuse, lambda: txt() + ": overwritten without force")
                val[i] = 1 if v else 0
                cov.outcome("set")
        elif a[0] == "reset":
            B[i].reset()
            val[i] = None
        elif a[0] == "label":
            B[i].label = a[2]
            lab[i] = a[2]
        else:
            try:
                B[i].set(Raises(), force=True)
            except ValueError:
                pass
            else:
                require(False, lambda: txt() + ": a value without truth value was accepted")
        if step < len(hist) - 1:
            continue  # compared as a history of its own
        for k in (0, 1):
            b = B[k]
            require(b.value is None if val[k] is None else (type(b.value) is int and b.value == val[k]),
                    lambda: "%s: bit %d has value %r instead of %r" % (txt(), k, b.value, val[k]))
            require(bool(b) == (val[k] != 0), lambda: "%s: truth value of bit %d" % (txt(), k))
            require(hash(b) == H[k] and table.get(b) == "xy"[k], lambda: "%s: hash of bit %d changed" % (txt(), k))
            require(b.label == lab[k], lambda: "%s: label of bit %d is %r" % (txt(), k, b.label))
            require((b == b) is True and (b != b) is False, lambda: txt() + ": a bit differs from itself")
            c = copy.deepcopy(b)
            require(c == b and b == c and hash(c) == H[k] and c.value == b.value and c != B[1 - k],
                    lambda: txt() + ": copy of a bit")
            c.set(1, force=True)
            require(b.value == val[k], lambda: txt() + ": setting a copy changed the bit")
            require(not (b == other) and not (other == b) and b != other, lambda: txt() + ": a bit equals a qubit")
            for p in (*PROBES, *(NEAR if step < 2 else ())):
                want = bool(val[k] is not None and p is not None and val[k] == p)
                require(bool(b == p) is want and bool(p == b) is want and bool(b != p) is not want,
                        lambda: "%s: bit %r == %r is %r" % (txt(), b, p, b == p))
        require(not (B[0] == B[1]) and B[0] != B[1] and B[0].id != B[1].id, lambda: txt() + ": different bits are equal")
        cov.step()
        cov.state("bit", labels, tuple(val), tuple(map(str, lab)), a[0], str(a[2:]))


def variables(names, hist, cov):
    from dwave.gate.primitives import Bit, Variable

    X = [Variable(names[0]), Variable(names[1])]
    nm = [str(n) for n in names]
    bit = Bit(nm[0])
    H = [hash(x) for x in X]
    val = [None, None]
    for step, a in enumerate(hist):
        txt = lambda: "variables named %s, %s step %d" % (names, hist, step)
        i = a[1]
        if a[0] == "set":
            X[i].set(VAR_VALUES[a[2]])
            val[i] = VAR_VALUES[a[2]]
            cov.outcome("set")
        elif a[0] == "reset":
            X[i].reset()
            val[i] = None
        elif a[0] == "copyset":
            c = copy.deepcopy(X[i])
            require(c == X[i] and c.value == X[i].value, lambda: txt() + ": copy of a variable")
            c.set(77)
            c.reset()
        elif a[0] == "none":
            X[i].set(None)
            val[i] = None
        if step < len(hist) - 1:
            continue
        for k in (0, 1):
            x = X[k]
            require(x.value is None if val[k] is None else (x.value == val[k] and type(x.value) is type(val[k])),
                    lambda: "%s: variable %d has value %r instead of %r" % (txt(), k, x.value, val[k]))
            require(x.name == nm[k], lambda: "%s: name of variable %d is %r" % (txt(), k, x.name))
            require(hash(x) == H[k] and {x: 5}[Variable(nm[k])] == 5, lambda: txt() + ": hash of a variable changed")
            for p in (*VAR_VALUES.values(), *PROBES, *(NEAR if step < 2 else ())):
                want = bool(val[k] is not None and p is not None and val[k] == p)
                require(bool(x == p) is want and bool(p == x) is want and bool(x != p) is not want,
                        lambda: "%s: variable %s with value %r == %r is %r" % (txt(), nm[k], val[k], p, x == p))
            require(not (x == bit) and (x != bit), lambda: txt() + ": a variable equals an unset bit")
            for fresh in (Variable(nm[k]), Variable(nm[k] + "z")):
                want = fresh.name == nm[k]
                require((x == fresh) is want and (fresh == x) is want, lambda: txt() + ": equality by name")
                require(fresh.value is None, lambda: txt() + ": a new variable has a value")
        same = nm[0] == nm[1]
        require((X[0] == X[1]) is same and (X[1] == X[0]) is same and (X[0] != X[1]) is not same
                and (H[0] == H[1] or not same), lambda: txt() + ": equality of the two variables")
        cov.step()
        cov.state("var", names, tuple(map(str, val)), a)


def qubits(labels, hist, cov):
    from dwave.gate.primitives import Bit, Qubit

    Q = [Qubit(labels[0]), Qubit(labels[1])]
    lab = list(labels)
    H = [hash(q) for q in Q]
    table = {Q[0]: "x", Q[1]: "y"}
    bit = Bit(labels[0])
    ids = [q.id for q in Q]
    for step, a in enumerate(hist):
        txt = lambda: "qubits labelled %s, %s step %d" % (labels, hist, step)
        if a[0] == "label":
            Q[a[1]].label = a[2]
            lab[a[1]] = a[2]
        elif a[0] == "copy":
            c = copy.deepcopy(Q[a[1]])
            require(c == Q[a[1]] and hash(c) == H[a[1]], lambda: txt() + ": copy of a qubit")
            c.label = "other"
        if step < len(hist) - 1:
            continue
        for k in (0, 1):
            q = Q[k]
            require(q.label == lab[k] and q.id == ids[k], lambda: "%s: qubit %d is %r" % (txt(), k, q))
            require(hash(q) == H[k] and table.get(q) == "xy"[k], lambda: txt() + ": hash of a qubit changed")
            require((q == q) is True and (q != q) is False and (q == bit) is False and (bit == q) is False,
                    lambda: txt() + ": equality of a qubit")
            for p in (lab[k], q.id, *PROBES):
                require((q == p) is False and (p == q) is False, lambda: "%s: qubit equals %r" % (txt(), p))
            fresh = Qubit(lab[k])
            require((q == fresh) is False and (fresh == q) is False and fresh not in table,
                    lambda: txt() + ": a new qubit equals an old one")
        require((Q[0] == Q[1]) is False and (Q[1] == Q[0]) is False, lambda: txt() + ": different qubits are equal")
        cov.step()
        cov.state("qubit", labels, tuple(map(str, lab)), a)
