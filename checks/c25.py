"""C25: copies of circuits, operations and registers are faithful and independent."""
import copy
import itertools
import pickle

import numpy as np

from mc import drive
from mc.core import Violation, require

PROPERTY = "C25"
RULE = (
    "every history (actions on a circuit, copying it with copy.deepcopy or pickle, actions on the original and on the "
    "copy in every interleaving) of the stated length over recording, removing, adding qubits and bits, simulating, setting "
    "bits, states, labels, conditions, variables, evaluating, applying, locking and resetting; circuits of several layouts, "
    "parametric ones and ones with custom operations, copied also while a context is open or frozen: afterwards original "
    "and copy each present exactly what a circuit with only its own actions presents; the same for every kind of operation "
    "and for registers after every word of mutators, for large circuits and registers (`sizes`), for long chains and many copies (`chain`), and for several objects copied together"
)
BOUNDS = {
    "quick": dict(all={0: 2, 1: 1}, core={1: 2, 2: 1}, register=3, loop=(1, 5), sizes=(11, 33, 65, 130, 300), chain=(17, 65)),
    "thorough": dict(all={0: 2, 1: 2, 2: 1}, core={0: 3, 1: 3, 2: 2, 3: 1}, register=4, loop=(2, 5), sizes=(9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 130, 256, 257, 300, 513, 1030), chain=(17, 33, 65, 130, 300)),
}
ASSUMPTIONS = ["shallow copies of circuits are not considered", "classes made by create_operation are not pickled"]
EXPECT_OUTCOMES = ("simulated plain", "simulated registers", "simulated param", "circuit", "open", "frozen", "together", "operation", "register", "refused", "custom", "loop", "large", "chain")
METHODS = ("deepcopy", "pickle")
CORE = ["gate", "rm", "sim", "bit", "cond", "addq", "reset"]
ACTS = CORE + ["addb", "label", "lock", "unlock", "state", "mixed", "evalin", "var", "meas", "apply", "resetall", "blabel", "addlast", "addreg"]
KINDS = ("plain", "registers", "param", "custom", "empty")
MODES = ("closed", "open", "frozen")


def copied(x, method):
    return copy.deepcopy(x) if method == "deepcopy" else pickle.loads(pickle.dumps(x))


def generate(b):
    for kind in KINDS:
        for method in METHODS:
            if kind == "custom" and method == "pickle":
                continue
            for mode in MODES:
                for which, alphabet in (("all", ACTS), ("core", CORE)):
                    for k, post in b[which].items():
                        if mode != "closed" and (which == "core" or k > 1):
                            continue
                        for pre in itertools.product(ACTS if k < 2 else CORE, repeat=k):
                            if mode != "closed" or post == 1:
                                yield ["circuit", kind, method, mode, list(pre), which, [], 1]
                                continue
                            yield ["circuit", kind, method, mode, list(pre), which, [], 0]
                            for first in itertools.product((0, 1), alphabet):
                                yield ["circuit", kind, method, mode, list(pre), which, [first], post - 1]
            for k in range(1, b["loop"][0] + 1):
                for word in itertools.product(ACTS, repeat=k):
                    yield ["loop", kind, method, list(word), b["loop"][1]]
            yield ["together", kind, method]
            for n in b["chain"]:
                yield ["chain", kind, method, n]
    for method in METHODS:
        for n in b["sizes"]:
            for which in ("circuit", "parametric", "register"):
                yield ["large", which, method, n]
    for method in METHODS:
        for where in ("outside", "inside", "frozen"):
            for i in range(len(OPERATIONS)):
                yield ["operation", i, method, where]
        for cls in ("Register", "QuantumRegister", "ClassicalRegister", "SelfIncrementingRegister"):
            for k in range(b["register"] + 1):
                for word in itertools.product(MUTATORS, repeat=k):
                    yield ["register", cls, method, list(word)]


# ---------------------------------------------------------------------------- circuits
_custom = []


def custom():
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.operations import create_operation

    if not _custom:
        import dwave.gate.operations as ops

        c = Circuit(2)
        with c.context as reg:
            ops.Hadamard(reg.q[0])
            ops.CX(reg.q[1], reg.q[0])
        p = ParametricCircuit(1)
        with p.context as reg:
            ops.RX(reg.p[0], reg.q[0])
            ops.RZ(reg.p[1], reg.q[0])
        _custom.extend([create_operation(c, "Mine"), create_operation(p, "MineToo")])
    return _custom


def make(kind, mode="closed", then=None):
    """A circuit of the kind; in the other modes `then` is called with its context open."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit

    if kind == "param":
        c = ParametricCircuit(2, 2)
    elif kind == "registers":
        c = Circuit()
        c.add_qregister(1, 0)
        c.add_cregister(1, "c")
        c.add_qregister(2, "r")
        c.add_cregister(2, "")
        c.add_qubit(qreg_label=0)
    elif kind == "empty":
        c = Circuit()
    else:
        c = Circuit(2, 2)
    custom()
    with c.context as reg:
        q, b = list(c.qubits), list(c.bits)
        if kind == "custom":
            one, two = _custom
            one(qubits=[q[1], q[0]])
            two([0.3, 0.7], qubits=[q[0]])
            ops.Measurement([q[1]]) | b[1]
            two([1, 2], qubits=[q[1]]).conditional(b[1])
            ops.Barrier(q[:2])
        elif kind != "empty":
            ops.Hadamard(q[0])
            ops.CX(q[0], q[1])
            if kind == "registers":  # another state on every qubit
                ops.RY(0.9, q[2])
                ops.RX(2.5, q[3])
            if kind == "param":
                ops.RX(reg.p[0], q[1])
                ops.CRotation([reg.p[1], 0.5, reg.p[0]], q[1], q[0])
            else:
                ops.CRZ([0.5], q[-1], q[0])
                ops.Rotation([0.1, 0.2, 0.3], q[1])
                ops.Measurement([q[-1], q[0]]) | [b[0], b[-1]]
                ops.X(q[1]).conditional([b[0], b[-1]])
        if mode == "frozen":
            with c.context.freeze:
                then(c)
                if q:
                    ops.Y(q[0])
        elif mode == "open":
            then(c)
            if q:
                ops.Y(q[0])
    return c


class Refused(Exception):
    pass


def act(c, a):
    """Do an action; whether it is possible at all depends on the circuit's own history only."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
    from dwave.gate.simulator import simulate

    if a in ("gate", "meas"):
        c.unlock()
        with c.context as reg:
            q = list(c.qubits)
            if not q:
                raise Refused()
            if a == "gate":
                ops.S(q[-1])
                if c.parametric:
                    ops.RY(reg.p[2], q[0])
            else:
                m = ops.Measurement([q[-1]])
                if len(c.bits):
                    m | c.bits[0]
    elif a == "rm":
        c.remove(c.circuit[0])
    elif a == "sim":
        simulate(c, rng_seed=5)
        return rounded(c.state)
    elif a == "bit":
        c.bits[0].set(1, force=True)
    elif a == "cond":
        c.circuit[0].conditional(c.bits[-1])
    elif a == "addq":
        c.add_qubit()
    elif a == "addlast":
        c.add_qubit(qreg_label=list(c.qregisters)[-1])
    elif a == "addreg":
        c.add_qregister(2, "more")
    elif a == "addb":
        c.add_bit(creg_label="new" if c.num_bits % 2 else None)
    elif a == "label":
        c.qubits[0].label = "other"
    elif a == "blabel":
        c.bits[0].label = 7
    elif a == "lock":
        c.lock()
    elif a == "unlock":
        c.unlock()
    elif a == "state":
        v = np.zeros(2 ** c.num_qubits, dtype=complex)
        v[-1] = 1j
        c.set_state(v, force=True)
    elif a == "mixed":
        c.set_state(np.eye(2 ** c.num_qubits) / 2 ** c.num_qubits, force=True)
    elif a == "var":
        for o in c.circuit:
            for p in getattr(o, "parameters", ()):
                if hasattr(p, "set"):
                    p.set(0.25)
                    return
        raise Refused()
    elif a == "evalin":
        if not isinstance(c, ParametricCircuit):
            raise Refused()
        c.eval([[0.125 * (j + 1) for j in range(len(getattr(o, "parameters", ())))] for o in c.circuit], inplace=True)
    elif a == "apply":
        outer = Circuit(c.num_qubits, c.num_bits)
        args = (list(outer.qubits), list(outer.bits))
        with outer.context:
            if isinstance(c, ParametricCircuit):
                c([0.5 + i for i in range(c.num_parameters)], *args)
            else:
                c(*args)
        return drive.snapshot(outer, conds=False)
    elif a == "reset":
        c.reset()
    elif a == "resetall":
        c.reset(keep_registers=False)


def tried(f, *args):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return f(*args)
        except Violation:
            raise
        except Exception:
            return "refused"


def rounded(x):
    return None if x is None else "refused" if isinstance(x, str) else repr((x.shape, (np.round(x, 9) + 0.0).tolist()))


def view(c, results=(), light=False, final=False):
    """Everything a circuit presents, without regard to identity."""
    from dwave.gate.circuit import CircuitContext

    Q = {id(x): i for i, x in enumerate(c.qubits)}
    C = {id(x): i for i, x in enumerate(c.bits)}
    ops = []
    for o in c.circuit:
        v = drive.op_view(o, Q, C)
        ps = tuple(getattr(p, "value", p) for p in getattr(o, "parameters", ()) or ())
        extra = (o.is_blocked, type(o).__name__)
        if not light:
            extra += (o.num_qubits, o.name, rounded(tried(lambda: np.asarray(o.matrix, dtype=complex))))
        if type(o).__name__ == "Measurement":
            extra += (rounded(o.state), repr(tried(lambda: len(o.sample(num_samples=2)))))
        ops.append((v, ps, extra))
    out = dict(
        type=type(c).__name__,
        qreg=[(k, [x.label for x in r], r.frozen) for k, r in c.qregisters.items()],
        creg=[(k, [(x.label, x.value) for x in r], r.frozen) for k, r in c.cregisters.items()],
        where=[(c.find_qubit(x), c.qubits.index(x)) for x in c.qubits] + [(c.find_bit(x), c.bits.index(x)) for x in c.bits],
        numbers=(c.num_qubits, c.num_bits, len(c.qubits), len(c.bits), c.parametric, c.num_parameters),
        ops=ops,
        locked=c.is_locked(),
        own=c.context.circuit is c,
        active=CircuitContext.active_context is c.context,
        state=rounded(tried(lambda: c.state)),
        density=rounded(tried(lambda: c.density_matrix)),
        qasm=light or tried(lambda: c.to_qasm(reg_labels=False)),
        qir=light or tried(lambda: c.to_qir()),
        results=list(results),
    )
    if not final:
        return out
    # last, as it changes the circuit
    simulated = tried(simulated_state, c)
    return dict(out, simulated=rounded(simulated), measured=[x.value for x in c.bits])


def simulated_state(c):
    from dwave.gate.simulator import simulate

    if c.num_qubits > 9:
        return None
    simulate(c, rng_seed=11)
    return c.state


_views = {}


def expected(kind, mode, method_pre, post):
    """What a circuit presents that is not copied at all."""
    key = (kind, mode, tuple(method_pre), tuple(post))
    if key not in _views:
        if len(_views) > 60000:
            _views.clear()
        c = twin(kind, mode, method_pre)
        res = [tried(act, c, a) for a in post]
        _views[key] = view(c, res, light=len(post) > 1, final=True)
    return _views[key]


def twin(kind, mode, pre):
    """mode closed: the actions after building; copy-open/copy-frozen: building stops where the copy is taken."""
    if mode.startswith("copy"):
        c = make(kind)
        c.unlock()
    else:
        c = make(kind, mode, lambda c: None)
    for a in pre:
        tried(act, c, a)
    return c


def difference(got, want):
    return "; ".join("%s is %s instead of %s" % (k, got.get(k), want[k]) for k in want if got.get(k) != want[k])[:1500]


def run_case(case, cov):
    if case[0] == "operation":
        return run_operation(*case[1:], cov)
    if case[0] == "register":
        return run_register(*case[1:], cov)
    if case[0] in ("large", "chain"):
        globals()["run_" + case[0]](*case[1:], cov)
        cov.outcome(case[0])
        return
    if case[0] == "together":
        return run_together(*case[1:], cov)
    if case[0] == "loop":
        _, kind, method, word, times = case
        post = [(who, a) for _ in range(times) for a in word for who in (0, 1)]
        history(kind, method, "closed", word, post, cov)
        cov.outcome("loop")
        return
    _, kind, method, mode, pre, which, first, depth = case
    first = tuple(map(tuple, first))
    alphabet = ACTS if which == "all" else CORE
    for k in range(depth + 1):
        for post in itertools.product([(w, a) for w in (0, 1) for a in alphabet], repeat=k):
            post = first + post
            # the actions of the original alone are those of the prefix
            if len(post) < 2 or any(w for w, _ in post):
                history(kind, method, mode, pre, post, cov)
    cov.outcome(mode if mode != "closed" else "custom" if kind == "custom" else "circuit")


def history(kind, method, mode, pre, post, cov):
    from dwave.gate.circuit import CircuitContext

    txt = lambda: "%s circuit, %s by %s after %s, then %s" % (  # noqa: E731
        kind, "copied" if mode == "closed" else "while %s copied" % mode, method, pre,
        ["%s.%s" % (("original", "copy")[w], a) for w, a in post])
    got = []
    if mode == "closed":
        c = twin(kind, mode, pre)
        d = copied(c, method)
        want = [(kind, mode, pre), (kind, mode, pre)]
    else:
        def then(c):
            before = CircuitContext.active_context
            got.append(copied(c, method))
            require(CircuitContext.active_context is before, lambda: "%s: copying changed the open context" % txt())

        c = make(kind, mode, then)
        d = got[0]
        for a in pre:
            tried(act, c, a)
            tried(act, d, a)
        want = [(kind, mode, pre), (kind, "copy-" + mode, pre)]
    pair, res = (c, d), ([], [])
    for w, a in post:
        res[w].append(tried(act, pair[w], a))
        if res[w][-1] == "refused":
            cov.outcome("refused")
        cov.step()
    for w in (1, 0):
        own = tuple(a for x, a in post if x == w)
        e = expected(*want[w], own)
        g = view(pair[w], res[w], light=len(own) > 1, final=True)
        if g["simulated"] not in (None, "refused"):
            cov.outcome("simulated " + kind)
        if g != e:
            require(False, lambda: "%s: the %s differs from a circuit with only its own actions: %s"
                    % (txt(), ("original", "copy")[w], difference(g, e)))
    if len(post) < 2:
        cov.state(kind, mode, tuple(pre), post, repr(expected(*want[0], ())["ops"]))


def run_chain(kind, method, n, cov):
    """Copies of copies of copies, and many copies of one circuit, each changed in another way."""
    for how in ("chain", "star"):
        circs, pres = [twin(kind, "closed", [])], [[]]
        for i in range(n):
            a = ACTS[(5 * i) % len(ACTS)] if how == "star" else ("gate", "bit", "cond", "rm", "label", "evalin", "unlock")[i % 7]
            src = -1 if how == "chain" else 0
            circs.append(copied(circs[src], method))
            tried(act, circs[-1], a)
            pres.append((pres[src] if how == "chain" else []) + [a])
            cov.step()
        for i in sorted({0, 1, 2, 3, n // 2, n - 1, n, *range(0, n + 1, 9)}):
            e = view(twin(kind, "closed", pres[i]), light=True)
            g = view(circs[i], light=True)
            require(g == e, lambda: "%s circuit, %s of %d copies by %s: copy %d differs from a circuit with its actions: %s" % (
                kind, how, n, method, i, difference(g, e)))
    cov.state("chain", kind, method, n)


def run_large(which, method, n, cov):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.registers import ClassicalRegister, QuantumRegister
    from dwave.gate.registers.registers import Register

    txt = lambda: "%s of %d copied by %s" % (which, n, method)  # noqa: E731
    if which == "register":
        for cls, items in ((Register, list(range(n))), (Register, ["a%d" % i for i in range(n)][::-1] + [n + 5, 0]),
                           (QuantumRegister, list(Circuit(n).qubits)), (ClassicalRegister, list(Circuit(1, n).bits))):
            r = cls(items)
            d = copied(r, method)
            look = lambda r: [(x if isinstance(x, (int, str)) else (x.label, x.id), r.index(x), x in r) for x in r]  # noqa: E731
            want = look(r)
            require(type(d) is cls and look(d) == want and len(d) == len(items), lambda: "%s: %s instead of %s" % (txt(), look(d)[:20], want[:20]))
            d._pop()
            d.add("new")
            require(look(r) == want and look(d) == want[:-1] + [("new", len(items) - 1, True)], lambda: "%s: not independent" % txt())
            r._pop()
            r.add("newer")
            require(look(d) == want[:-1] + [("new", len(items) - 1, True)], lambda: "%s: not independent" % txt())
            cov.step(n)
        cov.state("large", which, method, n)
        return
    c = (Circuit if which == "circuit" else ParametricCircuit)(n // 2, n // 3)
    c.add_qregister(n - n // 2, "r")
    for i in range(n - n // 3):
        c.add_cregister(1)

    def fill(c, k):
        c.unlock()
        with c.context as reg:
            q, b = list(c.qubits), list(c.bits)
            for i in range(n):
                j = (3 * i + k) % n
                if which != "circuit":
                    ops.RX(reg.p[j], q[i])
                ops.RZ(0.25 + i + k, q[j])
                if i != j:
                    ops.CX(q[j], q[i]).conditional([b[i], b[j]])
                ops.Measurement([q[j]]) | b[i]
            ops.Measurement(q[::-1]) | b
            ops.Barrier(q)

    def look(c):
        Q, C = {id(x): i for i, x in enumerate(c.qubits)}, {id(x): i for i, x in enumerate(c.bits)}
        names = {}
        out = []
        for o in c.circuit:
            ps = tuple(("var", p.name, names.setdefault(id(p), len(names))) if hasattr(p, "set") else p for p in getattr(o, "parameters", ()) or ())
            out.append((type(o).__name__, ps, [Q.get(id(x)) for x in o.qubits],
                        [C.get(id(x)) for x in (getattr(o, "bits", None) or ())], o.is_blocked))
        return (out, [(k, [x.label for x in r]) for k, r in c.qregisters.items()], [(k, [(x.label, x.value) for x in r]) for k, r in c.cregisters.items()],
                [c.find_qubit(x) for x in c.qubits], [c.find_bit(x) for x in c.bits], c.num_parameters)

    fill(c, 1)
    before = look(c)
    d = copied(c, method)
    require(look(d) == before and look(c) == before, lambda: "%s: the copy differs" % txt())
    mine = {id(x) for x in (*c.qubits, *c.bits, *c.circuit)} | {id(p) for o in c.circuit for p in getattr(o, "parameters", ()) if hasattr(p, "set")}
    theirs = [x for x in (*d.qubits, *d.bits, *d.circuit)] + [p for o in d.circuit for p in getattr(o, "parameters", ()) if hasattr(p, "set")]
    require(not any(id(x) in mine for x in theirs), lambda: "%s: the copy shares %s" % (txt(), [x for x in theirs if id(x) in mine][:5]))
    # the copy's conditions follow the copy's bits
    for b in d.bits:
        b.set(1)
    require(look(c) == before and not any(o.is_blocked for o in d.circuit), lambda: "%s: conditions do not follow the copied bits" % txt())
    d.bits[n - 1].set(0, force=True)
    hit = [i for i, o in enumerate(d.circuit) if o.is_blocked]
    require(len(hit) == len([1 for i in range(n) for j in ((3 * i + 1) % n,) if i != j and n - 1 in (i, j)]), lambda: "%s: %s are blocked" % (txt(), hit))
    for b in d.bits:
        b.reset()
    fill(d, 2)
    require(look(c) == before, lambda: "%s: the original follows the copy" % txt())
    fill(c, 2)
    require(look(c) == look(d), lambda: "%s: used alike, they differ" % txt())
    c.remove(c.circuit[n])
    require(len(d.circuit) == len(c.circuit) + 1, lambda: "%s: the copy follows the original" % txt())
    cov.step(4 * n)
    cov.state("large", which, method, n)


def run_together(kind, method, cov):
    """Objects copied together keep referring to each other."""
    c = make(kind)
    o = make("plain")
    things = dict(c=c, again=c, ops=list(c.circuit), qubits=list(c.qubits), bits=list(c.bits), other=o, reg=c.qubits)
    new = copied(things, method)
    d = new["c"]
    require(new["again"] is d and new["other"] is not d, "copies of one circuit differ")
    for name, xs in (("ops", d.circuit), ("qubits", d.qubits), ("bits", d.bits)):
        require(len(new[name]) == len(list(xs)) and all(x is y for x, y in zip(new[name], xs)),
                lambda: "%s %s: %s copied together with their circuit are not those of its copy" % (kind, method, name))
    for x, y in zip(c.qubits, d.qubits):
        require(x is not y and x == y and hash(x) == hash(y) or method == "pickle" and x is not y and x.label == y.label,
                lambda: "%r is copied as %r" % (x, y))
    for x, y in zip(c.bits, d.bits):
        require(x is not y, "a bit is shared between a circuit and its copy")
    for x, y in zip(c.circuit, d.circuit):
        require(x is not y, "an operation is shared between a circuit and its copy")
    # a copy of a copy, and copies of one circuit among each other
    e, f = copied(d, method), copied(c, method)
    before = [view(x) for x in (c, d, f, o)]
    tried(act, e, "gate")
    tried(act, e, "sim")
    tried(act, e, "bit")
    tried(act, e, "label")
    for x, b in zip((c, d, f, o), before):
        require(view(x) == b, lambda: "%s %s: changing a copy of a copy changed another: %s" % (kind, method, difference(view(x), b)))
    want = expected(kind, "closed", (), ("gate", "sim", "bit", "label"))
    g = view(e, want["results"], light=True, final=True)
    require(g == want, lambda: "%s %s: a copy of a copy: %s" % (kind, method, difference(g, want)))
    # a copy takes part in building like its original
    if kind not in ("empty",):
        r0, r1 = tried(act, c, "apply"), tried(act, d, "apply")
        require(r0 == r1, lambda: "%s %s: applying the copy records %s instead of %s" % (kind, method, r1, r0))
    cov.outcome("together")


# -------------------------------------------------------------------------- operations
def _entries():
    out = []
    for g, n in (("Identity", 1), ("X", 1), ("Y", 1), ("Z", 1), ("Hadamard", 1), ("S", 1), ("T", 1), ("CX", 2), ("CY", 2),
                 ("CZ", 2), ("CHadamard", 2), ("SWAP", 2), ("CCX", 3), ("CSWAP", 3), ("Barrier", 3), ("Measurement", 2)):
        out += [(g, None, n, f) for f in ("plain", "cond", "bare")]
    for g, n, k in (("RX", 1, 1), ("RY", 1, 1), ("RZ", 1, 1), ("Rotation", 1, 3), ("CRX", 2, 1), ("CRY", 2, 1), ("CRZ", 2, 1),
                    ("CRotation", 2, 3)):
        out += [(g, k, n, f) for f in ("plain", "cond", "bare", "var", "varset")]
    return out


OPERATIONS = _entries()


def oview(o):
    """What an operation presents."""
    lab = lambda xs: None if xs is None else tuple((x.label, getattr(x, "value", "")) for x in xs)  # noqa: E731
    ps = tuple((p.name, p.value) if hasattr(p, "name") and hasattr(p, "set") else (type(p).__name__, p)
               for p in getattr(o, "parameters", ()) or ())
    return (type(o), o.name, ps, lab(o.qubits), lab(getattr(o, "control", None)), lab(getattr(o, "target", None)),
            lab(getattr(o, "bits", None)), o.is_blocked, tried(lambda: o.num_qubits),
            rounded(tried(lambda: np.asarray(o.matrix, dtype=complex))), rounded(getattr(o, "state", None)))


def run_operation(i, method, where, cov):
    from dwave.gate.circuit import Circuit, CircuitContext
    from dwave.gate.primitives import Bit, Qubit, Variable
    from dwave.gate.simulator import simulate

    g, k, n, form = OPERATIONS[i]
    cls = drive.op_class(g)
    circ = Circuit(n + 1, 3)
    q, b = list(circ.qubits)[::-1], list(circ.bits)
    v = [Variable("v%d" % j) for j in range(k or 0)]
    if form == "varset":
        for j, x in enumerate(v):
            x.set(0.5 + j)
    par = [] if k is None else [v if form.startswith("var") else [0.25 * (j + 1) for j in range(k)]]

    def mk():
        if form == "bare":
            return cls(*par)
        o = cls(*[list(p) for p in par], qubits=q[:n]) if g not in ("Measurement",) else cls(q[:n])
        if g == "Measurement":
            o | b[:n]
        if form == "cond":
            o.conditional([b[2], b[0]])
        return o

    txt = lambda: "%s (%s) copied by %s %s a context" % (g, form, method, where)  # noqa: E731

    def both():
        a = early or mk()
        w = oview(a)
        d = copied(a, method)
        require(oview(a) == w, lambda: "%s: copying changed the operation" % txt())
        require(d is not a and oview(d) == w, lambda: "%s: the copy is %s instead of %s" % (txt(), oview(d), w))
        return a, d

    early = mk() if form in ("bare", "var") else None  # cannot be made within a context, or is evaluated there
    if where == "outside":
        a, d = both()
    else:
        with circ.context:
            if where == "frozen":
                with circ.context.freeze:
                    a, d = both()
            else:
                a, d = both()
        want = 0 if where == "frozen" or form in ("bare", "var") else 1
        require(len(circ.circuit) == want, lambda: "%s: the context recorded %s" % (txt(), circ.circuit))
    w = oview(a)
    require(oview(d) == w, lambda: "%s: the copy is %s instead of %s" % (txt(), oview(d), w))
    if method == "deepcopy" or True:
        require(a == d and d == a, lambda: "%s: the copy is not equal to its original" % txt())
    # what happens to the one does not happen to the other
    for x, y in ((a, d), (d, a)):
        if form == "bare":
            x.qubits = q[1:n + 1]
            require(y.qubits is None or y is a, lambda: "%s: gave qubits to the other as well" % txt())
        w = oview(y)
        tried(lambda: x.conditional(b[1]))
        if g == "Measurement" and form != "bare":
            x.bits[0].set(1, force=True)
        if form == "cond":
            pass
        for p in getattr(x, "parameters", ()):
            if hasattr(p, "set"):
                p.set(0.75)
        tried(lambda: x.eval([1.5] * (k or 0), inplace=True))
        if form != "bare":
            x.qubits[0].label = "changed%d" % (x is a)
        require(oview(y) == w, lambda: "%s: changing the %s made the other %s instead of %s"
                % (txt(), "original" if x is a else "copy", oview(y), w))
        for p in getattr(x, "parameters", ()):
            require(not form.startswith("var") or where != "outside" or p == 1.5, lambda: "%s: evaluating had no effect" % txt())
        cov.step()
    for bit in b:
        bit.reset()
    # the copy works in a circuit of its original's qubits
    if form in ("plain", "cond") and method == "deepcopy" and where == "outside":
        ref_, got = Circuit(), Circuit()
        for c, o in ((ref_, mk()), (got, copy.deepcopy(mk()))):
            for x in q:
                c.add_qubit(x)
            c.append(o)
            tried(lambda: simulate(c, rng_seed=1))
        require(rounded(ref_.state) == rounded(got.state), lambda: "%s: the copy acts differently" % txt())
    cov.state("operation", g, form, where)
    cov.outcome("operation")


# --------------------------------------------------------------------------- registers
MUTATORS = ["pos", "gap", "str", "qubit", "bit", "var", "pop", "rm", "ints", "slice", "plus", "freeze", "grow"]


def rview(r):
    def item(x):
        t = type(x).__name__
        if t == "Qubit":
            return (t, x.label)
        if t == "Bit":
            return (t, x.label, x.value)
        if t == "Variable":
            return (t, x.name, x.value)
        return (t, x)

    xs = [r.data[i] for i in range(len(r))]
    return (type(r).__name__, r.frozen, len(r), [item(x) for x in xs], [x in r for x in xs],
            [r.index(x) for x in xs], [item(x) for x in r[::-1]] if not type(r).__name__.startswith("Self") else None,
            [item(r[i]) for i in range(len(r))], [x in r for x in (0, 1, 2, "s", "never", 2.5)])


def mutate(r, a, n):
    from dwave.gate.primitives import Bit, Qubit, Variable

    if a == "pos":
        r.add(len(r))
    elif a == "gap":
        r.add(len(r) + 2)
    elif a == "str":
        r.add("s" * (n + 1))
    elif a == "qubit":
        r.add(Qubit("q%d" % n))
    elif a == "bit":
        x = Bit("b%d" % n)
        x.set(n % 2)
        r.add(x)
    elif a == "var":
        r.add(Variable("v%d" % n))
    elif a == "grow":
        r[len(r)]
    elif a == "pop":
        r._pop()
    elif a == "rm":
        r._remove(r.data[0])
    elif a == "ints":
        r._relabel_as_integers()
    elif a == "slice":
        return r[1:]
    elif a == "plus":
        return r + type(r)(["p%d" % n])
    elif a == "freeze":
        r.freeze()
    return r


def run_register(cls, method, word, cov):
    import dwave.gate.registers as R

    def built():
        r = getattr(R, cls)()
        for n, a in enumerate(word):
            x = tried(mutate, r, a, n)
            r = r if isinstance(x, str) else x
        return r

    txt = lambda: "%s after %s copied by %s" % (cls, word, method)  # noqa: E731
    want = rview(built())
    for last in MUTATORS:
        r = built()
        d = copied(r, method)
        require(type(d) is type(r) and d is not r and rview(d) == want and rview(r) == want,
                lambda: "%s is %s instead of %s" % (txt(), rview(d), want))
        for x, y in ((d, r), (r, d)):
            w = rview(y)
            res = tried(mutate, x, last, 9)
            require(rview(y) == w, lambda: "%s: %s on the one made the other %s instead of %s" % (txt(), last, rview(y), w))
            if last in ("slice", "plus") and not isinstance(res, str):
                tried(mutate, res, "str", 11)
                require(rview(y) == w, lambda: "%s: %s made the other %s instead of %s" % (txt(), last, rview(y), w))
        require(rview(d) == rview(r), lambda: "%s: after %s the copy is %s, the original %s" % (txt(), last, rview(d), rview(r)))
        for x in d:
            if type(x).__name__ == "Bit":
                w = rview(r)
                x.reset()
                require(rview(r) == w, lambda: "%s: they share a bit" % txt())
            if type(x).__name__ == "Qubit":
                w = rview(r)
                x.label = "changed"
                require(rview(r) == w, lambda: "%s: they share a qubit" % txt())
        cov.step()
    cov.state("register", repr(want))
    cov.outcome("register")
