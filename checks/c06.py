"""C06: circuit contexts record operations exactly once, in order, and always close."""
import itertools

from mc import drive
from mc.core import require

PROPERTY = "C06"
RULE = (
    "every sequence of the stated length, and every short word repeated the stated number of times (core_depth: over entering, leaving, freezing and operations only) over {enter, leave, leave by exception, freeze, unfreeze (also by exception), valid and "
    "three kinds of invalid operations, operation objects appended / extended from outside, lock, unlock, "
    "reset with and without its registers} on two circuits (one parametric); after every step operations, open context, frozen and lock "
    "state of both circuits compared with an explicit state machine; and every word of one or two actions "
    "repeated the number of times given last in `long`, in an open context or not; frozen sections nested as "
    "deeply as stated in `deep`; operations on as many qubits as stated (`foreign`) with one qubit at every position not of the circuit"
)
BOUNDS = {"quick": dict(foreign=(1, 2, 3, 4, 5, 9, 10, 11, 17), depth=4, core_depth=6, loop=3, times=5, long=(1, 2, 130), deep=(17, 65, 130)), "thorough": dict(foreign=(*range(1, 19), 33, 65), depth=5, core_depth=7, loop=4, times=5, long=(1, 2, 520), deep=(9, 17, 33, 65, 101, 130, 257, 513))}
ASSUMPTIONS = [
    "frozen sections are properly nested, or are left after the context they freeze was left, and then have no effect",
    "resetting a circuit while its own context is open is outside the claim",
]

ACTS = ["enterA", "enterB", "exit", "raise", "freeze", "unfreeze", "op", "badqubit", "badcount", "noqubit",
        "appendA", "appendB", "lockA", "unlockA", "unlockB", "resetA", "resetB", "wipeA", "wipeB", "bulkA"]
RESETS = ("reset", "wipeA", "wipeB")
CORE = ["enterA", "enterB", "exit", "raise", "freeze", "unfreeze", "op", "badqubit"]


class Model:
    def __init__(self):
        self.active = None
        self.freeze = 0
        self.locked = {"A": False, "B": False}
        self.ops = {"A": [], "B": []}

    def key(self):
        return (self.active, self.freeze, tuple(self.locked.items()),
                tuple(len(v) for v in self.ops.values()))


def applicable(m, a):
    """Outside the explored protocol: improper nesting, reset of an open circuit."""
    if a in ("exit", "raise"):
        return m.active is not None
    if a == "unfreeze":
        return m.freeze > 0
    if a[:5] in RESETS:
        return m.active != a[-1]
    return True


def succeed(m, a):
    """Transition of the state machine; returns whether the action is accepted and what
    operation kinds it records where."""
    if a in ("enterA", "enterB"):
        c = a[-1]
        if m.active is not None or m.locked[c]:
            return False
        m.active = c
        return True
    if a in ("exit", "raise"):
        m.locked[m.active] = True
        m.active = None
        m.freeze = 0  # frozen sections still open end with their context
        return True
    if a == "freeze":
        if m.active is None:
            return False
        m.freeze += 1
        return True
    if a == "unfreeze":
        m.freeze -= 1
        return True
    if a == "op":
        if m.active is None or m.freeze:
            return True
        if m.locked[m.active]:
            return False
        m.ops[m.active].append("op")
        return True
    if a in ("badcount",):
        return False
    if a == "noqubit":
        return m.active is None  # fine outside contexts
    if a == "badqubit":
        return m.active is None or m.freeze > 0  # only refused where it would be recorded
    if a in ("appendA", "appendB", "bulkA"):
        c = a[-1]
        if m.locked[c]:
            return False
        m.ops[c].append("op")
        if a == "bulkA":
            m.ops[c].append("op")
        return True
    if a in ("lockA", "lockB"):
        m.locked[a[-1]] = True
        return True
    if a in ("unlockA", "unlockB"):
        m.locked[a[-1]] = False
        return True
    if a[:5] in RESETS:
        m.ops[a[-1]] = []
        m.locked[a[-1]] = False
        return True
    raise AssertionError(a)


def generate(b):
    for d in range(1, b["depth"] + 1):
        for first in itertools.product(ACTS, repeat=max(d - 2, 0)):
            if valid(first):
                yield ["full", d, list(first)]
    for k in range(1, b["loop"] + 1):
        for word in itertools.product(ACTS, repeat=k):
            if valid(word * 2):
                yield ["loop", b["times"], list(word)]
    for k in b["long"][:-1]:
        for word in itertools.product(ACTS, repeat=k):
            for start in ("", "enterA", "enterB"):
                if valid([start] * bool(start) + list(word) * 2):
                    yield ["long", b["long"][-1], [start, *word]]
    for n in b["foreign"]:
        yield ["foreign", n, []]
    for n in b["deep"]:
        for start in ("enterA", "enterB"):
            yield ["deep", n, [start]]
    for d in range(b["depth"] + 1, b["core_depth"] + 1):
        for first in itertools.product(CORE, repeat=d - 2):
            if valid(first):
                yield ["core", d, list(first)]


def valid(hist):
    m = Model()
    for a in hist:
        if not applicable(m, a):
            return False
        succeed(m, a)
    return True


def run_case(case, cov):
    which, d, first = case
    if which == "long":
        cov.outcome("long")
        for tail in ([], ["op"], ["exit", first[0] or "enterA"], ["unlockA", "enterA", "op"]):
            hist = [first[0]] * bool(first[0]) + first[1:] * d + tail
            if valid(hist):
                history(hist, cov, d)
        return
    if which == "foreign":
        return foreign(d, cov)
    if which == "deep":
        cov.outcome("deep")
        history(first + ["op"] + ["freeze"] * d + ["op"] + ["unfreeze"] * (d - 1) + ["op", "freeze", "op"] +
                ["unfreeze"] * 2 + ["op", "exit"], cov)
        history(first + ["op"] + ["freeze", "op"] * d + ["unfreeze", "op"] * d + ["raise"], cov)
        history(first + ["op"] + ["freeze", "op", "unfreeze", "op"] * d + ["raise"], cov)
        return
    if which == "loop":
        cov.outcome("loop")
        for tail in [[]] + [[a] for a in ACTS]:
            if valid(first * d + tail):
                history(first * d + tail, cov)
        return
    for tail in itertools.product(ACTS if which == "full" else CORE, repeat=min(d, 2)):
        hist = list(first) + list(tail)
        if valid(hist):
            history(hist, cov)
    cov.outcome("depth%d" % d)


def foreign(n, cov):
    """Operations on many qubits, one of them at any position not of the circuit, are refused and not recorded."""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.primitives import Qubit

    for cls in (Circuit, ParametricCircuit):
        circ, other = drive.new_circuit([n], [n], cls), drive.new_circuit([1])
        Q = list(circ.qubits)
        for kind in (ops.Barrier, ops.Measurement):
            for pos in range(n):
                for alien in (other.qubits[0], Qubit(Q[pos].label)):
                    qs = Q[:pos] + [alien] + Q[pos + 1:]
                    loose = kind(qs)
                    good = kind(Q)
                    for way in ("context", "frozen", "append", "extend"):
                        txt = lambda: "%s on %d qubits, the one at %d foreign, %s" % (kind.__name__, n, pos, way)  # noqa: E731
                        circ.reset()
                        before = [good]
                        circ.append(good)
                        ok = True
                        try:
                            if way == "context":
                                with circ.context:
                                    kind(qs)
                            elif way == "frozen":
                                with circ.context as reg:
                                    with circ.context.freeze:
                                        kind(qs)
                            elif way == "append":
                                circ.append(loose)
                            else:
                                before = [good, good]
                                circ.extend([good, loose])
                        except ValueError:
                            ok = False
                        require(ok == (way == "frozen"), lambda: "%s: %s" % (txt(), "accepted" if ok else "refused"))
                        got = list(circ.circuit)
                        require([id(o) for o in got][: len(before)] in ([id(o) for o in before], [id(good)]) and len(got) <= len(before),
                                lambda: "%s: the circuit holds %s" % (txt(), got))
                        cov.step()
                        cov.state("foreign", n, pos, way, kind.__name__)
    cov.outcome("foreign")
    cov.traces += 1


class Boom(Exception):
    pass


def history(hist, cov, every=1):
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
    from dwave.gate.primitives import Qubit

    C = {"A": Circuit(2, 1), "B": ParametricCircuit(2)}
    m = Model()
    recorded = {"A": [], "B": []}
    ctx = None
    freezers, stale = [], []
    k = 0

    def free(kind=0):
        """An operation object recorded nowhere."""
        q = C["A"].qubits
        if CircuitContext.active_context is not None:
            with CircuitContext.freeze:
                return ops.X(q[0])
        return ops.X(q[0])

    for step, a in enumerate(hist):
        before = m.key()
        expect = succeed(m, a)
        ok, made = True, []
        where = None
        try:
            if a in ("enterA", "enterB"):
                c = C[a[-1]].context
                reg = c.__enter__()
                ctx = c
                require(list(reg.q) == list(C[a[-1]].qubits) and list(reg.c) == list(C[a[-1]].bits),
                        "the context's registers are not the circuit's")
            elif a == "exit":
                ctx.__exit__(None, None, None)
            elif a == "raise":
                e = Boom("boom")
                swallowed = ctx.__exit__(Boom, e, None)
                require(not swallowed, "leaving by an exception swallows it")
            elif a == "freeze":
                f = [lambda: CircuitContext.freeze, lambda: C["A"].context.freeze, lambda: C["B"].context.freeze][
                    step % 3]()
                f.__enter__()
                freezers.append(f)
            elif a == "unfreeze":
                f = freezers.pop()
                if (step + len(hist)) % 2:
                    swallowed = f.__exit__(Boom, Boom("boom"), None)
                    require(not swallowed, "leaving a frozen section by an exception swallows it")
                    cov.outcome("unfreeze by exception")
                else:
                    f.__exit__(None, None, None)
            elif a == "op":
                where = m.active or "A"
                q = C[where].qubits
                k += 1
                kind = k % 4
                if kind == 0:
                    o = ops.X(q[0])
                elif kind == 1:
                    o = ops.CX(q[1], q[0])
                elif kind == 2:
                    o = ops.RX(0.5, q[1])
                else:
                    o = ops.Measurement(q)
                made = [o]
            elif a == "badqubit":
                ops.CX(C[m.active or "A"].qubits[0], Qubit("x"))
            elif a == "badcount":
                ops.SWAP([C["A"].qubits[0]])
            elif a == "noqubit":
                ops.X()
            elif a in ("appendA", "appendB"):
                where = a[-1]
                o = ops.X(C[where].qubits[1]) if CircuitContext.active_context is None else None
                if o is None:
                    with CircuitContext.freeze:
                        o = ops.X(C[where].qubits[1])
                C[where].append(o)
                made = [o]
            elif a == "bulkA":
                where = "A"
                o1, o2 = free(), free()
                C["A"].extend([o1, o2])
                made = [o1, o2]
            elif a[:4] == "lock":
                C[a[-1]].lock()
            elif a[:6] == "unlock":
                C[a[-1]].unlock()
            elif a[:5] == "reset":
                C[a[-1]].reset()
                recorded[a[-1]] = []
            elif a[:4] == "wipe":
                C[a[-1]].reset(keep_registers=False)
                require(list(C[a[-1]].qubits) == [] and list(C[a[-1]].bits) == [], "registers remain after a full reset")
                C[a[-1]].add_qregister(2)
                if a == "wipeA":
                    C[a[-1]].add_cregister(1)
                recorded[a[-1]] = []
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            ok = False
            err = e
        require(ok == expect, lambda: "%s: step %d (%s) was %s" % (
            hist, step, a, "accepted" if ok else "refused with %r" % err))
        if ok and made and len(m.ops[where]) > len(recorded[where]):
            recorded[where] += made
        if a in ("exit", "raise"):
            ctx = None
            stale += freezers
            freezers = []
        if step % every and step < len(hist) - 8:  # in long histories only now and then, and at the end
            cov.step()
            continue
        # compare everything observable
        act = CircuitContext.active_context
        require((act is None) == (m.active is None) and (act is None or act.circuit is C[m.active]),
                lambda: "%s: after step %d (%s) the open context is %s instead of %s" % (hist, step, a, act, m.active))
        if act is not None:
            require(act.frozen == (m.freeze > 0),
                    lambda: "%s: after step %d (%s) frozen is %s with %d frozen sections" % (
                        hist, step, a, act.frozen, m.freeze))
        for c in "AB":
            require(C[c].is_locked() == m.locked[c],
                    lambda: "%s: after step %d (%s) circuit %s locked: %s" % (hist, step, a, c, C[c].is_locked()))
            got = list(C[c].circuit)
            require(len(got) == len(recorded[c]) == len(m.ops[c])
                    and all(x is y for x, y in zip(got, recorded[c])),
                    lambda: "%s: after step %d (%s) circuit %s holds %s instead of %s" % (
                        hist, step, a, c, got, recorded[c]))
        cov.state(m.key())
        cov.step()
        cov.outcome(a + (" accepted" if ok else " refused"))
    while freezers:
        freezers.pop().__exit__(None, None, None)
    if ctx is not None:
        ctx.__exit__(None, None, None)
        require(CircuitContext.active_context is None, "a context stays open after leaving it")
    for f in stale[::-1]:
        f.__exit__(None, None, None)
    require(CircuitContext.active_context is None and all(C[c].is_locked() == m.locked[c] or ctx for c in "AB"),
            "leaving frozen sections late changes the circuits")
    cov.traces += 1


EXPECT_OUTCOMES = ("foreign", "long", "deep", "unfreeze by exception", "op accepted", "op refused", "enterA refused", "enterB accepted", "freeze accepted",
                   "freeze refused", "appendA refused", "badqubit refused", "resetB accepted", "raise accepted")
