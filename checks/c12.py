"""C12: gate matrices follow their definitions."""
import itertools
import math

import numpy as np

from mc import ref
from mc.core import require

PROPERTY = "C12"
RULE = (
    "every gate and alias x every parameter tuple of the stated grid x every access (class, instance with and without "
    "qubits, re-application, inside and outside of open contexts holding the gate's qubits in every order, more "
    "qubits, or other qubits only, frozen sections); every history of the stated length of accesses, mutations of "
    "returned arrays, evaluations and simulations over every pair of gates; every custom controlled gate; every "
    "published decomposition; the stated number (`many`) of instances, accesses and evaluations, all read again: matrix compared with the textbook definition"
)
BOUNDS = {
    "quick": dict(eighths=range(-16, 17), rot=range(-8, 9, 2), hist=2, many=(65, 300), large=[*range(-200, 201, 7), 32, -32, 64, 160, -160, 1600, 16016, -16008]),
    "thorough": dict(eighths=range(-64, 65), rot=range(-8, 9), hist=3, many=(17, 33, 65, 101, 130, 260, 300, 520, 1100), large=[*range(-400, 401), 1600, 1608, 16016, -16008, 160000]),
}
ASSUMPTIONS = [
    "parameters are real numbers (any Python or numpy real type)",
    "inside an open context that contains its qubits a controlled gate lists them in the circuit's order "
    "(pinned by the repository's tests)",
]
EXTRA = [0.1, -2.7, 1e-9, 1e6, 3]
ACTIONS = ("class", "instance", "mutate", "mutclass", "context", "eval", "simulate", "unitary")


def generate(b):
    one = [k * math.pi / 8 for k in b["eighths"]] + EXTRA
    for g, (n, p) in ref.GATES.items():
        if p == 0:
            yield ["gate", g, []]
        elif p == 1:
            for x in one:
                yield ["gate", g, [x]]
        else:
            rot = [k * math.pi / 8 for k in b["rot"]] + [0.1, -2.7]
            for x in itertools.product(rot, repeat=3):
                yield ["gate", g, list(x)]
    for a in ref.ALIASES:
        yield ["alias", a]
    for g in ref.GATES:
        yield ["types", g]
        yield ["confuse", g]
        yield ["decomposition", g]
        yield ["context", g]
    for g in ref.GATES:
        for h in ref.GATES:
            for acts in itertools.product(range(len(ACTIONS)), repeat=b["hist"]):
                yield ["history", g, h, list(acts)]
        for n in b["many"]:
            yield ["many", g, n]
    for t in ref.ONE:
        yield ["custom", t]
    # many turns, for every parameter
    for g, (n, p) in ref.GATES.items():
        for k in b["large"] if p else ():
            for i in range(p):
                yield ["gate", g, [k * math.pi / 8 if j == i else 0.3 * j + 0.2 for j in range(p)]]


def cls_of(name):
    import dwave.gate.operations as ops

    return getattr(ops, name)


def make(name, params, qubits=None):
    cls = cls_of(name)
    if params:
        return cls(list(params)) if qubits is None else cls(list(params), qubits=qubits)
    return cls() if qubits is None else cls(qubits=qubits)


def good(M, name, params, what, perm=None):
    M = np.asarray(M)
    E = ref.matrix(name, params)
    n = ref.GATES[name][0]
    if perm is not None:
        E = ref.embed(E, perm, n)
    require(M.shape == E.shape and ref.close(M, E, 1e-8),
            lambda: "%s%s, %s: matrix %s instead of %s" % (name, tuple(params), what, M.tolist(), E.tolist()))
    require(ref.close(M @ M.conj().T, np.eye(len(M)), 1e-8), lambda: "%s%s, %s: not unitary" % (name, params, what))


def run_case(case, cov):
    kind = case[0]
    globals()["do_" + kind](*case[1:], cov)
    cov.outcome(kind)


def do_gate(g, params, cov):
    from dwave.gate.circuit import Circuit

    n, p = ref.GATES[g]
    cls = cls_of(g)
    if p == 0:
        good(cls.matrix, g, params, "on the class")
    else:
        require(cls.matrix is None, lambda: "%s: the class has a matrix" % g)
    good(make(g, params).matrix, g, params, "without qubits")
    circ = Circuit(n)
    Q = list(circ.qubits)
    for qs in itertools.permutations(range(n)):
        op = make(g, params, [Q[i] for i in qs])
        good(op.matrix, g, params, "on qubits %s" % (qs,))
        good(op.matrix, g, params, "on qubits %s, again" % (qs,))
    if p:
        other = make(g, [x + 0.5 for x in params])
        other.matrix
        good(op.matrix, g, params, "after another instance")
        good(other.matrix, g, [x + 0.5 for x in params], "other instance")
        if p == 1:
            good(cls(params[0]).matrix, g, params, "parameter not in a list")
    cov.state(g, tuple(params))
    cov.step()


def do_alias(a, cov):
    g = ref.ALIASES[a]
    A, G = cls_of(a), cls_of(g)
    good(A.matrix, g, [], "alias %s" % a)
    good(A().matrix, g, [], "alias %s" % a)
    from dwave.gate.circuit import Circuit
    from dwave.gate.simulator import simulate

    n = ref.GATES[g][0]
    circ = Circuit(n)
    pre = ref.generic(n)
    from mc import drive

    with circ.context as (q, c):
        for o in pre:
            drive.make_op(o, q, c)
        x = A(qubits=list(q))
    y = G(qubits=list(circ.qubits))
    require(x == y and y == x and x.num_qubits == n and A.num_qubits == n, lambda: "%s differs from %s" % (a, g))
    simulate(circ)
    require(ref.close(circ.state, ref.run(pre + [[g, [], list(range(n))]], n)), lambda: "alias %s: wrong state" % a)
    cov.state("alias", a)
    cov.step()


def do_confuse(g, cov):
    """Instances of one gate with parameters that are easily taken for one another."""
    n, p = ref.GATES[g]
    for i in range(p):
        par = lambda v: [v if j == i else 0.3 + j for j in range(p)]  # noqa: E731
        for x, y in itertools.permutations(ref.CONFUSABLE, 2):
            a = make(g, par(x))
            good(a.matrix, g, par(x), "first of two")
            b = make(g, par(y))
            good(b.matrix, g, par(y), "after %s" % x)
            good(a.matrix, g, par(x), "after %s" % y)
            cov.step(3)
        cov.state("confuse", g, i)


def do_types(g, cov):
    """Every real number type."""
    n, p = ref.GATES[g]
    if p == 0:
        return
    for v in (0, 1, -3):
        for T in (int, float, np.float64, np.float32, np.int64, np.int32, np.int8):
            params = [T(v + i) for i in range(p)]
            for form in (list(params), tuple(params)):
                op = cls_of(g)(form)
                good(op.matrix, g, [float(x) for x in params], "parameters of type %s" % T.__name__)
            cov.state("types", g, v, T.__name__)
            cov.step()
    if p == 1:
        good(cls_of(g)(True).matrix, g, [1.0], "parameter True")


def do_decomposition(g, cov):
    n, p = ref.GATES[g]
    cls = cls_of(g)
    try:
        dec = cls.decomposition
    except NotImplementedError:
        dec = None
    for params in ([ref.DEF[p]] if p == 0 else itertools.product([0.4, -1.1, 2.0, 0.0], repeat=p)):
        inst = make(g, params)
        if dec is None:
            try:
                inst.decomposition
                require(False, lambda: "%s: decomposition of an instance only" % g)
            except NotImplementedError:
                continue
        require(list(inst.decomposition) == list(dec), lambda: "%s: decompositions differ" % g)
        left = list(params)
        U = np.eye(2 ** n, dtype=complex)
        for label in dec:
            m = ref.GATES[ref.ALIASES.get(label, label)]
            require(m[0] == n and len(left) >= m[1], lambda: "%s: cannot interpret decomposition %s" % (g, dec))
            ps, left = left[:m[1]], left[m[1]:]
            U = ref.matrix(ref.ALIASES.get(label, label), ps) @ U
        require(not left and ref.phase_equal(U, ref.matrix(g, params)),
                lambda: "%s%s: decomposition %s multiplies to %s" % (g, params, dec, U.tolist()))
        cov.outcome("decomposed")
    cov.state("decomposition", g)
    cov.step()


def do_context(g, cov):
    """Accesses while a context is open."""
    from dwave.gate.circuit import Circuit, CircuitContext

    n, p = ref.GATES[g]
    ctl = g in ref.CONTROLLED
    params = ref.DEF[p]
    for extra in (0, 1, 2):
        for nqregs in (1, 2):
            for qs in itertools.permutations(range(n + extra), n):
                circ = Circuit()
                if nqregs == 1:
                    circ.add_qregister(n + extra)
                else:
                    circ.add_qregister(1)
                    if n + extra > 1:
                        circ.add_qregister(n + extra - 1)
                elsewhere = Circuit(n + extra)
                Q = list(circ.qubits)
                E = list(elsewhere.qubits)
                before = make(g, params, [Q[i] for i in qs])
                foreign = make(g, params, [E[i] for i in qs])
                bare = make(g, params)
                order = [sorted(qs).index(i) for i in qs] if ctl else None
                # only some of the qubits are held by the circuit
                partly = [make(g, params, [(Q if k in s else E)[i] for k, i in enumerate(qs)])
                          for r in range(1, n) for s in itertools.combinations(range(n), r)]
                what = "open context, qubits %s of %d" % (qs, n + extra)
                with circ.context:
                    op = make(g, params, [Q[i] for i in qs])
                    good(op.matrix, g, params, what, order)
                    good(before.matrix, g, params, what + " (created before)", order)
                    good(foreign.matrix, g, params, "open context of another circuit")
                    good(bare.matrix, g, params, "open context, no qubits")
                    for x in partly:
                        good(x.matrix, g, params, "open context of a circuit which holds only some of the qubits")
                    if p == 0:
                        good(cls_of(g).matrix, g, params, "class, open context")
                    with circ.context.freeze:
                        good(op.matrix, g, params, what + ", frozen", order)
                        good(foreign.matrix, g, params, "frozen context of another circuit")
                    require(not CircuitContext.active_context.frozen, lambda: "%s: %s freezes the context" % (g, what))
                    require([id(x) for x in circ.circuit] == [id(op)], lambda: "%s: the matrix records operations" % g)
                good(op.matrix, g, params, "after the context")
                good(before.matrix, g, params, "after the context")
                good(foreign.matrix, g, params, "after the context")
                if p == 0:
                    good(cls_of(g).matrix, g, params, "class, after the context")
                with elsewhere.context:
                    good(op.matrix, g, params, "recorded elsewhere, open context of another circuit")
                    op2 = op(*([[E[i]] for i in qs] if ctl else [[E[i] for i in qs]]))
                good(op2.matrix, g, params, "re-applied")
                cov.state("context", g, extra, nqregs, qs)
                cov.step(8)


def do_history(g, h, acts, cov):
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.simulator import simulate
    from dwave.gate.tools.unitary import build_unitary

    n, p = ref.GATES[g]
    params = ref.DEF[p]
    circ = Circuit(n)
    Q = list(circ.qubits)
    op = make(g, params, Q)
    bare = make(g, params)
    for a in acts:
        a = ACTIONS[a]
        if a == "class":
            cls_of(g).matrix
        elif a == "instance":
            op.matrix
            bare.matrix
        elif a == "mutate":
            for o in (op, bare):
                m = o.matrix
                if m.flags.writeable:
                    m[:] = 7
        elif a == "mutclass":
            m = cls_of(g).matrix
            if m is not None and m.flags.writeable:
                m *= 0
        elif a == "context":
            circ.unlock()
            with circ.context:
                m = make(g, params, Q[::-1]).matrix
                if m.flags.writeable:
                    m[0] = 3
        elif a == "eval" and p:
            c = ParametricCircuit(n)
            with c.context as r:
                v = cls_of(g)([r.p[i] for i in range(p)], qubits=list(r.q))
            e = v.eval([0.9 + i for i in range(p)])
            good(e.matrix, g, [0.9 + i for i in range(p)], "evaluated")
            e2 = v.eval([0.2 + i for i in range(p)])
            good(e2.matrix, g, [0.2 + i for i in range(p)], "evaluated again")
        elif a == "simulate":
            c = Circuit(n)
            with c.context as (q, _):
                make(g, params, list(q))
            simulate(c)
        elif a == "unitary" and n < 3 and g != "SWAP":
            c = Circuit(n)
            with c.context as (q, _):
                make(g, params, list(q))
            u = build_unitary(c)
            u *= 0
        cov.step()
    m, k = ref.GATES[h]
    good(make(h, ref.DEF[k]).matrix, h, ref.DEF[k], "after %s with %s" % ([ACTIONS[a] for a in acts], g))
    if k == 0:
        good(cls_of(h).matrix, h, [], "class, after %s with %s" % ([ACTIONS[a] for a in acts], g))
    if h == g:
        good(op.matrix, g, params, "after %s" % [ACTIONS[a] for a in acts])
        good(bare.matrix, g, params, "after %s" % [ACTIONS[a] for a in acts])
    cov.state("history", g, h, tuple(acts))


def do_many(g, n, cov):
    """Many instances of one gate, all read again afterwards."""
    from dwave.gate.circuit import Circuit, ParametricCircuit

    w, p = ref.GATES[g]
    circ = Circuit(w)
    Q = list(circ.qubits)
    pars = lambda k: [0.01 * k * (1 + j) + 0.1 * j - 1 for j in range(p)]  # noqa: E731
    insts = []
    for k in range(n):
        op = make(g, pars(k), Q if k % 2 else None)
        good(op.matrix, g, pars(k), "instance %d" % k)
        insts.append(op)
    for k in (*range(n), *range(n)[::-1]):
        good(insts[k].matrix, g, pars(k), "instance %d of %d, again" % (k, n))
    for k in range(n):
        good(insts[-1].matrix, g, pars(n - 1), "access %d" % k)
    if p == 0:
        for k in range(n):
            good(cls_of(g).matrix, g, [], "class, access %d" % k)
    else:
        pc = ParametricCircuit(w)
        with pc.context as r:
            v = cls_of(g)([r.p[i] for i in range(p)], qubits=list(r.q))
        evs = []
        for k in range(n):
            evs.append(v.eval(pars(k)))
            good(evs[k].matrix, g, pars(k), "evaluation %d" % k)
        for k in range(n):
            good(evs[k].matrix, g, pars(k), "evaluation %d of %d, again" % (k, n))
        v.eval(pars(n), inplace=True)
        good(v.matrix, g, pars(n), "evaluation in place")
    cov.state("many", g, n)
    cov.step(n)


def do_custom(t, cov):
    """Controlled versions of every single-qubit gate with one to three controls."""
    from dwave.gate.circuit import Circuit
    from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation

    p = ref.GATES[t][1]
    for k in (1, 2, 3):
        base = ParametricControlledOperation if p else ControlledOperation
        attrs = dict(_num_control=k, _num_target=1, _target_operation=cls_of(t))
        if p:
            attrs["_num_params"] = p
        C = type(base)("C%d%s" % (k, t), (base,), attrs)
        vals = [()] if not p else [ref.DEF[p], tuple(0.0 for _ in range(p)), tuple(-1.5 + i for i in range(p))]
        E = {}
        for v in vals:
            M = np.eye(2 ** (k + 1), dtype=complex)
            M[-2:, -2:] = ref.matrix(t, v)
            E[v] = M
        c = Circuit(k + 2)
        Q = list(c.qubits)
        if not p:
            require(ref.close(C.matrix, E[()]), lambda: "class matrix of %d-controlled %s" % (k, t))
        for v in vals:
            for qs in itertools.permutations(range(k + 2), k + 1):
                quds = [Q[i] for i in qs]
                forms = [C(list(v), qubits=quds), C(list(v), quds[:k], quds[k])] if p else [
                    C(qubits=quds), C(quds[:k], quds[k:])]
                for o in forms:
                    require(ref.close(np.asarray(o.matrix), E[v]),
                            lambda: "%d-controlled %s%s on %s: matrix %s" % (k, t, v, qs, np.asarray(o.matrix).tolist()))
                order = [sorted(qs).index(i) for i in qs]
                with c.context:
                    inside = np.asarray(forms[0].matrix)
                c.unlock()
                other = Circuit(1)
                with other.context:
                    outside = np.asarray(forms[1].matrix)
                require(ref.close(inside, ref.embed(E[v], order, k + 1)) and ref.close(outside, E[v]),
                        lambda: "%d-controlled %s%s on %s in an open context: matrix %s" % (k, t, v, qs, inside.tolist()))
                cov.step(4)
            cov.state("custom", t, k, v)


EXPECT_OUTCOMES = ("gate", "alias", "types", "decomposition", "decomposed", "context", "history", "many", "custom")
