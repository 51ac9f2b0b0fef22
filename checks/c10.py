"""C10: applying a circuit inside another splices in its operations faithfully."""
import itertools

from mc import drive, ref
from mc.core import require

PROPERTY = "C10"
RULE = (
    "every template of one operation (every gate, measurement, barrier, two-control gate, custom operation; "
    "every placement; with bits, conditions) and of the stated length over a reduced alphabet, applied once "
    "and twice under every injective assignment of outer qubits and bits (outer circuits of fresh and of the "
    "template's own qubits in another order; every argument form; bits holding values), two levels deep, "
    "surrounded by other operations; templates on the stated larger numbers of qubits and bits; templates of many operations, applied many times, to many circuits and nested deeply (`many`); every wrong call; operations compared by identity, template unchanged"
)
BOUNDS = {"quick": dict(pair=2, n1=(1, 2, 3), wide=(4, 10, 11, 13), many=(17, 65, 130, 300)), "thorough": dict(pair=3, n1=(1, 2, 3), wide=(4, 5, 6, 9, 10, 11, 12, 13, 17, 101), many=(9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 130, 256, 257, 300, 512, 513, 1001, 1025))}
ASSUMPTIONS = ["when bits are omitted only templates without conditions are claimed",
               "conditions are compared through is_blocked for every bit value"]

_extra = {}


def prepare():
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit
    from dwave.gate.operations.base import ControlledOperation, ParametricControlledOperation, create_operation

    class CCZ(ControlledOperation):
        _num_control = 2
        _num_target = 1
        _target_operation = ops.Z

    class CCRY(ParametricControlledOperation):
        _num_control = 2
        _num_target = 1
        _num_params = 1
        _target_operation = ops.RY

    class ZCC(ControlledOperation):
        _num_control = 1
        _num_target = 2
        _target_operation = ops.SWAP

    c = Circuit(1)
    with c.context as (q, _):
        ops.Hadamard(q[0])
        ops.S(q[0])
    _extra.update(CCZ=CCZ, CCRY=CCRY, ZCC=ZCC, HS=create_operation(c, "HS"), Barrier=ops.Barrier)


EXTRA = {"CCZ": (3, [], 2), "CCRY": (3, [0.6], 2), "ZCC": (3, [], 1), "HS": (1, [], 0)}


def singles(n):
    """One operation templates."""
    out = ref.alphabet(n)
    for name, (k, params, ctl) in EXTRA.items():
        if k <= n:
            for qs in itertools.permutations(range(n), k):
                out.append([name, params, list(qs), None, None])
    for k in range(1, n + 1):
        for qs in itertools.permutations(range(n), k):
            out.append(["Barrier", [], list(qs), None, None])
            out.append(["Measurement", [], list(qs), None, None])
            for bs in itertools.permutations(range(n), k):
                out.append(["Measurement", [], list(qs), list(bs), None])
    conds = [list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
    for c in conds:
        out.append(["X", [], [n - 1], None, c])
        out.append(["RX", [0.0], [0], None, c])
        out.append(["Measurement", [], [0], [n - 1], c])
        if n > 1:
            out.append(["CZ", [], [1, 0], None, c])
            out.append(["CRX", [-0.5], [n - 1, 0], None, c])
        if n > 2:
            out.append(["CSWAP", [], [2, 0, 1], None, c])
            out.append(["CCRY", [0.3], [1, 2, 0], None, c])
    return out


def reduced(n):
    out = [["X", [], [0], None, None], ["Rotation", [0.0, 1.0, -2.0], [n - 1], None, None],
           ["Measurement", [], list(range(n))[::-1], list(range(n)), None],
           ["Measurement", [], [0], [n - 1], None], ["Measurement", [], [0], None, None],
           ["Y", [], [0], None, [0]], ["RZ", [0.0], [n - 1], None, list(range(n))]]
    if n > 1:
        out += [["CX", [], [0, 1], None, None], ["CX", [], [1, 0], None, None], ["SWAP", [], [0, 1], None, None],
                ["CRotation", [0.1, 0.0, 0.3], [1, 0], None, [1]]]
    return out


def generate(b):
    for n in b["n1"]:
        for i in range(len(singles(n))):
            yield ["single", n, i]
    for n in (1, 2):
        N = len(reduced(n))
        for idx in itertools.product(range(N), repeat=b["pair"]):
            yield ["seq", n, list(idx)]
    for n in (1, 2):
        N = len(reduced(n))
        for i in range(N):
            for j in range(N):
                yield ["nest", n, [i, j]]
    for n in (1, 2, 3):
        yield ["wrong", n]
    for n in b["wide"]:
        for k in range(n + 3 if n < 20 else 8):
            yield ["wide", n, k]
    for n in b["many"]:
        for how in ("times", "long", "circuits", "deep"):
            yield ["many", n, how]


def mk(op, Q, C):
    """make_op extended by the additional operation kinds."""
    name, params, qs, bits, conds = op
    if name in _extra:
        cls = _extra[name]
        quds = [Q[i] for i in qs]
        o = cls(params, qubits=quds) if params else cls(qubits=quds)
        if conds:
            o.conditional([C[b] for b in conds])
        return o
    return drive.make_op(op, Q, C)


def view_of(op, qmap, bmap, nobits=False):
    name, params, qs, bits, conds = op
    qs = tuple(qmap[q] for q in qs)
    ctl = tgt = None
    k = 1 if name in ref.CONTROLLED else EXTRA.get(name, (0, 0, 0))[2]
    if k:
        ctl, tgt = qs[:k], qs[k:]
    b = tuple(bmap[x] for x in bits) if bits is not None and not nobits else None
    c = tuple(sorted({bmap[x] for x in conds})) if conds else ()
    return (name, tuple(params), qs, ctl, tgt, b, c)


def template(n, ops, layout=None, bitvals=None):
    circ = drive.new_circuit(layout or [n], [n])
    with circ.context:
        Q, C = list(circ.qubits), list(circ.bits)
        for op in ops:
            mk(op, Q, C)
    return circ


def set_bits(circ, vals):
    for b, v in zip(circ.bits, vals):
        b.reset()
        if v is not None:
            b.set(v)


def outers(n, tmpl):
    """Outer circuits: fresh qubits (one more than needed, two registers), or the template's own
    qubits and bits in reverse order followed by a fresh one."""
    from dwave.gate.circuit import Circuit

    yield drive.new_circuit([1, n], [n, 1])
    c = Circuit()
    for q in list(tmpl.qubits)[::-1]:
        c.add_qubit(q)
    for b in list(tmpl.bits)[::-1]:
        c.add_bit(b)
    c.add_qubit()
    c.add_bit()
    yield c


def forms(xs, single, k):
    """Argument forms."""
    out = [list(xs), tuple(xs)]
    if single and len(xs) == 1:
        out.append(xs[0])
    return out[k % len(out)]


def check_apply(n, ops, tmpl, outer, qa, ba, k, cov, txt, twice=False):
    Q, C = list(outer.qubits), list(outer.bits)
    bits = None if ba is None else [C[i] for i in ba]
    tsnap = drive.snapshot(tmpl, conds=False)
    tids = [id(o) for o in tmpl.circuit]
    tconds = [drive.conditions(o, list(tmpl.bits)) for o in tmpl.circuit]
    tvals = drive.bitvals(tmpl)
    ovals = drive.bitvals(outer)
    pre = ["Hadamard", [], [len(Q) - 1], None, None]
    with outer.context:
        mk(pre, Q, C)
        tmpl(forms([Q[i] for i in qa], True, k), *([] if bits is None else [forms(bits, True, k // 2)]))
        if twice:
            tmpl([Q[i] for i in qa][::-1], *([] if bits is None else [bits[::-1]]))
        mk(pre, Q, C)
    exp = [view_of(pre, {i: i for i in range(len(Q))}, {})]
    exp += [view_of(o, dict(enumerate(qa)), dict(enumerate(ba or [])), ba is None) for o in ops]
    if twice:
        exp += [view_of(o, dict(enumerate(qa[::-1])), dict(enumerate((ba or [])[::-1])), ba is None) for o in ops]
    exp.append(exp[0])
    got = drive.snapshot(outer)
    require(list(got) == exp, lambda: "%s: recorded %s instead of %s" % (txt(), list(got), exp))
    require(drive.snapshot(tmpl, conds=False) == tsnap and [id(o) for o in tmpl.circuit] == tids
            and [drive.conditions(o, list(tmpl.bits)) for o in tmpl.circuit] == tconds,
            lambda: "%s: the applied circuit changed" % txt())
    require(drive.bitvals(tmpl) == tvals and drive.bitvals(outer) == ovals, lambda: "%s: bits changed" % txt())
    require(not set(map(id, outer.circuit)) & set(tids), lambda: "%s: operations are shared" % txt())
    cov.step(len(exp))
    cov.traces += 1


def sweep(n, ops, cov, txt, full=True, twice=False):
    hasm = any(o[0] == "Measurement" for o in ops)
    hasc = any(o[4] for o in ops)
    k = 0
    for which in range(2):
        for layout in ([n],) if n == 1 or not full else ([n], [1, n - 1]):
            tmpl = template(n, ops, layout)
            for qa in itertools.permutations(range(n + 1), n):
                bas = [tuple(range(n))]
                if hasm or hasc:
                    bas = list(itertools.permutations(range(n + 1), n))
                    if n == 3:
                        bas = bas[k % 5:: 5]
                for ba in bas + ([] if hasc else [None]):
                    k += 1
                    vals = [None, 0, 1][k % 3], [0, None, 1][k % 3], [1, 0, None][k % 3]
                    outer = list(outers(n, tmpl))[which]
                    if which == 0:
                        set_bits(outer, [[None] * 4, [0] * 4, [1, 0, 1, 0]][k % 3])
                    set_bits(tmpl, vals[:n])
                    check_apply(n, ops, tmpl, outer, list(qa), None if ba is None else list(ba), k, cov,
                                lambda: "%s on qubits %s bits %s (outer %d, layout %s)" % (txt(), qa, ba, which, layout),
                                twice)
                    cov.state(n, repr(ops), which, qa, ba)
            if hasc:
                # without bits: what becomes of the conditions is left open, not so the operations
                outer = list(outers(n, tmpl))[which]
                Q = list(outer.qubits)
                with outer.context:
                    mk(["X", [], [0], None, None], Q, [])
                    try:
                        tmpl(Q[:n][::-1])
                        accepted = True
                    except Exception:
                        accepted = False
                got = [x[:5] for x in drive.snapshot(outer, conds=False)]
                want = [view_of(["X", [], [0], None, None], {0: 0}, {})[:5]]
                if accepted:
                    want += [view_of(o, {i: n - 1 - i for i in range(n)}, {}, True)[:5] for o in [o[:4] + [None] for o in ops]]
                require(got == want, lambda: "%s without bits %s: recorded %s instead of %s" % (
                    txt(), "accepted" if accepted else "refused", got, want))
                cov.step()


def run_case(case, cov):
    kind = case[0]
    if kind == "single":
        _, n, i = case
        ops = [singles(n)[i]]
        sweep(n, ops, cov, lambda: "template %s" % ops)
    elif kind == "seq":
        _, n, idx = case
        ops = [reduced(n)[i] for i in idx]
        sweep(n, ops, cov, lambda: "template %s" % ops, full=False, twice=len(idx) == 2)
    elif kind == "nest":
        _, n, (i, j) = case
        a, b = reduced(n)[i], reduced(n)[j]
        for qa in itertools.permutations(range(n)):
            for qb in itertools.permutations(range(n + 1), n):
                inner = template(n, [a])
                mid = drive.new_circuit([n], [n])
                with mid.context:
                    inner(list(mid.qubits[i] for i in qa), [mid.bits[i] for i in qa])
                    mk(b, list(mid.qubits), list(mid.bits))
                ops = [[a[0], a[1], [qa[q] for q in a[2]], None if a[3] is None else [qa[x] for x in a[3]],
                        None if not a[4] else [qa[x] for x in a[4]]], b]
                outer = drive.new_circuit([n + 1], [n + 1])
                check_apply(n, ops, mid, outer, list(qb), list(qb)[::-1], 0, cov,
                            lambda: "nested %s in %s on %s, %s" % (a, b, qa, qb))
                cov.state("nest", n, i, j, qa, qb)
    elif kind == "wide":
        wide(case[1], case[2], cov)
    elif kind == "many":
        many(case[1], case[2], cov)
    elif kind == "wrong":
        wrong(case[1], cov)
    cov.outcome(kind)


def wide(n, k, cov):
    """Templates with many qubits, bits and operations; rotated and reversed assignments."""
    p = [(i * (k + 1) + k) % n for i in range(n)]
    ops = []
    for i in range(n):
        j = (i + 1 + k) % n
        ops.append(["RX", [0.1 * i], [p[i]], None, None])
        if i != j:
            ops.append([("CX", "SWAP", "CZ")[i % 3], [], [i, j], None, [p[i], i] if i % 4 == 1 else None])
        ops.append(["Measurement", [], [i], [p[i]], [j] if i % 5 == 2 else None])
    perm = list(range(n))[k % n:] + list(range(n))[: k % n]
    ops += [["Measurement", [], perm, perm[::-1], None], ["Barrier", [], perm[::-1], None, None], ["X", [], [n - 1], None, perm],
            ["CSWAP", [], [n - 1, 0, 2], None, None], ["CCX", [], [1, n - 1, 0], None, [n - 1]]]
    lay = [[n], [1] * n, [2, n - 2], [n - 1, 0, 1]]
    tmpl = drive.new_circuit(lay[k % 4], lay[(k + 1) % 4])
    with tmpl.context:
        for o in ops:
            mk(o, list(tmpl.qubits), list(tmpl.bits))
    for which in range(2):
        outer = list(outers(n, tmpl))[which]
        r = [(i + k) % (n + 1) for i in range(n)]
        s = r[::-1] if k % 2 else [(n + 1 - i) % (n + 1) for i in r]
        check_apply(n, ops, tmpl, outer, r, s, k, cov,
                    lambda: "template on %d qubits (%d) on qubits %s bits %s (outer %d)" % (n, k, r, s, which), twice=k % 2 == 0)
        # many applications in a row
        outer = drive.new_circuit([n], [n])
        small = template(1, [["X", [], [0], None, None], ["Measurement", [], [0], [0], None]])
        with outer.context:
            for i in range(n):
                small(outer.qubits[p[i] if len(set(p)) == n else i], outer.bits[perm[i]])
        want = []
        for i in range(n):
            qq = p[i] if len(set(p)) == n else i
            want += [view_of(["X", [], [0], None, None], [qq], [perm[i]]), view_of(["Measurement", [], [0], [0], None], [qq], [perm[i]])]
        got = list(drive.snapshot(outer))
        require(got == want, lambda: "%d applications: recorded %s instead of %s" % (n, got, want))
    cov.state("wide", n, k)


def many(n, how, cov):
    perms = list(itertools.permutations(range(3), 2))
    base = [["RX", [0.25], [0], None, None], ["CX", [], [1, 0], None, [1]], ["Measurement", [], [1], [0], None],
            ["CCRY", [0.3], [0, 1, 2], None, [0]], ["SWAP", [], [0, 1], None, None]]
    two = [o for o in base if len(o[2]) < 3]
    same_ = lambda outer, want, txt: require(  # noqa: E731
        list(drive.snapshot(outer)) == want, lambda: "%s: recorded %d operations, of which %s differ from the %d expected" % (
            txt, len(outer.circuit), [i for i, (x, y) in enumerate(zip(drive.snapshot(outer), want)) if x != y][:5], len(want)))
    if how == "times":
        tmpl = template(2, two)
        before = drive.snapshot(tmpl)
        outer = drive.new_circuit([3], [3])
        want = []
        with outer.context:
            for i in range(n):
                qa, ba = perms[i % 6], perms[(5 * i + 1) % 6]
                tmpl([outer.qubits[j] for j in qa], [outer.bits[j] for j in ba])
                want += [view_of(o, qa, ba) for o in two]
        same_(outer, want, "%d applications" % n)
        require(drive.snapshot(tmpl) == before, "the applied circuit changed")
        require(len(set(map(id, outer.circuit))) == len(want), "operations are shared")
    elif how == "long":
        ops = []
        for i in range(n):
            o = base[i % len(base)]
            ops.append([o[0], [x + i for x in o[1]], [(q + i) % 3 for q in o[2]], None if o[3] is None else [i % 3],
                        None if o[4] is None else [(i + 1) % 3]])
        tmpl = template(3, ops)
        for k, qa in enumerate(itertools.permutations(range(3))):
            outer = list(outers(3, tmpl))[k % 2]
            check_apply(3, ops, tmpl, outer, list(qa), list(qa)[::-1], k, cov, lambda: "template of %d operations on %s" % (n, qa), twice=k > 2)
    elif how == "circuits":
        tmpl = template(2, two)
        kept = []
        for i in range(n):
            outer = drive.new_circuit([3], [3])
            qa, ba = perms[i % 6], perms[(5 * i + 1) % 6]
            with outer.context:
                tmpl([outer.qubits[j] for j in qa], [outer.bits[j] for j in ba])
            kept.append((outer, [view_of(o, qa, ba) for o in two]))
        for i, (outer, want) in enumerate(kept):
            same_(outer, want, "circuit %d of %d" % (i, n))
        ids = [id(o) for c, _ in kept for o in c.circuit]
        require(len(set(ids)) == len(ids), "operations are shared between circuits")
    else:  # nested deeply; a level appends one operation and exchanges the qubits
        d = min(n, 130)
        circ, want = template(2, two[:2]), two[:2]
        flip = lambda o: [o[0], o[1], [1 - q for q in o[2]], None if o[3] is None else [1 - x for x in o[3]],  # noqa: E731
                          None if not o[4] else [1 - x for x in o[4]]]
        for i in range(d):
            outer = drive.new_circuit([2], [2])
            last = ["RX", [0.5 + i], [i % 2], None, None]
            with outer.context:
                circ(list(outer.qubits)[::-1], list(outer.bits)[::-1])
                mk(last, list(outer.qubits), list(outer.bits))
            circ, want = outer, [flip(o) for o in want] + [last]
        same_(circ, [view_of(o, [0, 1], [0, 1]) for o in want], "%d levels" % d)
    cov.state("many", n, how)
    cov.step(n)
    cov.traces += 1


def wrong(n, cov):
    from dwave.gate.circuit import CircuitContext

    ops = [["X", [], [n - 1], None, None], ["Measurement", [], [0], [n - 1], None], ["Y", [], [0], None, [0]]]
    tmpl = template(n, ops)
    tmpl0 = template(n, ops[:1])
    for t in (tmpl, tmpl0):
        for nq in range(0, n + 3):
            for nb in [None] + list(range(0, n + 3)):
                outer = drive.new_circuit([n + 2], [n + 2])
                good = nq == n and (nb is None or nb == n or nb == 0)
                if nq == 0 or (good and nb in (None, 0)):
                    continue
                Q, C = list(outer.qubits)[:nq], list(outer.bits)
                with outer.context:
                    try:
                        t(Q, *([] if nb is None else [C[:nb]]))
                        ok = True
                    except Exception:
                        ok = False
                    n_ops = len(outer.circuit)
                if nb == 0:
                    continue
                require(ok == good, lambda: "a circuit of %d qubits and bits applied to %d qubits, %s bits is %s" % (
                    n, nq, nb, "accepted" if ok else "refused"))
                if not good:
                    require(n_ops == 0, lambda: "refused application to %d qubits, %s bits appended %d operations" % (
                        nq, nb, n_ops))
                    cov.outcome("refused")
                cov.step()
        # lists with repetitions count with them
        for k in range(1, n + 3):
            outer = drive.new_circuit([n + 2], [n + 2])
            Q, C = list(outer.qubits), list(outer.bits)
            for word in itertools.product(range(min(n, 2)), repeat=k):
                if len(set(word)) == k:
                    continue
                for qs, bs, good in (([Q[i] for i in word], None, None), ([Q[i] for i in word], C[:n], None),
                                     (Q[:n], [C[i] for i in word], k == n)):
                    if good is None and k == n:
                        continue  # one operation might get the same qubit twice
                    outer.reset()
                    with outer.context:
                        try:
                            t(qs, *([] if bs is None else [bs]))
                            ok = True
                        except (ValueError, TypeError):
                            ok = False
                    require(ok is bool(good), lambda: "a circuit of %d qubits and bits applied with positions %s is %s" % (
                        n, word, "accepted" if ok else "refused"))
                    require(ok or len(outer.circuit) == 0, lambda: "refused application appended operations")
                    if ok:
                        got = [(type(o).__name__, o.qubits, getattr(o, "bits", None), o._cond and tuple(o._cond)) for o in outer.circuit]
                        exp = [(o[0], tuple(qs[i] for i in o[2]), o[3] and tuple(bs[i] for i in o[3]), o[4] and tuple(bs[i] for i in o[4]))
                               for o in ([ops[0]] if t is tmpl0 else ops)]
                        require(got == exp, lambda: "applied with bits %s: %s instead of %s" % (word, got, exp))
                    cov.step()
        # a single qubit / bit
        if n > 1:
            outer = drive.new_circuit([n + 2], [n + 2])
            with outer.context:
                for args in ((outer.qubits[0], list(outer.bits)[:n]), (list(outer.qubits)[:n], outer.bits[0])):
                    try:
                        t(*args)
                        require(False, "a single qubit or bit is accepted for %d" % n)
                    except (ValueError, TypeError):
                        pass
                require(len(outer.circuit) == 0, "refused application appended operations")
    # outside of any context
    before = drive.snapshot(tmpl)
    try:
        tmpl(list(tmpl.qubits), list(tmpl.bits))
        require(False, "a circuit is applied outside of a context")
    except Exception as e:
        require(type(e).__name__ == "CircuitError", lambda: "applied outside of a context: %r" % e)
    # in its own context
    tmpl.unlock()
    with tmpl.context:
        try:
            tmpl(list(tmpl.qubits), list(tmpl.bits))
            require(False, "a circuit is applied to itself")
        except TypeError:
            pass
    require(drive.snapshot(tmpl) == before and CircuitContext.active_context is None, "refused application changed the circuit")
    # qubits the outer circuit does not have
    outer = drive.new_circuit([n])
    foreign = drive.new_circuit([n])
    with outer.context:
        try:
            tmpl0(list(foreign.qubits))
            require(False, "qubits of another circuit are accepted")
        except ValueError:
            pass
    require(len(outer.circuit) == 0, "refused application appended operations")


EXPECT_OUTCOMES = ("single", "seq", "nest", "wide", "many", "wrong", "refused")
