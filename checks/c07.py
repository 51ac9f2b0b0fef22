"""C07: circuit qubit and bit bookkeeping is consistent."""
import itertools

from mc.core import require

PROPERTY = "C07"
RULE = (
    "every sequence of the stated length, and every short word repeated the stated number of times, over additions of registers (default / explicit / falsy / "
    "default-looking labels, sizes 0..2), of fresh and given elements (default, existing, new, falsy "
    "register; labels of different types; bits unset, 0 and 1; duplicates; wrong types) and resets, for qubits and for bits, over four "
    "constructors, reading everything after each step (to depth `eager`), touching the cached views after each step, or reading only at the end; and circuits of each stated size (`sizes`) built in eight ways, extended and reset; compared with lists of identities"
)
BOUNDS = {"quick": dict(depth=4, eager=3, loop=((2, 12), (3, 4)), inits=(0, 2), sizes=(9, 10, 11, 17, 33, 65, 101, 130, 260)), "thorough": dict(depth=5, eager=4, loop=((2, 14), (3, 7)), inits=(0, 1, 2, 3), sizes=(9, 10, 11, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 260, 512, 513, 1001, 1025))}
ASSUMPTIONS = ["additions go through the circuit's methods"]

ACTS = ["reg", "reg2", "reg_a", "reg_0", "reg_next", "new", "new_a", "new_0", "e0", "e1", "e1_a", "e2_b",
        "badtype", "badnum", "reset", "wipe"]
INITS = [None, 0, 2, 1]


def generate(b):
    for kind in ("q", "c"):
        for n in b["sizes"]:
            for how in BIG:
                yield ["big", kind, how, n]
    for kind in ("q", "c"):
        for init in b["inits"]:
            for d in range(1, b["depth"] + 1):
                for first in itertools.product(ACTS, repeat=max(d - 2, 0)):
                    yield [kind, init, d, list(first), [0, 1, 2] if d <= b["eager"] else [0, 1]]
            for k, times in b["loop"]:
                for word in itertools.product(ACTS, repeat=k):
                    yield [kind, init, 0, list(word) * times, [0, 1]]


BIG = ("constructor", "register", "registers", "triangle", "new", "given", "named", "mixed")


def big(kind, how, n, cov):
    """Circuits of many qubits or bits."""
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Bit, Qubit

    Elem = Qubit if kind == "q" else Bit
    circ = Circuit() if how != "constructor" else Circuit(n) if kind == "q" else Circuit(None, n)
    q = kind == "q"
    add, addreg = (circ.add_qubit, circ.add_qregister) if q else (circ.add_bit, circ.add_cregister)
    key, prefix = ("qreg_label", "qreg") if q else ("creg_label", "creg")
    sizes, labels = [n], [prefix + "0"]
    given = {}
    if how == "register":
        addreg(n)
    elif how == "registers":
        for _ in range(n):
            addreg(1)
        sizes, labels = [1] * n, [prefix + str(i) for i in range(n)]
    elif how == "triangle":
        sizes, k = [], 0
        while sum(sizes) < n:
            sizes.append(min(k, n - sum(sizes)))
            addreg(sizes[-1], "t%d" % k)
            k += 1
        labels = ["t%d" % i for i in range(k)]
    elif how == "new":
        for _ in range(n):
            add()
    elif how == "given":
        for i in range(n):
            given[i] = Elem("g%d" % (i % 7))
            add(given[i])
    elif how == "named":
        for i in range(n):
            add(**{key: "r%d" % (i % 3)})
        sizes, labels = [len(range(j, n, 3)) for j in range(3)], ["r0", "r1", "r2"]
    elif how == "mixed":
        addreg(n // 2)
        addreg(n - n // 2 - 1, "x")
        add(**{key: "y"})
        sizes, labels = [n // 2, n - n // 2 - 1, 1], [prefix + "0", "x", "y"]
    txt = lambda: "%d %s (%s)" % (n, "qubits" if q else "bits", how)  # noqa: E731

    def look(sizes, labels, txt):
        total = sum(sizes)
        all_, num, regs = (circ.qubits, circ.num_qubits, circ.qregisters) if q else (circ.bits, circ.num_bits, circ.cregisters)
        find, get = (circ.find_qubit, circ.get_qubit) if q else (circ.find_bit, circ.get_bit)
        require(num == len(all_) == len(list(all_)) == total, lambda: "%s: count %s, %d elements" % (txt(), num, len(list(all_))))
        require(list(regs) == labels and [len(r) for r in regs.values()] == sizes,
                lambda: "%s: registers %s of sizes %s instead of %s, %s" % (txt(), list(regs), [len(r) for r in regs.values()], labels, sizes))
        flat = [(i, l, j, e) for i, (l, r) in enumerate(regs.items()) for j, e in enumerate(r)]
        require(len({id(e) for *_, e in flat}) == total and all(type(e) is Elem for *_, e in flat), lambda: "%s: elements %s" % (txt(), flat))
        for pos, (i, l, j, e) in enumerate(flat):
            require(all_[pos] is e and all_[pos - total] is e and all_.index(e) == pos and e in all_,
                    lambda: "%s: element %d is %s" % (txt(), pos, all_[pos]))
            require(find(e, False) == (i, j) and find(e, True) == (l, j),
                    lambda: "%s: element %d found at %s / %s instead of %s" % (txt(), pos, find(e, False), find(e, True), (i, l, j)))
        by = {}
        for i, l, j, e in flat:
            by.setdefault(e.label, []).append((l, e))
        for label, es in by.items():
            require(get(label) is es[0][1] and same(get(label, return_all=True), [e for _, e in es]),
                    lambda: "%s: lookup of %r gives %s" % (txt(), label, get(label, return_all=True)))
            for l in {l for l, _ in es}:
                want = [e for k, e in es if k == l]
                require(get(label, **{key: l}) is want[0] and same(get(label, return_all=True, **{key: l}), want),
                        lambda: "%s: lookup of %r in %r is wrong" % (txt(), label, l))
        for label in (str(total), str(total + 1), "none", -1):
            if label not in by:
                try:
                    get(label)
                except ValueError:
                    continue
                require(False, lambda: "%s: found an element labelled %r" % (txt(), label))
        cov.step(total)
        return [e for *_, e in flat]

    flat = look(sizes, labels, txt)
    if how in ("constructor", "register"):
        # one register at a time is numbered from zero
        require([e.label for e in flat] == [str(i) for i in range(n)], lambda: "%s: labels %s" % (txt(), [e.label for e in flat]))
    for i, e in given.items():
        require(flat[i] is e and e.label == "g%d" % (i % 7), lambda: "%s: element %d is %s" % (txt(), i, flat[i]))
    for e in (flat[0], flat[n // 2], flat[-1]):
        for more in ({}, {key: "z"}):
            try:
                add(e, **more)
            except ValueError:
                continue
            require(False, lambda: "%s: adding %s again is accepted" % (txt(), e))
    for label in (labels[0], labels[-1], labels[len(labels) // 2]):
        try:
            addreg(1, label)
        except ValueError:
            continue
        require(False, lambda: "%s: another register %r is accepted" % (txt(), label))
    require(same(look(sizes, labels, txt), flat), lambda: "%s: refused additions changed something" % txt())
    if not q:
        for b in flat:
            b.set(1)
    e = Elem("late")
    add(e)
    addreg(2, "late")
    sizes2, labels2 = [sizes[0] + 1, *sizes[1:], 2], labels + ["late"]
    flat2 = look(sizes2, labels2, lambda: txt() + " and three more")
    require(same([x for x in flat2 if x is not e][:n], flat) and flat2[sizes[0]] is e, lambda: "%s: additions moved elements" % txt())
    circ.reset()
    require(same(look(sizes2, labels2, lambda: txt() + ", reset"), flat2), lambda: "%s: reset changed elements" % txt())
    if not q:
        require(all(b.value is None for b in flat2), lambda: "%s: bits keep their values" % txt())
    circ.reset(keep_registers=False)
    look([], [], lambda: txt() + ", wiped")
    add()
    look([1], [prefix + "0"], lambda: txt() + ", wiped and begun anew")
    cov.state("big", kind, how, n)
    cov.traces += 1


class Model:
    def __init__(self):
        self.regs = []  # [label, [elements]]

    def flat(self):
        return [e for _, r in self.regs for e in r]

    def get(self, label):
        for l, r in self.regs:
            if l == label:
                return r
        return None


def run_case(case, cov):
    if case[0] == "big":
        big(*case[1:], cov)
        cov.outcome("big")
        return
    kind, init, d, first, modes = case
    for tail in itertools.product(ACTS, repeat=min(d, 2)):
        for mode in modes:
            history(kind, INITS[init], list(first) + list(tail), mode, cov)
    cov.outcome(kind)


def history(kind, init, hist, mode, cov):
    from dwave.gate.circuit import Circuit
    from dwave.gate.primitives import Bit, Qubit

    Elem, Wrong = (Qubit, Bit) if kind == "q" else (Bit, Qubit)
    if kind == "q":
        circ = Circuit(init)
        add = lambda *a, **k: circ.add_qubit(*a, **k)
        addreg = lambda *a, **k: circ.add_qregister(*a, **k)
        key = "qreg_label"
    else:
        circ = Circuit(None, init)
        add = lambda *a, **k: circ.add_bit(*a, **k)
        addreg = lambda *a, **k: circ.add_cregister(*a, **k)
        key = "creg_label"
    prefix = "qreg" if kind == "q" else "creg"
    # labels need not be text: 0 and "0" are different labels
    zero = ("0", 0)[sum(map(ACTS.index, hist)) % 2]
    given = [Elem(zero), Elem("g"), Elem("g")]
    if kind == "c":
        given[0].set(0)
        given[1].set(1)
    m = Model()
    regs = lambda: circ.qregisters if kind == "q" else circ.cregisters
    if init is not None:
        m.regs.append([prefix + "0", list(list(regs().values())[0])])
        require(len(m.regs[0][1]) == init and [e.label for e in m.regs[0][1]] == [str(i) for i in range(init)],
                "constructor creates wrong elements")
        require(list(regs()) == [prefix + "0"], "constructor uses label %s" % list(regs()))
    if mode == 2:
        check(kind, circ, m, given, lambda: "initially")
    for step, a in enumerate(hist):
        n = len(m.flat())
        fresh = 0  # how many fresh elements end up where
        where = None
        ok = True
        txt = lambda: "%s (%s, initial %s, %s) step %d %s" % (hist, kind, init, ("lazy", "touch", "eager")[mode], step, a)
        default = prefix + str(len(m.regs))
        while m.get(default) is not None:
            default = None
            break
        values = True
        before = [(e, e.value) for e in m.flat() + given] if kind == "c" else []
        try:
            if a in ("reg", "reg2", "reg_a", "reg_0", "reg_next"):
                label = {"reg_a": "a", "reg_0": 0, "reg_next": prefix + str(len(m.regs) + 1)}.get(a)
                size = {"reg": 0, "reg2": 2}.get(a, 1)
                refuse = label is not None and m.get(label) is not None
                if not refuse:
                    where = label if label is not None else "?"
                    fresh = size
                    m.regs.append([where, []])
                if label is None:
                    addreg(size)
                else:
                    addreg(size, label)
                ok = not refuse
                require(ok, lambda: txt() + ": accepted")
            elif a in ("new", "new_a", "new_0", "e0", "e1", "e1_a", "e2_b"):
                e = {"0": given[0], "1": given[1], "2": given[2]}[a[1]] if a[0] == "e" else None
                label = {"new_a": "a", "new_0": 0, "e1_a": "a", "e2_b": "b"}.get(a)
                refuse = e is not None and any(e is x for x in m.flat())
                if not refuse:
                    if label is not None:
                        if m.get(label) is None:
                            m.regs.append([label, []])
                        where = label
                    else:
                        if not m.regs:
                            m.regs.append(["?", []])
                        where = m.regs[0][0]
                    if e is None:
                        fresh = 1
                    else:
                        m.get(where).append(e)
                args = () if e is None else (e,)
                kw = {} if label is None else {key: label}
                add(*args, **kw)
                require(not refuse, lambda: txt() + ": accepted")
            elif a == "badtype":
                refuse = True
                add("text" if step % 2 else Wrong("w"))
                require(False, lambda: txt() + ": accepted")
            elif a == "badnum":
                refuse = True
                add(Wrong("w"), **{key: "new"})
                require(False, lambda: txt() + ": accepted")
            elif a == "reset":
                circ.reset()
                refuse = False
                values = None
            elif a == "wipe":
                circ.reset(keep_registers=False)
                m.regs.clear()
                refuse = False
                values = None
        except (ValueError, TypeError) as err:
            require(refuse, lambda: "%s: refused with %r" % (txt(), err))
            cov.outcome("refused")
        # adopt fresh elements and default labels, whose identity only the implementation knows
        got = regs()
        labels = list(got)
        require(len(labels) == len(m.regs), lambda: "%s: registers %s, expected %s" % (
            txt(), labels, [l for l, _ in m.regs]))
        for (i, (l, r)), gl in zip(enumerate(m.regs), labels):
            if l == "?":
                require(isinstance(gl, str) and gl.startswith(prefix) and gl not in labels[:i],
                        lambda: "%s: default label %r" % (txt(), gl))
                require(default is None or gl == default, lambda: "%s: default label %r instead of %r" % (
                    txt(), gl, default))
                m.regs[i][0] = gl
                if where == "?":
                    where = gl
        if fresh:
            r = m.get(where)
            new = list(got[where])[len(r):]
            require(len(new) == fresh and all(type(x) is Elem for x in new) and
                    [x.label for x in new] == [str(n + i) for i in range(fresh)],
                    lambda: "%s: fresh elements %s, expected %d labelled from %d" % (txt(), new, fresh, n))
            require(not any(x is y for x in new for y in m.flat() + given), lambda: txt() + ": not fresh")
            if kind == "c":
                require(all(x.value is None for x in new), lambda: txt() + ": fresh bits hold values")
            r.extend(new)
        if kind == "c" and values is not None:
            require(all(x.value == v for x, v in before), lambda: txt() + ": values of bits changed")
        if a == "reset" and kind == "c":
            require(all(b.value is None for b in m.flat()), lambda: txt() + ": bits keep their values")
        cov.step()
        if mode == 1:
            circ.qubits, circ.bits  # fills whatever is cached
        if mode == 2 or step == len(hist) - 1:
            check(kind, circ, m, given, txt)
            cov.state(kind, mode, tuple((str(l), tuple(e.label for e in r)) for l, r in m.regs))
    # given elements keep label and identity
    require([e.label for e in given] == [zero, "g", "g"] and type(given[0].label) is type(zero), "labels of given elements changed")
    cov.traces += 1


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check(kind, circ, m, given, txt):
    if kind == "q":
        all_, num, regs = circ.qubits, circ.num_qubits, circ.qregisters
        find = lambda e, l: circ.find_qubit(e, l)
        get = lambda *a, **k: circ.get_qubit(*a, **k)
        othern, other = circ.num_bits, circ.bits
    else:
        all_, num, regs = circ.bits, circ.num_bits, circ.cregisters
        find = lambda e, l: circ.find_bit(e, l)
        get = lambda *a, **k: circ.get_bit(*a, **k)
        othern, other = circ.num_qubits, circ.qubits
    flat = m.flat()
    require(same(all_, flat), lambda: "%s: elements %s, expected %s" % (txt(), list(all_), flat))
    require(num == len(flat) == len(all_), lambda: "%s: count %s, expected %d" % (txt(), num, len(flat)))
    require(list(regs) == [l for l, _ in m.regs] and all(same(regs[l], r) for l, r in m.regs),
            lambda: "%s: registers %s, expected %s" % (txt(), dict(regs), m.regs))
    require(othern == 0 and len(other) == 0, lambda: txt() + ": the other kind has elements")
    for i, (l, r) in enumerate(m.regs):
        for j, e in enumerate(r):
            require(find(e, False) == (i, j) and find(e, True) == (l, j),
                    lambda: "%s: %r found at %s / %s instead of %s" % (txt(), e, find(e, False), find(e, True), (i, l, j)))
    for pos, e in enumerate(flat):
        require(all_[pos] is e and all_.index(e) == pos and e in all_, lambda: "%s: wrong position of %r" % (txt(), e))
    for e in given:
        if not any(e is x for x in flat):
            require(e not in all_, lambda: "%s: %r is reported as contained" % (txt(), e))
            try:
                find(e, False)
            except ValueError:
                pass
            else:
                require(False, lambda: "%s: found an element that is not in the circuit" % txt())
    for label in (0, "0", "1", "2", "9", "10", "11", str(len(flat) - 1), "g", "none"):
        for reg in [None] + [l for l, _ in m.regs]:
            want = [e for e in (flat if reg is None else m.get(reg)) if e.label == label]
            kw = {} if reg is None else {("qreg_label" if kind == "q" else "creg_label"): reg}
            for ra in (False, True):
                try:
                    got = get(label, return_all=ra, **kw)
                except ValueError:
                    require(not want, lambda: "%s: label %r not found in %r" % (txt(), label, reg))
                else:
                    require(want and (same(got, want) if ra else got is want[0]),
                            lambda: "%s: lookup of %r in %r gave %r instead of %r" % (txt(), label, reg, got, want))


EXPECT_OUTCOMES = ("big", "q", "c", "refused")
