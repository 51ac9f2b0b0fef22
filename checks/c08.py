"""C08: registers are ordered collections of unique items with list semantics."""
import copy
import itertools
import numbers

import numpy as np

from mc.core import require

PROPERTY = "C08"
RULE = (
    "every sequence of the stated length, and every short word repeated the stated number of times, over {add an item, generate a label, add several, add a register, pop, remove, "
    "relabel (new labels, integers, swaps, cycles, one item), relabel as integers, copy, slice, concatenate, "
    "freeze} over items mixing small / negative / large integers, floats, booleans, strings, qubits and bits "
    "holding 0 and 1, for three register classes; after the sequence every index, slice, membership, "
    "position, count, iteration, set operation and rejection compared with a plain list; and registers of "
    "each stated size (`sizes`), of integers (as stored and otherwise), texts, bits and all of them, built at once, one by one, from "
    "parts or by relabelling, under each change at the first, middle and last item, and each pair of "
    "changes for the sizes `pairs`"
)
BOUNDS = {"quick": dict(depth=3, core=4, loop=2, times=8, sizes=(9, 17, 33, 65, 101, 130, 257, 1025), pairs=(17, 130)),
          "thorough": dict(depth=4, core=5, loop=3, times=8, sizes=(9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4100), pairs=(9, 10, 11, 15, 16, 17, 31, 32, 33, 64, 65, 100, 101, 128, 129, 130, 256, 257))}
ASSUMPTIONS = ["None is not an item but asks for a generated label",
               "complex numbers with zero imaginary part and numpy booleans are not looked up, nor numpy numbers beside decimals", "set operations compared as sets, refused multi-item additions only for uniqueness"]

ITEMS = ["i0", "i1", "i2", "i3", "i-1", "ibig", "f1.0", "f2.5", "True", "a", "s0", "q", "b0", "b1"]
ADDS = ["add " + i for i in ITEMS]
OTHER = ["many", "reg", "dup", "pop", "rm0", "rm1", "rm-1", "rel_new", "rel_int", "rel_swap", "rel_cycle",
         "rel_big", "ints", "copy", "ccopy", "slice", "rslice", "plus", "freeze", "unique", "gen"]
CORE = ["add i0", "add i1", "add i2", "add a", "add q", "add b0", "add b1", "pop", "rm0", "rel_swap", "rel_int",
        "ints", "slice"]


def items():
    from dwave.gate.primitives import Bit, Qubit

    b0, b1 = Bit("x"), Bit("y")
    b0.set(0)
    b1.set(1)
    return {"i0": 0, "i1": 1, "i2": 2, "i3": 3, "i-1": -1, "ibig": 10 ** 30, "f1.0": 1.0, "f2.5": 2.5,
            "True": True, "a": "a", "s0": "0", "q": Qubit("q"), "b0": b0, "b1": b1}


def eq(x, y):
    if isinstance(x, numbers.Number) or isinstance(x, str):
        return type(x) in (int, float, bool, str, complex) and type(y) in (int, float, bool, str, complex) and x == y
    return x is y


def contains(xs, v):
    return any(eq(x, v) for x in xs)


def same(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(eq(x, y) for x, y in zip(xs, ys))


def generate(b):
    acts = ADDS + OTHER
    for cls in ("Register", "QuantumRegister", "ClassicalRegister"):
        yield ["construct", cls]
    for cls in ("Register", "ClassicalRegister"):
        for i in range(-1, len(numeric())):
            yield ["numeric", cls, i]
    for cls in ("Register", "ClassicalRegister"):
        for d in range(1, b["depth"] + 1):
            if cls != "Register" and d == b["depth"]:
                continue
            for first in itertools.product(acts, repeat=max(d - 2, 0)):
                yield ["full", cls, d, list(first)]
    for cls in ("Register", "ClassicalRegister"):
        for k in range(1, b["loop"] + 1):
            for word in itertools.product(acts, repeat=k):
                yield ["loop", cls, b["times"], list(word)]
    for cls in ("Register", "ClassicalRegister"):
        for n in b["sizes"]:
            for content in CONTENTS:
                for build in BUILDS:
                    yield ["big", cls, n, content, build, 2 if n in b["pairs"] else 1]
    for d in range(b["depth"] + 1, b["core"] + 1):
        for first in itertools.product(CORE, repeat=d - 2):
            yield ["core", "Register", d, list(first)]


def run_case(case, cov):
    import dwave.gate.registers as R

    if case[0] == "construct":
        return construct(getattr(R, case[1]), cov)
    if case[0] == "numeric":
        return do_numeric(getattr(R, case[1]), case[2], cov)
    if case[0] == "big":
        return big(getattr(R, case[1]), *case[2:], cov)
    which, cls, d, first = case
    if which == "loop":
        history(getattr(R, cls), first * d, cov, window=1)
        cov.outcome(which)
        return
    acts = ADDS + OTHER if which == "full" else CORE
    for tail in itertools.product(acts, repeat=min(d, 2)):
        history(getattr(R, cls), list(first) + list(tail), cov, window=3 if d < 4 else 1)
    cov.outcome(which)


def numeric():
    """Numbers of several types, near each other and near the limits of other types."""
    from decimal import Decimal
    from fractions import Fraction

    out = []
    for k in (0, 1, -1, 2, 3, 2 ** 53, 2 ** 60, 2 ** 61 - 1, 2 ** 61, 2 ** 63, 2 ** 64, 10 ** 30, -2 ** 63):
        out += [k, k + 1, Fraction(2 * k + 1, 2), Fraction(k), Decimal(k), Decimal(k) + Decimal("0.25") if abs(k) < 2 ** 64 else Decimal(k + 1)]
        if abs(k) <= 2 ** 64:
            out.append(float(k))
    out += [0.5, -0.5, 1.5, 0.9999999999999999, 1.0000000000000002, 1e-300, -0.0, Fraction(1, 3), 1 / 3, 0.1, Decimal("0.1"), Fraction(1, 10),
            True, False, np.int64(0), np.int64(1), np.int8(-1), np.int64(2), np.uint8(3), np.float64(1), np.float64(0.5), np.float32(1.5),
            float("inf"), float("-inf"), 1e308, 10 ** 308]
    return out


def mixable(x, xs):
    """Decimals and numpy integers cannot be compared."""
    np_, dec = ([type(v).__name__ == "Decimal" if k else isinstance(v, np.generic) for v in (x, *xs)] for k in (0, 1))
    return not (any(np_) and any(dec))


def alike(x, y):
    x, y = (v.item() if isinstance(v, np.generic) else v for v in (x, y))
    return x == y


def lookups(cls, items_, cov):
    """Numbers are found exactly when they equal an item, whatever their type."""
    pool = numeric()
    if not mixable(0, items_):
        return
    xs = []
    for x in items_:
        if not any(alike(x, y) for y in xs):
            xs.append(x)
    reg = cls(items_)
    txt = lambda: "%s(%r)" % (cls.__name__, items_)  # noqa: E731
    require(len(reg) == len(xs) and all(a is b or alike(a, b) for a, b in zip(reg, xs)),
            lambda: "%s lists %r" % (txt(), list(reg)))
    for x in pool:
        if not mixable(x, xs):
            continue
        k = next((i for i, y in enumerate(xs) if alike(x, y)), None)
        require((x in reg) is (k is not None), lambda: "%s: %r in it is %s" % (txt(), x, x in reg))
        require(reg.count(x) == (k is not None), lambda: "%s: counts %r %d times" % (txt(), x, reg.count(x)))
        try:
            got = reg.index(x)
        except ValueError:
            got = None
        require(got == k, lambda: "%s: position of %r is %r instead of %r" % (txt(), x, got, k))
        cov.step()
    for x in pool[::3]:
        if not mixable(x, xs):
            continue
        k = next((i for i, y in enumerate(xs) if alike(x, y)), None)
        one = reg - [x]
        require(len(one) == len(xs) - (k is not None), lambda: "%s without %r: %r" % (txt(), x, list(one)))
        r = cls(xs)
        try:
            r.add(x)
        except Exception:
            require(k is not None, lambda: "%s: does not add %r" % (txt(), x))
        want = xs + [x] * (k is None)
        require(len(r) == len(want) and all(a == b for a, b in zip(r, want)), lambda: "%s.add(%r) leaves %r" % (txt(), x, list(r)))
    cov.state("numeric", cls.__name__, repr(items_))


def do_numeric(cls, i, cov):
    pool = numeric()
    if i < 0:
        for n in (1, 2, 3, 5, 9, 17):
            for start in (0, 1, -1, -3, 2 ** 53 - 2, 2 ** 60, 2 ** 61 - 3, 2 ** 63 - 2, 10 ** 30 - 2):
                lookups(cls, list(range(start, start + n)), cov)
    else:
        lookups(cls, [pool[i]], cov)
        for j in range(len(pool)):
            if (i + j) % 3 == 0:
                lookups(cls, [pool[i], pool[j]], cov)
                lookups(cls, [0, pool[i], "a", pool[j]], cov)
    cov.outcome("numeric")
    cov.traces += 1


def construct(cls, cov):
    it = items()
    for k in range(4):
        for names in itertools.product(ITEMS, repeat=k):
            xs = [it[i] for i in names]
            want = []
            for x in xs:
                if not contains(want, x):
                    want.append(x)
            for src in (list(xs), tuple(xs), iter(xs)):
                r = cls(src)
                require(same(r, want) and len(r) == len(want),
                        lambda: "%s(%r) holds %r" % (cls.__name__, xs, list(r)))
            cov.step()
            if k < 3:
                observe(r, want, it, 2, lambda: "%s(%r)" % (cls.__name__, xs))
    for n in range(-2, 5):
        r = cls(range(n))
        observe(r, list(range(n)), it, 3, lambda: "%s(range(%d))" % (cls.__name__, n))
        r2 = cls(r)
        r2.add("new")
        require(same(r, range(n)) and same(r2, list(range(n)) + ["new"]), "a register built from another is not independent")
    observe(cls(range(1, 4)), [1, 2, 3], it, 3, lambda: "range(1,4)")
    observe(cls(range(0, 6, 2)), [0, 2, 4], it, 3, lambda: "range(0,6,2)")
    cov.outcome("construct")


CONTENTS = ("range", "reversed", "shifted", "text", "bits", "mixed")
BUILDS = ("list", "one by one", "halves", "sum", "relabelled", "popped")
BIG = ("pop", "rm first", "rm mid", "rm last", "name first", "name mid", "name last", "swap", "cycle", "ints", "there and back",
       "copy", "slice", "tail", "reverse", "dup", "add", "add number", "freeze")


def contents(n, which):
    from dwave.gate.primitives import Bit

    if which == "range":
        return list(range(n))
    if which == "reversed":
        return list(range(n))[::-1]
    if which == "shifted":
        return list(range(3, n + 3))
    if which == "text":
        return [str(i) for i in range(n)]
    if which == "bits":
        return [Bit(str(i % 7)) for i in range(n)]
    return [(i, str(i), i + 0.5, Bit(str(i)))[i % 4] for i in range(n)]


def big(cls, n, content, build, length, cov):
    for word in itertools.product(BIG, repeat=length):
        big_history(cls, n, content, build, word, cov)
    cov.outcome("big " + build)


def big_history(cls, n, content, build, word, cov):
    from dwave.gate.registers.registers import RegisterError

    m = contents(n, content)
    if build == "list":
        reg = cls(m)
    elif build == "one by one":
        reg = cls()
        for x in m:
            reg.add(x)
    elif build == "halves":
        reg = cls(m[:n // 2])
        reg.add(m[n // 2:])
    elif build == "sum":
        reg = cls(m[:n // 3]) + cls(m[n // 3:])
    elif build == "relabelled":
        reg = cls(range(n)) if n % 2 else cls(["old%d" % i for i in range(n)])
        reg._relabel(dict(zip(list(reg), m)))
    else:
        reg = cls(m + ["extra"])
        require(reg._pop() == "extra", lambda: "wrong item popped")
    txt = lambda: "%s of %d (%s, %s) after %s" % (cls.__name__, n, content, build, list(word))
    big_observe(reg, m, lambda: txt() + " initially")
    others = []
    frozen = False
    for a in word:
        k = len(m)
        if frozen and a in ("add", "add number"):
            try:
                reg.add("late")
            except RegisterError:
                continue
            require(False, lambda: txt() + ": a frozen register accepts an item")
        if frozen and a not in ("copy", "slice", "tail", "reverse", "dup", "freeze"):
            continue
        if a == "pop":
            x, y = reg._pop(), m.pop()
            require(eq(x, y), lambda: "%s: popped %r instead of %r" % (txt(), x, y))
        elif a.startswith("rm"):
            i = {"first": 0, "mid": k // 2, "last": k - 1}[a[3:]]
            reg._remove(m[i])
            del m[i]
        elif a.startswith("name"):
            i = {"first": 0, "mid": k // 2, "last": k - 1}[a[5:]]
            new = "new" if not contains(m, "new") else "newer"
            reg._relabel({m[i]: new})
            m[i] = new
        elif a == "swap":
            reg._relabel({m[0]: m[-1], m[-1]: m[0]})
            m[0], m[-1] = m[-1], m[0]
        elif a == "cycle":
            reg._relabel({m[i]: m[(i + 1) % k] for i in range(k)})
            m = m[1:] + m[:1]
        elif a == "ints":
            reg._relabel_as_integers()
            m = list(range(k))
        elif a == "there and back":
            back = reg._relabel_as_integers()
            require(same(reg, range(k)), lambda: txt() + ": not integers")
            reg._relabel(back)
        elif a == "copy":
            others.append((reg, list(m)))
            reg, frozen = reg.copy(), False
        elif a in ("slice", "tail", "reverse"):
            others.append((reg, list(m)))
            s = {"slice": slice(1, k - 1, 3), "tail": slice(k // 2, None), "reverse": slice(None, None, -1)}[a]
            reg, m, frozen = reg[s], m[s], False
        elif a == "dup":
            for x in (m[0], m[k // 2], m[-1]):
                for arg in (x, [x], [x] * k, ["fresh", x]):
                    if arg == ["fresh", x] and not frozen:
                        continue
                    try:
                        reg.add(arg)
                    except (RegisterError, ValueError):
                        continue
                    require(False, lambda: "%s: adding %r again is accepted" % (txt(), x))
        elif a == "add":
            x = "more%d" % k
            reg.add([x, x + "'"])
            m += [x, x + "'"]
        elif a == "add number":
            x = next(i for i in itertools.count(k) if not contains(m, i))
            reg.add(x)
            m.append(x)
        elif a == "freeze":
            reg.freeze()
            frozen = True
        cov.step()
    big_observe(reg, m, txt)
    for r, want in others:
        require(same(r, want), lambda: txt() + ": another register changed")
    cov.state(cls.__name__, n, content, build, word)
    cov.traces += 1


def big_observe(reg, m, txt):
    n = len(m)
    require(len(reg) == n and same(reg, m) and same(reversed(reg), m[::-1]) and same(reg.data, m),
            lambda: "%s: holds %r instead of %r" % (txt(), list(reg), m))
    for k, x in enumerate(m):
        require(eq(reg[k], x) and eq(reg[k - n], x), lambda: "%s: [%d] is %r instead of %r" % (txt(), k, reg[k], x))
        require(x in reg and reg.index(x) == k and reg.count(x) == 1, lambda: "%s: %r: contained %s, position %s, count %s" % (
            txt(), x, x in reg, reg.index(x) if x in reg else None, reg.count(x)))
    for i in (n, n + 1, -n - 1):
        try:
            reg[i]
        except IndexError:
            continue
        require(False, lambda: "%s: index %d accepted" % (txt(), i))
    if not any(type(x).__name__ == "Bit" for x in m):
        numbers_ = {x for x in m if not isinstance(x, str)}
        for x in (-1, n, n + 1, n + 4, 2 * n, 0, 1, 10 ** 30):
            require((x in reg) == (x in numbers_), lambda: "%s: %r contained: %s" % (txt(), x, x in reg))
    texts = {x for x in m if isinstance(x, str)}
    for x in ("absent", str(n), str(n - 1), "old0", "extra"):
        require((x in reg) == (x in texts), lambda: "%s: %r contained: %s" % (txt(), x, x in reg))
    for s in (slice(None), slice(None, None, -1), slice(n // 2, None), slice(None, -1), slice(1, None, 2), slice(n - 1, n // 2, -3)):
        require(same(reg[s], m[s]), lambda: "%s: %s is %r" % (txt(), s, list(reg[s])))


def history(cls, hist, cov, window):
    from dwave.gate.registers.registers import RegisterError

    it = items()
    reg, m = cls(), []
    frozen = False
    others = []  # (register, list it must still equal)
    ctr = itertools.count(100)
    for step, a in enumerate(hist):
        txt = lambda: "%s %s step %d (%s)" % (cls.__name__, hist, step, a)
        if a.startswith("add "):
            x = it[a[4:]]
            refuse = frozen or contains(m, x)
            if a[4:] == "a" and step % 2:
                arg = [x]
            else:
                arg = x
            try:
                reg.add(arg)
            except (RegisterError, ValueError) as e:
                require(refuse, lambda: "%s: refused with %r" % (txt(), e))
                cov.outcome("add refused")
            else:
                require(not refuse, lambda: txt() + ": accepted")
                m.append(x)
        elif a == "many":
            xs = ["m%d" % next(ctr), len(m) + 1, next(ctr)]
            if frozen:
                pass
            elif not any(contains(m, x) for x in xs):
                reg.add(xs)
                m += xs
        elif a == "reg":
            src = cls(["r%d" % next(ctr), len(m)])
            if not frozen and not any(contains(m, x) for x in src):
                reg.add(src)
                m += list(src)
        elif a == "dup" and m:
            for x in (m[0], m[-1]):
                for arg in (x, [x], [x, x]):
                    try:
                        reg.add(arg)
                    except (RegisterError, ValueError):
                        pass
                    else:
                        require(False, lambda: "%s: adding %r again is accepted" % (txt(), x))
        elif a == "pop":
            if frozen:
                continue
            if m:
                x = reg._pop()
                y = m.pop()
                require(eq(x, y), lambda: "%s: popped %r instead of %r" % (txt(), x, y))
            else:
                try:
                    reg._pop()
                except IndexError:
                    pass
                else:
                    require(False, lambda: txt() + ": popping from an empty register is accepted")
        elif a in ("rm0", "rm1", "rm-1"):
            i = int(a[2:])
            if frozen or len(m) <= abs(i):
                continue
            reg._remove(m[i])
            del m[i]
        elif a.startswith("rel_"):
            if frozen or not m:
                continue
            if a == "rel_new":
                mp = {m[0]: "n%d" % next(ctr)}
            elif a == "rel_int":
                mp = {x: i for i, x in enumerate(m)}
                if step % 2:
                    mp = {x: len(m) - 1 - i for i, x in enumerate(m)}
            elif a == "rel_swap":
                if len(m) < 2:
                    continue
                mp = {m[0]: m[1], m[1]: m[0]}
            elif a == "rel_cycle":
                mp = {m[i]: m[(i + 1) % len(m)] for i in range(len(m))}
            elif a == "rel_big":
                mp = {m[-1]: 2 * len(m) if not contains(m, 2 * len(m)) else "z%d" % next(ctr)}
            reg._relabel(mp)
            m = [next((v for k, v in mp.items() if eq(k, x)), x) for x in m]
        elif a == "ints":
            if frozen:
                continue
            back = reg._relabel_as_integers()
            require(same(reg, range(len(m))), lambda: "%s: %r" % (txt(), list(reg)))
            if step % 2:
                m = list(range(len(m)))
            else:
                reg._relabel(back)
        elif a in ("copy", "ccopy", "slice", "rslice", "plus"):
            old, oldm = reg, list(m)
            if a == "copy":
                reg = reg.copy()
            elif a == "ccopy":
                reg = copy.copy(reg)
            elif a == "slice":
                reg, m = reg[1:], m[1:]
            elif a == "rslice":
                reg, m = reg[::-1], m[::-1]
            else:
                extra = ["p%d" % next(ctr), len(m) + 2]
                extra = [x for x in extra if not contains(m, x)]
                src = cls(extra)
                reg, m = reg + src, m + extra
                others.append((src, extra))
            require(type(reg) is cls and reg is not old, lambda: "%s: %r is not a new %s" % (txt(), reg, cls.__name__))
            others.append((old, oldm))
            frozen = bool(reg.frozen)
        elif a == "freeze":
            reg.freeze()
            frozen = True
        elif a == "gen":  # a generated label: the position if available, otherwise the lowest number
            if frozen or any(type(x).__name__ == "Bit" for x in m):
                continue
            want = next(i for i in (len(m), *range(len(m) + 1)) if not contains(m, i))
            got = reg._append()
            require(eq(got, want), lambda: "%s: the generated label is %r instead of %r" % (txt(), got, want))
            m.append(want)
        elif a == "unique":
            require(len(reg) == len(m), txt)
        require(reg.frozen == frozen, lambda: "%s: frozen is %s" % (txt(), reg.frozen))
        cov.step()
    txt = lambda: "%s %s" % (cls.__name__, hist)
    observe(reg, m, it, window, txt)
    if frozen:
        for x in ("never", 77, [m[0]] if m else "never2", [], ):
            if x == []:
                continue
            try:
                reg.add(x)
            except RegisterError:
                cov.outcome("frozen refused")
            else:
                require(False, lambda: "%s: a frozen register accepts %r" % (txt(), x))
    for r, want in others:
        require(same(r, want) and len(r) == len(want), lambda: "%s: another register became %r instead of %r" % (
            txt(), list(r), want))
    # changing the register leaves its relatives alone
    if others and not frozen:
        reg.add("indep")
        for r, want in others:
            require(same(r, want) and "indep" not in r, lambda: "%s: not independent: %r" % (txt(), list(r)))
        for r, want in others:
            if not r.frozen:
                r.add("back")
        require(same(reg, m + ["indep"]), lambda: "%s: not independent: %r" % (txt(), list(reg)))
    cov.state(cls.__name__, frozen, tuple(x if isinstance(x, (str, int, float)) else type(x).__name__ for x in m))
    cov.traces += 1


def observe(reg, m, it, w, txt):
    n = len(m)
    require(len(reg) == n, lambda: "%s: length %d instead of %d" % (txt(), len(reg), n))
    require(same(reg, m), lambda: "%s: iterates as %r instead of %r" % (txt(), list(reg), m))
    require(same(reg.data, m) and same(reversed(reg), m[::-1]), lambda: "%s: data %r" % (txt(), reg.data))
    for i in range(-n - 2, n + 2):
        try:
            x = reg[i]
        except IndexError:
            require(not -n <= i < n, lambda: "%s: index %d refused for %r" % (txt(), i, m))
        else:
            require(-n <= i < n and eq(x, m[i]), lambda: "%s: [%d] is %r in %r" % (txt(), i, x, m))
    for k, x in enumerate(m):
        require(x in reg and reg.index(x) == k and reg.count(x) == 1,
                lambda: "%s: %r in %r: contained %s, position %s, count %s" % (
                    txt(), x, m, x in reg, reg.index(x) if x in reg else None, reg.count(x)))
    hasbit = any(type(x).__name__ == "Bit" for x in m)
    for x in list(it.values()) + [-2, 7, "zz", 0.5, float("nan"), float("inf"), 1j, ("t",), 10 ** 40, -10 ** 40]:
        if hasbit and isinstance(x, numbers.Number):
            continue  # a set bit equals a number without sharing its hash
        want = contains(m, x) if not isinstance(x, complex) or x.imag else contains(m, x.real)
        require((x in reg) == want and reg.count(x) == int(want),
                lambda: "%s: %r in %r gives %s" % (txt(), x, m, x in reg))
        if not want:
            try:
                p = reg.index(x)
            except ValueError:
                pass
            else:
                require(False, lambda: "%s: position of absent %r in %r is %r" % (txt(), x, m, p))
    if w >= 3:
        bounds, steps = [None, 0, 1, 2, 5, -1, -2, -9], [None, 2, -1, -2]
    elif w == 2:
        bounds, steps = [None, 1, -1], [None, 2, -1]
    else:
        bounds, steps = [None, 1, -1], [None, -1]
    for s in itertools.product(bounds, bounds, steps):
        sl = slice(*s)
        got = reg[sl]
        require(type(got) is type(reg) and same(got, m[sl]),
                lambda: "%s: %r[%s:%s:%s] is %r instead of %r" % ((txt(), m) + s + (list(got), m[sl])))
    try:
        reg[::0]
    except ValueError:
        pass
    else:
        require(False, "a slice with step zero is accepted")
    # set algebra with a small other register
    oth = ["a", 1, "zz"]
    for o in (type(reg)(oth), oth and set(oth)):
        if hasbit:
            break
        for name, got, want in (
            ("&", reg & o, [x for x in m if contains(oth, x)]),
            ("|", reg | o, m + [x for x in oth if not contains(m, x)]),
            ("-", reg - o, [x for x in m if not contains(oth, x)]),
            ("^", reg ^ o, [x for x in m if not contains(oth, x)] + [x for x in oth if not contains(m, x)]),
        ):
            g = list(got)
            require(len(g) == len(want) and all(contains(g, x) for x in want),
                    lambda: "%s: %r %s %r is %r" % (txt(), m, name, oth, g))
        require(reg.isdisjoint(o) == (not any(contains(oth, x) for x in m)), lambda: "%s: isdisjoint" % txt())


EXPECT_OUTCOMES = ("big list", "big popped", "full", "core", "construct", "numeric", "add refused", "frozen refused")
