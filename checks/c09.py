"""C09: the parameter register grows on demand with stable distinct variables."""
import itertools

import numpy as np

from mc.core import require

PROPERTY = "C09"
RULE = (
    "every sequence of the stated length, and every short word repeated the stated number of times (with indices up to 101), with indices of several integer types, and every index up to those stated (`sizes`) one by one and at once, over {index -4..5, add a variable (ordinary and digit names), "
    "freeze, open and close the circuit's context, unlock, read length/iterate} over fresh and pre-filled "
    "registers, standalone and of a parametric circuit; compared with a list of object identities"
)
BOUNDS = {"quick": dict(depth=4, loop=2, times=7, sizes=(17, 65, 130, 260)), "thorough": dict(depth=5, loop=3, times=7, sizes=(16, 17, 32, 33, 64, 65, 100, 128, 129, 130, 256, 257, 300, 513))}
ASSUMPTIONS = ["setting and binding variables is covered by C11 and C19"]

KINDS = "inusob"
ACTS = ["i%d" % i for i in range(-4, 6)] + ["add x", "add 1", "add 4", "freeze", "unfreeze", "set", "iter", "slice"]
OTHER = ["n-1", "n0", "n2", "n3", "u3", "s2", "o2", "o-2", "b0", "b1"]  # indices of other integer types
BIG = ["i9", "i10", "i11", "i12", "i-10", "i-11", "i25", "i101", "add 10"]
SETUPS = ["fresh", "pre1", "predigit", "pre3", "circuit"]


def generate(b):
    for s in SETUPS:
        for d in range(1, b["depth"] + 1):
            for first in itertools.product(ACTS, repeat=max(d - 2, 0)):
                yield [s, d, list(first)]
        for first in itertools.product(ACTS, repeat=b["depth"] - 2):
            for o in OTHER:
                yield [s, 0, [*first, o]]
                yield [s, 0, [o, *first]]
        for n in b["sizes"]:
            up = ["i%d" % i for i in range(n)]
            yield [s, 0, up + ["freeze", "i%d" % n, "i-%d" % n]]
            yield [s, 0, ["add %d" % (n + 1), "i%d" % n, "i0", "i%d" % (n - 1), "add %d" % (n // 2), "i%d" % (n + 3), "freeze", "i%d" % (2 * n), "unfreeze", "slice"]]
            yield [s, 0, [x for i in range(0, n, 9) for x in ("i%d" % i, "add y%d" % i, "add %d" % (i + 3))] + ["set", "i%d" % n]]
        for k in range(1, b["loop"] + 1):
            for word in itertools.product(ACTS + BIG + OTHER, repeat=k):
                yield [s, 0, list(word) * b["times"]]


def run_case(case, cov):
    s, d, first = case
    if d == 0:
        history(s, first, cov)
        return cov.outcome("loop")
    for tail in itertools.product(ACTS, repeat=min(d, 2)):
        history(s, list(first) + list(tail), cov)
    cov.outcome(s)


class Index(int):
    """Another type of integers."""


def history(setup, hist, cov):
    from dwave.gate.circuit import ParametricCircuit
    from dwave.gate.primitives import Variable
    from dwave.gate.registers.registers import RegisterError, SelfIncrementingRegister

    circ = ctx = None
    names = {"fresh": [], "pre1": ["a"], "predigit": ["2", "0"], "pre3": ["a", "b", "c"], "circuit": []}[setup]
    m = [Variable(x) for x in names]
    if setup == "circuit":
        circ = ParametricCircuit(1)
        ctx = circ.context
        reg = ctx.__enter__().p
    else:
        reg = SelfIncrementingRegister(list(m)) if m else SelfIncrementingRegister()
    frozen = False
    try:
        for step, a in enumerate(hist):
            txt = lambda: "%s %s step %d (%s), %d variables, frozen=%s" % (setup, hist, step, a, len(m), frozen)
            if a[0] in KINDS and a[1:].lstrip("-").isdigit():
                i = int(a[1:])
                at = {"i": int, "n": np.int64, "u": np.uint8, "s": np.int16, "o": Index, "b": bool}[a[0]](i)
                n = len(m)
                grow = i >= n and not frozen
                ok = -n <= i < n or grow
                try:
                    v = reg[at]
                except (IndexError, RegisterError) as e:
                    require(not ok, lambda: "%s: refused with %r" % (txt(), e))
                    cov.outcome("refused")
                else:
                    require(ok, lambda: "%s: gives %r" % (txt(), v))
                    if grow:
                        new = list(reg)[n:]
                        require(len(new) == i + 1 - n and all(type(x) is Variable and x.value is None for x in new),
                                lambda: "%s: grew by %r" % (txt(), new))
                        m.extend(new)
                        cov.outcome("grew")
                    require(v is m[i], lambda: "%s: %r is not the variable at that position" % (txt(), v))
            elif a.startswith("add "):
                v = Variable(a[4:])
                refuse = frozen or any(v.name == x.name for x in m)
                try:
                    reg.add(v)
                except (RegisterError, ValueError) as e:
                    require(refuse, lambda: "%s: refused with %r" % (txt(), e))
                else:
                    require(not refuse, lambda: txt() + ": accepted")
                    m.append(v)
            elif a == "freeze":
                if ctx is not None and not frozen:
                    ctx.__exit__(None, None, None)
                reg.freeze()
                frozen = True
            elif a == "unfreeze":
                if circ is None:
                    continue
                if frozen:
                    circ.unlock()
                    reg2 = ctx.__enter__().p
                    require(reg2 is reg, lambda: txt() + ": entering again gives another register")
                frozen = False
            elif a == "set":
                for k, x in enumerate(m):
                    x.set(k)  # values equal to positions must not confuse the register
            elif a == "slice":
                for sl in (slice(0, 2), slice(1, 9), slice(None, None, -1)):
                    got = list(reg[sl])
                    require(len(got) == len(m[sl]) and all(x is y for x, y in zip(got, m[sl])),
                            lambda: "%s: slice %s gives %r" % (txt(), sl, got))
            # everything observable
            got = list(reg)
            require(len(reg) == len(m) == len(got) and all(x is y for x, y in zip(got, m)),
                    lambda: "%s: register %r instead of %r" % (txt(), got, m))
            require(len({x.name for x in m}) == len(m) and len({id(x) for x in m}) == len(m),
                    lambda: "%s: variables %s are not distinct" % (txt(), [x.name for x in m]))
            require(reg.frozen == frozen, lambda: "%s: frozen is %s" % (txt(), reg.frozen))
            if circ is not None:
                require(circ.num_parameters == len(m) and circ.parametric == bool(m),
                        lambda: txt() + ": wrong parameter count")
            for k, x in enumerate(m):
                require(reg[k] is x and reg[k - len(m)] is x and reg.index(x) == k and x in reg,
                        lambda: "%s: position %d changed" % (txt(), k))
            cov.step()
            cov.state(setup, frozen, tuple(x.name for x in m), a)
    finally:
        if ctx is not None and not frozen:
            ctx.__exit__(None, None, None)
    cov.traces += 1


EXPECT_OUTCOMES = ("refused", "grew", "circuit", "pre3")
