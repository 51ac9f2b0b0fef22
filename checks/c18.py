"""C18: identifiers are unique until the counter is reset."""
import itertools
import warnings
from math import comb

from mc.core import require

PROPERTY = "C18"
RULE = (
    "the real counter started from every stated initial length and batch size and driven through every history of the "
    "stated depth of draws, refreshes and resets, and then run until the identifiers are exhausted (or, for short "
    "lengths, past several growths of the length): every identifier compared with all others since the last reset, "
    "their number with the size of the space, and the error at the end; qubits and bits created in every order "
    "compared pairwise"
)
BOUNDS = {
    "quick": dict(depth=6, batches=(1, 2, 3, 36, 37, 100, None), tail=33, head=8000, elems=5,
                  many=62000),
    "thorough": dict(depth=8, batches=(1, 2, 3, 5, 35, 36, 37, 38, 100, 631, 666, 667, 668, 1000, 7806, None), tail=32,
                     head=70000, elems=7, many=450000),
}
ASSUMPTIONS = ["identifiers have 1 to 36 of the 36 characters, without repetitions or regard to order, as documented",
               "the counter is used from one thread"]
N = 36
ACTS = ("next", "refresh", "next3", "reset", "resetlen", "qubit")


def space(length):
    return sum(comb(N, k) for k in range(length, N + 1))


def generate(b):
    for length in range(b["tail"], N + 1):
        for batch in b["batches"]:
            yield ["exhaust", length, batch]
    for length in (1, 2, 3, 4, None):
        for batch in b["batches"]:
            yield ["head", length, batch, b["head"]]
    for batch in (1, 2, 3, 36, 37, 1000):
        for length in (34, 35, 36):
            for d in range(1, b["depth"] + 1):
                for acts in itertools.product(range(len(ACTS)), repeat=d):
                    if d == b["depth"] or length == 36:
                        yield ["history", length, batch, list(acts)]
    for kinds in itertools.product("qb", repeat=b["elems"]):
        for batch in (1, 2, None):
            yield ["elements", "".join(kinds), batch]
    for kinds in ("qb", "q", "qqb"):
        yield ["many", kinds, b["many"]]


def counter():
    from dwave.gate.tools.counters import IDCounter

    return IDCounter


def drain(C, seen, limit, txt):
    """Draw until the counter refuses or the limit is reached."""
    while len(seen) < limit:
        try:
            i = C.next()
        except ValueError:
            return True
        require(isinstance(i, str) and i not in seen, lambda: "%s: %r is handed out twice" % (txt(), i))
        seen.add(i)
    return False


def exhausted(C, seen, length, txt):
    total = space(length)
    require(len(seen) == total, lambda: "%s: %d identifiers of %d were handed out" % (txt(), len(seen), total))
    for _ in range(3):
        for f in (C.next, C.refresh):
            try:
                f()
            except ValueError:
                continue
            require(False, lambda: "%s: continues after exhaustion" % txt())


def run_case(case, cov):
    C = counter()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            globals()["do_" + case[0]](C, *case[1:], cov)
        finally:
            C.reset()
    cov.outcome(case[0])


def do_exhaust(C, length, batch, cov):
    txt = lambda: "length %s, batch %s" % (length, batch)  # noqa: E731
    seen = set()
    C.reset(length, batch)
    end = drain(C, seen, space(length) + 10, txt)
    require(end, lambda: "%s: hands out more identifiers than there are" % txt())
    exhausted(C, seen, length, txt)
    # and again after a reset
    C.reset(36, batch)
    seen = set()
    require(drain(C, seen, 10, txt), lambda: "%s: never ends after a reset" % txt())
    exhausted(C, seen, 36, txt)
    cov.state("exhaust", length, batch)
    cov.step(space(length))


def do_head(C, length, batch, head, cov):
    txt = lambda: "length %s, batch %s" % (length, batch)  # noqa: E731
    C.reset(*([] if length is None else [length]), **({} if batch is None else dict(batch=batch)))
    seen = set()
    end = drain(C, seen, min(head, space(length or 4)), txt)
    require(not end, lambda: "%s: ends after %d identifiers" % (txt(), len(seen)))
    cov.state("head", length, batch)
    cov.step(head)


def do_history(C, length, batch, acts, cov):
    from dwave.gate.primitives import Bit, Qubit

    start = length
    C.reset(length, batch)
    seen = set()
    txt = lambda: "length %s, batch %s, after %s" % (start, batch, [ACTS[a] for a in acts])  # noqa: E731
    for k, a in enumerate(acts):
        a = ACTS[a]
        left = space(length) - len(seen)
        if a in ("next", "next3"):
            for _ in range(3 if a == "next3" else 1):
                ended = drain(C, seen, len(seen) + 1, txt)
                require(ended == (left == 0), lambda: "%s: %d identifiers left but %s" % (
                    txt(), left, "refused" if ended else "one handed out"))
                left -= not ended
        elif a == "refresh":
            try:
                C.refresh()
            except ValueError:
                require(left == 0, lambda: "%s: refresh refused with %d identifiers left" % (txt(), left))
        elif a == "reset":
            length = 36
            C.reset(36, batch)
            seen = set()
        elif a == "resetlen":
            length = 35
            C.reset(length=35, batch=batch)
            seen = set()
        elif a == "qubit":
            for cls in (Qubit, Bit):
                try:
                    e = cls("x")
                except ValueError:
                    require(left == 0, lambda: "%s: no identifier for an element, %d left" % (txt(), left))
                    continue
                require(e.id not in seen, lambda: "%s: %r is handed out twice" % (txt(), e.id))
                seen.add(e.id)
                left -= 1
        cov.state("history", start, batch, length, len(seen), tuple(acts[: k + 1]))
        cov.step()
    if length > 34 or sum(acts) % 7 == 0:
        require(drain(C, seen, space(length) + 10, txt), lambda: "%s: hands out more identifiers than there are" % txt())
        exhausted(C, seen, length, txt)


def do_elements(C, kinds, batch, cov):
    from dwave.gate.primitives import Bit, Qubit

    C.reset(None, batch)
    es = [(Qubit if k == "q" else Bit)("same") for k in kinds]
    for i, a in enumerate(es):
        for j, b in enumerate(es):
            require((a == b) == (i == j) and (a != b) == (i != j),
                    lambda: "elements %d and %d of %s compare %s" % (i, j, kinds, a == b))
            require(i == j or a.id != b.id, lambda: "elements %d and %d of %s share an identifier" % (i, j, kinds))
    require(len(set(es)) == len(es), lambda: "elements of %s are confused in a set" % kinds)
    cov.state("elements", kinds, batch)
    cov.step(len(es) ** 2)


EXPECT_OUTCOMES = ("exhaust", "head", "history", "elements")


def do_many(C, pattern, n, cov):
    """Qubits and bits across the change of the default configuration to longer identifiers."""
    from dwave.gate.primitives import Bit, Qubit

    kinds = {"q": Qubit, "b": Bit}
    C.reset()
    made = [kinds[pattern[i % len(pattern)]]("same") for i in range(n)]
    require(len({o.id for o in made}) == n, lambda: "%d qubits and bits share identifiers" % n)
    table = {o: i for i, o in enumerate(made)}
    require(len(table) == n and all(table[o] == i for i, o in enumerate(made)), "qubits or bits are mistaken for others")
    cov.step(n)
    cov.state("many", pattern, n)
