"""C22: only valid states can be stored, and the latest stored one is returned."""
import itertools
import warnings

import numpy as np

from mc import drive, ref
from mc.core import require

PROPERTY = "C22"
RULE = (
    "every sequence of the stated length, and every short word repeated (`loop`: length, times), over {store a vector or matrix of the alphabet (basis, complex, mixed with and "
    "without coherences, integer and strided arrays, unnormalised, with negative or complex trace, zero, non-finite, wrong sizes, columns, wrong ranks) "
    "with every combination of force and normalize, read state, read density matrix, simulate (pure), reset with or without registers} on "
    "circuits of 1..3 qubits in one or several registers; after every step acceptance, state and density matrix (read "
    "in both orders) compared with the last accepted state; and vectors and matrices of every type of numbers, up to its largest values"
)
BOUNDS = {
    "quick": dict(full=(1, 2, 3), flen=2, core=(1, 2), clen=4, once=(4, 5), loop=(2, 33)),
    "thorough": dict(full=(1, 2, 3), flen=3, core=(1, 2, 3), clen=5, once=(4, 5, 6, 7), loop=(3, 33)),
}
ASSUMPTIONS = [
    "matrices offered as density matrices are multiples of hermitian positive ones (only their trace and size vary)",
    "arrays are not modified by the caller after they were stored",
    "norms differ from 1 by less than 1e-10 or by more than 1e-4",
]
EXPECT_OUTCOMES = ["refused", "accepted"]

LAYOUT = {1: [1], 2: [1, 1], 3: [2, 1], 4: [1, 3], 5: [2, 0, 3], 6: [6], 7: [1] * 7}


def generic(n):
    v = np.array([complex(1 + 0.3 * i, 0.7 - 0.45 * i * i) for i in range(2 ** n)])
    return v / np.linalg.norm(v)


def make_values(n):
    """name -> (array, density matrix it describes once divided by its norm/trace or None, unit?)"""
    N = 2 ** n
    g, e = generic(n), np.zeros(N, dtype=complex)
    e[N - 1] = 1
    h = np.conj(g[::-1]).copy()
    G, H, E = ref.rho(g), ref.rho(h), ref.rho(e)
    mix = 0.25 * G + 0.75 * E
    out = {
        "e": (e, E, True), "g": (g, G, True), "h": (h, H, True), "int": (np.array([1] + [0] * (N - 1)), ref.rho(ref.zero(n)), True),
        "strided": (np.repeat(g, 2)[::2], G, True), "-ig": (-1j * g, G, True),
        "2g": (2 * g, G, False), "nearer": (1.0002 * g, G, False), "below": (0.9997 * h, H, False),
        "tiny": (g * (1 + 1e-11), G, True), "tinyH": (H * (1 - 1e-11), H, True), "nearerG": (1.0002 * G, G, False),
        "belowmix": (0.9997 * mix, mix, False), "nearcoh": (h * np.sqrt(1.0004), H, False), "g/3": (g / 3, G, False), "near": (1.002 * h, H, False),
        "0": (0 * g, None, False), "nan": (g * np.nan, None, False),
        "long": (np.concatenate([g, 0 * g]), None, False), "short": (np.array([1 + 0j] + [0] * (N // 2 - 1)), None, False),
        "column": (g.reshape(-1, 1), None, False), "row": (g.reshape(1, -1), None, False),
        "cube": (g.reshape(1, 1, -1), None, False), "scalar": (np.array(1 + 0j), None, False),
        "E": (E, E, True), "G": (G, G, True), "H": (H, H, True), "mix": (mix, mix, True),
        "diag": (np.diag([0.75] + [0.25 / (N - 1)] * (N - 1)), np.diag([0.75] + [0.25 / (N - 1)] * (N - 1)), True),
        "max": (np.eye(N) / N, np.eye(N) / N, True), "eye": (np.eye(N), np.eye(N) / N, False),
        "3G": (3 * G, G, False), "mix/2": (mix / 2, mix, False), "nearH": (1.002 * H, H, False),
        "O": (0 * G, None, False), "nanM": (G * np.nan, None, False),
        "big": (np.kron(G, np.diag([1, 0])), None, False), "small": (np.diag([1 + 0j] + [0] * (N // 2 - 1)), None, False),
        "frob": (np.eye(N) / np.sqrt(N), np.eye(N) / N, False), "sum": (np.ones(N) / N, None if N == 1 else np.full((N, N), 1 / N), False),
        # cannot be stored as given; normalised they are what follows, or may be refused
        "-G": (-G, G, "no"), "-E": (-E, E, "no"), "-iE": (-1j * E, E, "no"), "iG": (1j * G, G, "no"), "(1+i)G": ((1 + 0.5j) * G, G, "no"), "(.6+.8i)G": ((0.6 + 0.8j) * G, G, "no"),
        # as many entries as a density matrix, but another shape
        "slab": (np.eye(max(N // 2, 1), 2 * N) / max(N // 2, 1), None, False), "rod": (np.eye(2 * N, N // 2) / (N // 2), None, False),
        "flat": (np.eye(1, N * N), None, False), "pole": (np.eye(N * N, 1), None, False), "line": (np.eye(1, N * N)[0], None, False),
        "deep": (G.reshape(N, N, 1), None, False), "over": (G.reshape(1, N, N), None, False),
        "wide": (np.hstack([G, 0 * G]), None, False), "tall": (np.vstack([G, 0 * G]), None, False),
    }
    return out


_cache = {}


def values(n):
    if n not in _cache:
        _cache[n] = make_values(n)
    return _cache[n]


NAMES = list(make_values(1))
OTHER = ["state", "rho", "simulate", "reset", "wipe"]
FULL = [(v, f, z) for v in NAMES for f in (False, True) for z in (False, True)] + OTHER
CORE = [("g", False, False), ("h", True, False), ("2g", False, False), ("2g", True, True), ("mix", False, False),
        ("mix", True, False), ("G", True, True), ("3G", True, False), ("mix/2", True, True), ("diag", True, True),
        ("long", True, True), ("big", True, False)] + OTHER


def generate(b):
    for n in (1, 2, 3, 5):
        for t in TYPES:
            yield ["typed", n, t]
    for n in b["full"]:
        for first in itertools.product(range(len(FULL)), repeat=b["flen"] - 1):
            yield ["full", n, b["flen"], first]
        yield ["full", n, 1, ()]
    for n in b["once"]:
        yield ["full", n, 1, ()]
        yield ["full", n, 2, (0,)]
    for n in b["core"]:
        for first in itertools.product(range(len(CORE)), repeat=b["clen"] - 1):
            yield ["core", n, b["clen"], first]
        for k in range(1, b["loop"][0] + 1):
            for word in itertools.product(range(len(CORE)), repeat=k):
                yield ["core", n, b["loop"][1] * k, word * b["loop"][1]]


TYPES = ("bool", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "f4", "f8", ">f8", "g", "c8", "c16", ">c16", "G")


def typed(n, t, cov):
    """Arrays of other types of numbers."""
    from dwave.gate.circuit import CircuitError

    dt, N = np.dtype(t), 2 ** n
    top = 1 if dt.kind == "b" else min(np.iinfo(dt).max, 10 ** 9) if dt.kind in "iu" else 1e4
    one = [1] + [0] * (N - 1)
    alt = [top - (i % 2) * (top // 3 if dt.kind in "iu" else 0.25) for i in range(N)]
    if dt.kind == "i":
        alt = [a if i % 3 else -a for i, a in enumerate(alt)]
    if dt.kind == "c":
        alt = [a * 1j ** i for i, a in enumerate(alt)]
    tol = 1e-5 if t in ("f4", "c8") else 1e-9
    for layout in ("plain", "reversed", "readonly"):
        for values_, unit in ((one, True), (one[::-1], True), (alt, False), ([top] * N, False)):
            v = np.array(values_).astype(dt)
            w = v.astype(complex)
            w = w / np.sqrt(np.sum(abs(w) ** 2))
            M = np.diag([abs(x) for x in values_]).astype(dt)
            R = M.astype(complex) / np.trace(M.astype(complex))
            for x, vec, rho in ((v, w, ref.rho(w)), (M, None, R)):
                given = x[::-1].copy()[::-1] if layout == "reversed" else x.copy()
                if layout == "readonly":
                    given.setflags(write=False)
                for force, normalize in itertools.product((False, True), repeat=2):
                    circ = drive.new_circuit(LAYOUT[n])
                    txt = lambda: "%d qubits, %s array %s (%s), force %s, normalize %s" % (n, t, x.tolist(), layout, force, normalize)  # noqa: E731
                    try:
                        circ.set_state(given, force=force, normalize=normalize)
                    except (ValueError, CircuitError) as e:
                        require(not unit and not normalize, lambda: "%s: refused with %r" % (txt(), e))
                        require(circ.density_matrix is None and circ.state is None, lambda: "%s: refused, but stored" % txt())
                        cov.outcome("refused")
                        continue
                    require(unit or normalize or n == 0, lambda: "%s: accepted" % txt())
                    if vec is not None:
                        require(ref.close(circ.state, vec, tol), lambda: "%s: state %r instead of %r" % (txt(), circ.state, vec))
                    require(ref.close(circ.density_matrix, rho, tol), lambda: "%s: density matrix %r instead of %r" % (txt(), circ.density_matrix, rho))
                    require(np.array_equal(given, x), lambda: "%s: the given array was modified" % txt())
                    cov.outcome("accepted")
                    cov.step()
    cov.state("typed", n, t)


def run_case(case, cov):
    if case[0] == "typed":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return typed(case[1], case[2], cov)
    kind, n, d, first = case
    acts = FULL if kind == "full" else CORE
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for last in range(len(acts)):
            for order in (("state", "rho"), ("rho", "state")):
                history(n, [acts[i] for i in (*first, last)], order, cov)
            cov.traces += 1


def history(n, hist, order, cov):
    from dwave.gate.circuit import CircuitError
    from dwave.gate.simulator import simulate

    V = values(n)
    circ = drive.new_circuit(LAYOUT[n])
    vec = rho = None  # what is stored
    prog = [["Hadamard", [], [n - 1]], ["T", [], [n - 1]], ["RX", [0.4], [0]]]
    reset = False
    drive.fill(circ, prog)
    for step, a in enumerate(hist):
        txt = lambda: "%d qubits, %s step %d" % (n, hist, step)
        if a == "simulate":
            simulate(circ)
            vec = ref.zero(n) if reset else ref.run(prog, n)
            rho = ref.rho(vec)
        elif a == "reset":
            circ.reset()
            reset = True
            vec = rho = None
        elif a == "wipe":
            circ.reset(keep_registers=False)
            require(circ.num_qubits == 0, lambda: txt() + ": qubits remain")
            for size in LAYOUT[n]:
                circ.add_qregister(size)
            reset = True
            vec = rho = None
        elif a in ("state", "rho"):
            pass
        else:
            x, R, unit = V[a[0]]
            ok = (rho is None or a[1]) and R is not None and (unit is True or a[2])
            maybe = ok and unit == "no"
            given = x.copy()
            try:
                if a[1] or a[2]:
                    circ.set_state(given, force=a[1], normalize=a[2])
                else:
                    circ.set_state(given)
            except (ValueError, CircuitError, IndexError, TypeError) as e:
                require(not ok or maybe, lambda: "%s: %s refused with %r" % (txt(), a, e))
                cov.outcome("refused")
            else:
                require(ok, lambda: "%s: %s accepted" % (txt(), a))
                rho = R
                vec = x / np.linalg.norm(x) if x.ndim == 1 else None
                cov.outcome("accepted")
            require(given.shape == x.shape and np.array_equal(given, x, equal_nan=True),
                    lambda: "%s: the given array was modified" % txt())
        last = step == len(hist) - 1
        for what in order if last else (a,):
            if what == "state":
                try:
                    got = circ.state
                except CircuitError:
                    require(rho is not None and vec is None, lambda: txt() + ": reading the state is refused")
                else:
                    require(rho is None or vec is not None, lambda: "%s: state %r of a mixed state" % (txt(), got))
                    require((got is None) if vec is None else (got is not None and got.shape == vec.shape and ref.close(got, vec)),
                            lambda: "%s: state %r instead of %r" % (txt(), got, vec))
            elif what == "rho":
                got = circ.density_matrix
                require((got is None) if rho is None else (got is not None and got.shape == rho.shape and ref.close(got, rho)),
                        lambda: "%s: density matrix\n%r\ninstead of\n%r" % (txt(), got, rho))
    cov.step()
    cov.state(n, str(hist))
