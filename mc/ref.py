"""Reference semantics: written from the definitions, sharing no code with /repo.

Conventions: qubit 0 is the most significant bit of a basis-state index
(big-endian); a little-endian vector has the qubit axes reversed.
A program is a dict
    q: sizes of quantum registers   c: sizes of classical registers
    ops: list of [name, params, qubits, bits, conds]   (indices; bits/conds may be None)
"""
import itertools
import math

import numpy as np

PI = math.pi

# name -> (number of qubits, number of parameters)
GATES = {
    "Identity": (1, 0), "X": (1, 0), "Y": (1, 0), "Z": (1, 0), "Hadamard": (1, 0),
    "S": (1, 0), "T": (1, 0),
    "RX": (1, 1), "RY": (1, 1), "RZ": (1, 1), "Rotation": (1, 3),
    "CX": (2, 0), "CY": (2, 0), "CZ": (2, 0), "CHadamard": (2, 0),
    "CRX": (2, 1), "CRY": (2, 1), "CRZ": (2, 1), "CRotation": (2, 3),
    "SWAP": (2, 0), "CSWAP": (3, 0), "CCX": (3, 0),
}
ALIASES = {"Phase": "S", "P": "S", "CNOT": "CX", "Fredkin": "CSWAP", "CCNOT": "CCX", "Toffoli": "CCX"}
CONTROLLED = {"CX": "X", "CY": "Y", "CZ": "Z", "CHadamard": "Hadamard", "CRX": "RX", "CRY": "RY",
              "CRZ": "RZ", "CRotation": "Rotation"}
ONE = [g for g, (n, _) in GATES.items() if n == 1]
TWO = [g for g, (n, _) in GATES.items() if n == 2]
THREE = [g for g, (n, _) in GATES.items() if n == 3]
# a default parameter for every arity: generic, asymmetric, complex gates
DEF = {0: (), 1: (0.7,), 3: (0.4, 1.1, -0.9)}
# numbers which are easily taken for one another: equal hashes (-1 and -2), close by, whole turns apart, opposite
GRID = [0, 0.5, -0.5, PI, -2.25, 1e-5]  # combined in all ways for gates with several parameters
CONFUSABLE = [-1, -2, 0.5, 0.5 + 1e-7, 0.5004, 0.5 + 2 * PI, -0.5, 0, 1.0]


def _expm(H, t):
    """exp(-i t/2 H) for an involution H."""
    return math.cos(t / 2) * np.eye(2) - 1j * math.sin(t / 2) * H


PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)


def perm(f, n):
    """Permutation matrix of a map on bit tuples."""
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for i, b in enumerate(itertools.product((0, 1), repeat=n)):
        out = f(*b)
        j = 0
        for x in out:
            j = 2 * j + x
        M[j, i] = 1
    return M


def matrix(name, params=()):
    if name == "Identity":
        return np.eye(2, dtype=complex)
    if name == "X":
        return PX.copy()
    if name == "Y":
        return PY.copy()
    if name == "Z":
        return PZ.copy()
    if name == "Hadamard":
        return (PX + PZ) / math.sqrt(2)
    if name == "S":
        return np.diag([1, 1j])
    if name == "T":
        return np.diag([1, (1 + 1j) / math.sqrt(2)])
    if name == "RX":
        return _expm(PX, params[0])
    if name == "RY":
        return _expm(PY, params[0])
    if name == "RZ":
        return _expm(PZ, params[0])
    if name == "Rotation":
        b, g, d = params
        return _expm(PZ, d) @ _expm(PY, g) @ _expm(PZ, b)
    if name in CONTROLLED:
        M = np.eye(4, dtype=complex)
        M[2:, 2:] = matrix(CONTROLLED[name], params)
        return M
    if name == "SWAP":
        return perm(lambda a, b: (b, a), 2)
    if name == "CSWAP":
        return perm(lambda c, a, b: (c, b, a) if c else (c, a, b), 3)
    if name == "CCX":
        return perm(lambda a, b, t: (a, b, t ^ (a & b)), 3)
    raise KeyError(name)


_cache = {}


def cmatrix(name, params=()):
    k = (name, tuple(params))
    m = _cache.get(k)
    if m is None:
        m = _cache[k] = matrix(name, params)
        m.setflags(write=False)
    return m


def zero(n):
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = 1
    return v


def apply(v, U, qubits, n):
    """Apply U to the given qubits of a big-endian vector (or to every column of a matrix)."""
    k = len(qubits)
    rest = v.shape[1:]
    t = v.reshape([2] * n + list(rest))
    t = np.tensordot(U.reshape([2] * (2 * k)), t, axes=(list(range(k, 2 * k)), list(qubits)))
    t = np.moveaxis(t, list(range(k)), list(qubits))
    return t.reshape((2 ** n,) + rest)


def embed(U, qubits, n):
    return apply(np.eye(2 ** n, dtype=complex), U, qubits, n)


def unitary(ops, n):
    M = np.eye(2 ** n, dtype=complex)
    for op in ops:
        M = apply(M, cmatrix(op[0], op[1]), op[2], n)
    return M


def run(ops, n, v=None):
    v = zero(n) if v is None else v
    for op in ops:
        v = apply(v, cmatrix(op[0], op[1]), op[2], n)
    return v


def reverse(v, n):
    """Big-endian <-> little-endian vector."""
    return v.reshape([2] * n).transpose(list(range(n))[::-1]).reshape(-1)


def prob0(v, q, n):
    return float(np.sum(np.abs(v.reshape([2 ** q, 2, -1])[:, 0, :]) ** 2))


def project(v, q, outcome, n):
    t = v.reshape([2 ** q, 2, -1]).copy()
    t[:, 1 - outcome, :] = 0
    w = t.reshape(-1)
    return w / np.linalg.norm(w)


def rho(v):
    return np.outer(v, v.conj())


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def phase_equal(A, B, tol=1e-9):
    """Equal up to a global phase."""
    if A.shape != B.shape:
        return False
    i = np.unravel_index(np.argmax(np.abs(B)), B.shape)
    if abs(A[i]) < tol:
        return False
    ph = A[i] / B[i]
    return abs(abs(ph) - 1) < 1e-7 and bool(np.all(np.abs(A - ph * B) <= tol))


def placements(name, n):
    """Every ordered tuple of distinct qubits."""
    return itertools.permutations(range(n), GATES[name][0])


def generic(n):
    """Gates preparing a dense, asymmetric, complex state."""
    ops = []
    for i in range(n):
        ops.append(["RY", [0.5 + 0.37 * i], [i], None, None])
        ops.append(["RZ", [0.9 - 0.53 * i], [i], None, None])
    for i in range(n - 1):
        ops.append(["CX", [], [i, i + 1], None, None])
        ops.append(["RX", [0.3 + 0.21 * i], [i + 1], None, None])
    return ops


def alphabet(n, names=None):
    """One generic instance of every gate on every ordered tuple of qubits."""
    out = []
    for g in names or GATES:
        nq, npar = GATES[g]
        if nq > n:
            continue
        for qs in placements(g, n):
            out.append([g, list(DEF[npar]), list(qs), None, None])
    return out


def compositions(n, maxparts=3):
    """Register layouts: ordered ways of writing n as a sum."""
    if n == 0:
        return
    for k in range(1, maxparts + 1):
        for cut in itertools.combinations(range(1, n), k - 1):
            c = (0,) + cut + (n,)
            yield [c[i + 1] - c[i] for i in range(k)]


WIDE = (10, 11, 12, 17, 33, 65, 130, 101, 127, 128, 129, 256, 257, 300)  # widths whose positions have several digits


def spread(gate, n, gap=None):
    """Placements of a gate on a wide circuit: every ordered tuple of positions around
    the ends of the circuit and around every change in the number of digits."""
    k = GATES[gate][0] if isinstance(gate, str) else gate
    pos = sorted({p for p in (0, 1, 2, 8, 9, 10, 11, 99, 100, n - 2, n - 1) if 0 <= p < n})
    if k == 3:
        pos = [p for p in pos if p in (0, 2, 9, 10, 11, 100, n - 1)]
    return list(itertools.permutations(pos, k))


def wide_ops(n):
    """One long program with every gate on every such tuple, with distinct parameters."""
    out = []
    for g, (k, p) in GATES.items():
        for j, qs in enumerate(spread(g, n)):
            out.append([g, [round(0.1 * (j + 1) * (i + 1), 3) for i in range(p)], list(qs), None, None])
    return out


def wide_layouts(n):
    return [[n], [1] * n, [9, n - 9], [n - 9, 9], [0, 5, 0, n - 5, 0], [1, 2, 3, n - 6]]
