"""C23: generated simulator kernels apply exactly the operator they are generated for."""
import ctypes
import importlib.util
import itertools
import os
import subprocess
import sys

import numpy as np

from mc import env
from mc.core import Violation, require

PROPERTY = "C23"
RULE = (
    "the generator is run for every number of targets and controls of the stated sum, for operators given at run time, "
    "masked or compiled in, plain, collecting the norm or scaling the result, in both qubit orderings; everything "
    "generated is compiled and executed on every ordered placement of its qubits in every stated width, on a dense "
    "state and on every basis state, and compared with the embedded operator; every generated operator set (those "
    "shipped and a menu) on every placement with every answer of a grid to the random draw, with and without applying "
    "the operator; every incomplete set of a menu must be refused"
)
BOUNDS = {
    "quick": dict(extra=1, grid=32, sets=(0, 1, 2)),
    "thorough": dict(extra=3, grid=64, sets=(0, 1, 2, 3, 4)),
}
ASSUMPTIONS = [
    "operators compiled in have real entries (as documented)",
    "the first target is the least significant bit of the operator's index",
    "operator sets without controls",
]
EXPECT_OUTCOMES = ("runtime", "mask", "compiled", "norm", "scale", "set", "refused")
G = {}


# ------------------------------------------------------------------ the menu
def real(size, seed):
    """A dense real matrix, with entries which are exactly representable."""
    i, j = np.meshgrid(np.arange(size), np.arange(size), indexing="ij")
    return ((3 * i + 5 * j + seed) % 11 - 4.5) / 8


def compiled_menu(t):
    d = 2 ** t
    yield "identity", np.eye(d)
    yield "dense", real(d, 1)
    yield "zero", np.zeros((d, d))
    yield "reverse", np.eye(d)[::-1].copy()
    yield "shift", np.roll(np.eye(d), 1, axis=0)
    yield "diag", np.diag(np.arange(1, d + 1) / 4)
    yield "upper", np.triu(real(d, 2))
    yield "lower", np.tril(real(d, 3))
    p = np.zeros((d, d))
    p[-1, -1] = 1
    yield "last", p
    p = np.eye(d)
    p[0, 0] = -1
    yield "minus", p
    tiny = [1e-9, 1.0, -3e-13, 1e-40, 1e-160, 0.5, -1e-7, 2e-16]
    yield "tiny", np.diag([tiny[i % 8] for i in range(d)])
    yield "tinyshift", np.roll(np.diag([tiny[-i % 8] for i in range(d)]), 1, axis=0)
    yield "integer", np.arange(d * d).reshape(d, d) - 2
    p = np.eye(d)
    p[0, -1] = 0.5
    yield "sparse", p


def mask_menu(t):
    d = 2 ** t
    if t == 1:
        for m in itertools.product((0, 1), repeat=4):
            yield np.array(m).reshape(2, 2)
        return
    yield np.eye(d)
    yield np.eye(d)[::-1].copy()
    yield np.triu(np.ones((d, d)))
    yield np.tril(np.ones((d, d)))
    m = np.ones((d, d))
    m[1] = 0
    yield m
    m = np.ones((d, d))
    m[:, 1] = 0
    yield m
    yield np.roll(np.eye(d), 1, axis=0)


def configs():
    """(kind, number of targets, number of controls, matrix or mask, norm, scale)"""
    out = []
    for t in (1, 2, 3):
        for k in (0, 1, 2, 3):
            if t + k > 4:
                continue
            out.append(("runtime", t, k, None, False, False))
            out.append(("runtime", t, k, None, False, True))
            out.append(("runtime", t, k, None, True, False))
            if t + k <= 3:
                for m in mask_menu(t):
                    out.append(("mask", t, k, m, False, False))
            for name, m in compiled_menu(t):
                if t == 3 and name in ("integer", "dense", "upper", "lower") and k:
                    continue
                out.append(("compiled", t, k, m, False, False))
                out.append(("compiled", t, k, m, True, False))
                out.append(("compiled", t, k, m, False, True))
    # rows and columns of several digits, and more controls
    for t, k in ((4, 0), (4, 1), (5, 0)):
        out.append(("runtime", t, k, None, False, False))
        out.append(("runtime", t, k, None, True, False))
        d = 2 ** t
        for m in (np.triu(np.ones((d, d))), np.roll(np.eye(d), 3, axis=0), real(d, 1) > 0.1):
            out.append(("mask", t, k, m, False, False))
        for m in (np.roll(np.eye(d), 3, axis=0), np.diag(np.arange(1, d + 1) / 4), np.where(real(d, 1) > 0.1, real(d, 4), 0)):
            out.append(("compiled", t, k, m, False, False))
            out.append(("compiled", t, k, m, True, False))
            out.append(("compiled", t, k, m, False, True))
    for k in (4, 5):
        out.append(("runtime", 1, k, None, False, False))
        out.append(("compiled", 1, k, real(2, 1), False, True))
    return out


def op_sets():
    s = np.sqrt
    P = [np.diag([1.0, 0, 0, 0]), np.diag([0, 1.0, 0, 0]), np.diag([0, 0, 1.0, 0]), np.diag([0, 0, 0, 1.0])]
    X, Z, I = np.array([[0, 1.0], [1, 0]]), np.diag([1.0, -1]), np.eye(2)
    H = np.array([[1, 1], [1, -1]]) / s(2)
    return [
        ("m_x", 1, [H @ np.diag([1, 0]) @ H, H @ np.diag([0, 1]) @ H]),
        ("m_two", 2, P),
        ("parity", 2, [P[0] + P[3], P[1] + P[2]]),
        ("flip", 1, [s(0.7) * I, s(0.2) * X, s(0.1) * Z]),
        ("single", 1, [X]),
        ("decay", 1, [np.array([[1, 0], [0, s(0.75)]]), np.array([[0, s(0.25)], [0, 0]])]),
        ("swapped", 2, [s(0.5) * np.eye(4), s(0.5) * np.eye(4)[[0, 2, 1, 3]]]),
        ("m_three", 3, [np.outer(e, e) for e in np.eye(8)]),
        ("twelve", 2, [s((i + 1) / 78) * np.roll(np.diag([1.0, -1, 1, 1]), i, axis=0) for i in range(12)]),
        ("integers", 1, [np.array([[0, 0], [0, 1]]), np.array([[1, 0], [0, 0]])]),
    ]


eps = 0.01
SHIPPED = {
    "measurement_computational_basis": [np.diag([1.0, 0]), np.diag([0, 1.0])],
    "dephase_noise": [np.sqrt(1 - eps) * np.eye(2), np.sqrt(eps) * np.diag([1.0, -1])],
    "amplitude_dampening_noise": [
        np.array([[1, 0], [0, np.sqrt(1 - eps)]]), np.array([[0, np.sqrt(eps)], [0, 0]])],
}
SHIPPED_GATES = {  # targets, controls, operator (None: given at run time)
    "single_qubit": (1, 0, None),
    "apply_gate_control": (1, 1, None),
    "apply_gate_two_control": (1, 2, None),
    "apply_swap": (2, 0, np.eye(4)[[0, 2, 1, 3]]),
    "apply_cswap": (2, 1, np.eye(4)[[0, 2, 1, 3]]),
}
BAD_SETS = [
    (1, [np.diag([1.0, 0])]),
    (1, [np.eye(2), np.diag([0, 1.0])]),
    (1, [0.5 * np.eye(2), 0.5 * np.eye(2)]),
    (1, [np.array([[1.0, 0], [0, 1.001]])]),
    (1, [np.array([[0, 1.0], [0, 0]]), np.array([[0, 1.0], [0, 0]])]),
    (2, [np.eye(4), 0.1 * np.eye(4)]),
    (2, [np.diag([1.0, 1, 1, 0])]),
    (1, [np.array([[1.0, 1], [0, 1]])]),
]


def off_by(t, i, j, d):
    """Operators whose products sum to the identity but for one (pair of) entries."""
    S = np.eye(2 ** t)
    S[i, j] += d
    S[j, i] = S[i, j]
    K = np.linalg.cholesky(S).T
    return [K], [K / np.sqrt(2), np.roll(K, 1, axis=0) / np.sqrt(2)]


for _t in (1, 2):
    for _i, _j in itertools.combinations_with_replacement(range(2 ** _t), 2):
        for _d in (0.3, -0.3, 1e-3, -1e-3):
            BAD_SETS += [(_t, _s) for _s in off_by(_t, _i, _j, _d)]


# ------------------------------------------------------------------ building
def prepare():
    d = env.scratch_dir("mc-kern-")
    path = os.path.join(env.REPO, "dwave/gate/simulator/operation_generation.py")
    spec = importlib.util.spec_from_file_location("_opgen", path)
    gen = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gen)
    G["gen"] = gen

    text = ["#include <complex>", "#include <complex.h>", "#include <algorithm>", "#include <cstdint>", 'extern "C" {']
    for i, (kind, t, k, m, norm, scale) in enumerate(configs()):
        kw = {}
        if kind == "mask":
            kw["sparse_gate_mask"] = m
        if kind == "compiled":
            kw["precompile_gate"] = m
        for little in (False, True):
            info = gen.generate_op_c_code(
                "f%d_%d" % (i, little), t, k, little_endian=little, collect_norm=norm,
                provide_amplitude_scale_factor=scale, **kw)
            text.append(str(info.function_definition))
    text.append("}")
    cpp, so = os.path.join(d, "kern.cpp"), os.path.join(d, "kern.so")
    with open(cpp, "w") as f:
        f.write("\n".join(text))
    run(["g++", "-std=c++17", "-O1", "-w", "-shared", "-fPIC", cpp, "-o", so], d)
    G["so"] = so

    # the shipped operations and a menu of operator sets, through Cython
    os.makedirs(os.path.join(d, "dwave/gate/simulator"))
    run([env.PY, path], d)
    src = os.path.join(d, "dwave/gate/simulator")
    with open(os.path.join(src, "ops.h")) as f:
        h = f.read()
    with open(os.path.join(src, "ops.pxd")) as f:
        pxd = f.read()
    hs, py = [], []
    wrappers = []
    for name, t, ops in op_sets():
        info = gen.generate_op_set("menu_" + name, t, 0, ops)
        h += "\n" + info.function_definition + "\n"
        hs.append(info.cython_header)
        py.append(info.cython_function)
        wrappers.append(("menu_" + name, t, 0, True))
    for name in SHIPPED:
        if "cdef inline %s(" % name in pxd:
            wrappers.append((name, 1, 0, True))
    for name, (t, k, _) in SHIPPED_GATES.items():
        if "cdef inline %s(" % name in pxd:
            wrappers.append((name, t, k, False))
    G["wrapped"] = {w[0] for w in wrappers}
    pyx = (pxd + '\n\ncdef extern from "./ops.h" nogil:\n' + "\n\n".join(hs) + "\n\n" + "\n".join(py) + "\n")
    for name, t, k, is_set in wrappers:
        q = ", ".join("q[%d]" % i for i in range(t + k))
        if is_set:
            pyx += ("def w_%s(n, complex[::1] v, q, rng, little, applied):\n"
                    "    return %s(n, v, %s, rng, little_endian=little, apply_operator=applied)\n" % (name, name, q))
        else:
            pyx += ("def w_%s(n, complex[::1] v, complex[:, :] m, q, little):\n"
                    "    return %s(n, v, m, %s, little_endian=little)\n" % (name, name, q))
    with open(os.path.join(d, "ops.h"), "w") as f:
        f.write(h)
    with open(os.path.join(d, "mckern.pyx"), "w") as f:
        f.write(pyx.replace("include_dirs = dwave/gate/simulator/", "include_dirs = ."))
    with open(os.path.join(d, "setup.py"), "w") as f:
        f.write(
            "from setuptools import setup, Extension\nfrom Cython.Build import cythonize\nimport numpy\n"
            "setup(ext_modules=cythonize([Extension('mckern', ['mckern.pyx'], language='c++', include_dirs=['.', "
            "numpy.get_include()], extra_compile_args=['-std=c++17', '-O1', '-w'])], quiet=True))\n")
    run([env.PY, "setup.py", "-q", "build_ext", "--inplace"], d)
    sys.path.insert(0, d)
    import mckern

    G["kern"] = mckern


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=env._env(), capture_output=True, text=True)
    if r.returncode:
        raise Violation("%s fails: %s" % (" ".join(cmd[:3]), r.stderr[-600:]))


def lib():
    if "lib" not in G:
        G["lib"] = ctypes.CDLL(G["so"])
    return G["lib"]


# ------------------------------------------------------------------ reference
def embed(M, targets, controls, n, little):
    """The matrix acting as M on the targets (the first one being the least significant bit
    of M's index) exactly where all controls are 1, and the projector on those states."""
    D = 2 ** n
    pos = (lambda q: q) if little else (lambda q: n - 1 - q)
    F = np.zeros((D, D), dtype=complex)
    on = np.zeros(D, dtype=bool)
    for j in range(D):
        if not all(j >> pos(c) & 1 for c in controls):
            F[j, j] = 1
            continue
        on[j] = True
        col = sum((j >> pos(t) & 1) << a for a, t in enumerate(targets))
        base = j
        for t in targets:
            base &= ~(1 << pos(t))
        for row in range(2 ** len(targets)):
            i = base
            for a, t in enumerate(targets):
                if row >> a & 1:
                    i |= 1 << pos(t)
            F[i, j] += M[row, col]
    return F, on


def dense(n):
    k = np.arange(2 ** n)
    v = np.cos(1.3 * k + 0.2) + 1j * np.sin(0.7 * k * k + 0.4) + 0.1
    return v / np.linalg.norm(v)


def runtime_gate(t):
    d = 2 ** t
    i, j = np.meshgrid(np.arange(d), np.arange(d), indexing="ij")
    return np.ascontiguousarray(np.cos(1.1 * i + 2.3 * j + 0.3) + 1j * np.sin(0.9 * i - 1.7 * j + 0.1))


# ------------------------------------------------------------------ cases
def generate(b):
    for i, (kind, t, k, m, norm, scale) in enumerate(configs()):
        for n in range(t + k, min(t + k + b["extra"] - (t + k > 4), 6) + 1):
            yield ["kernel", i, n]
    for name in sorted(SHIPPED_GATES):
        t, k, _ = SHIPPED_GATES[name]
        for n in range(t + k, t + k + b["extra"] + 1):
            yield ["gate", name, n]
    for i, (name, t, ops) in enumerate(op_sets()):
        for e in b["sets"]:
            yield ["set", "menu_" + name, t + e, b["grid"]]
    for name in sorted(SHIPPED):
        for e in b["sets"]:
            yield ["set", name, 1 + e, b["grid"]]
    for i in range(len(BAD_SETS)):
        yield ["bad", i]


PV = ctypes.c_void_p


def call(i, n, v, gate, qubits, little, norm, scale):
    f = getattr(lib(), "f%d_%d" % (i, little))
    f.restype = ctypes.c_double if norm else None
    args = [ctypes.c_uint64(n), PV(v.ctypes.data), PV(gate.ctypes.data)]
    args += [ctypes.c_uint64(q) for q in qubits]
    if scale is not None:
        args.append(ctypes.c_double(scale))
    return f(*args)


def run_case(case, cov):
    what = case[0]
    if what == "kernel":
        return kernel(case, cov)
    if what == "gate":
        return gate(case, cov)
    if what == "set":
        return opset(case, cov)
    t, ops = BAD_SETS[case[1]]
    try:
        G["gen"].generate_op_set("bad", t, 0, ops)
    except Exception:
        cov.outcome("refused")
        cov.step()
        return
    raise Violation("an incomplete set of operators is accepted: %s" % [o.tolist() for o in ops])


def states(n):
    yield dense(n)
    if n <= 3:
        for k in range(2 ** n):
            v = np.zeros(2 ** n, dtype=complex)
            v[k] = 1
            yield v


def close(got, exp, v):
    """Also relatively to the entry where there is a single term."""
    if np.count_nonzero(v) == 1:
        return np.allclose(got, exp, atol=1e-300, rtol=1e-9)
    return np.allclose(got, exp, atol=1e-9, rtol=0)


def kernel(case, cov):
    _, i, n = case
    kind, t, k, m, norm, scale = configs()[i]
    gate = runtime_gate(t)
    M = m if kind == "compiled" else gate * m if kind == "mask" else gate
    factor = 1.75 if scale else None
    for qs in itertools.permutations(range(n), t + k):
        for little in (False, True):
            F, on = embed(M, qs[:t], qs[t:], n, little)
            for v in states(n):
                got = v.copy()
                g = gate.copy()
                r = call(i, n, got, g, qs, little, norm, factor)
                cov.step()
                exp = F @ v
                txt = lambda: "%s operator %s on %s controlled by %s of %d (little_endian=%s, norm=%s, scale=%s)" % (
                    kind, M.tolist(), qs[:t], qs[t:], n, little, norm, factor)
                require(np.array_equal(g, gate), lambda: txt() + ": changes the gate matrix")
                if norm:
                    require(np.array_equal(got, v), lambda: txt() + ": changes the state")
                    e = np.linalg.norm(exp[on]) ** 2
                    require(abs(r - e) < 1e-9 and (np.count_nonzero(v) > 1 or abs(r - e) <= 1e-9 * e + 1e-300), lambda: "%s: norm %r instead of %r" % (txt(), r, e))
                else:
                    if scale:
                        exp = np.where(on, factor * exp, exp)
                    require(close(got, exp, v), lambda: "%s: %s instead of %s" % (txt(), got, exp))
                cov.state(i, little, qs, n)
    cov.outcome("norm" if norm else "scale" if scale else kind)


def gate(case, cov):
    _, name, n = case
    if name not in G["wrapped"]:
        return
    t, k, M = SHIPPED_GATES[name]
    g = runtime_gate(t)
    M = g if M is None else M
    f = getattr(G["kern"], "w_" + name)
    for qs in itertools.permutations(range(n), t + k):
        for little in (False, True):
            F, _ = embed(M, qs[:t], qs[t:], n, little)
            for v in states(n):
                got = v.copy()
                f(n, got, g.copy(), qs, little)
                cov.step()
                exp = F @ v
                require(close(got, exp, v),
                        lambda: "%s on %s of %d (little_endian=%s): %s instead of %s"
                        % (name, qs, n, little, np.round(got, 5), np.round(exp, 5)))
    cov.state("gate", name, n)


def opset(case, cov):
    _, name, n, N = case
    if name not in G["wrapped"]:
        return
    if name in SHIPPED:
        t, ops = 1, SHIPPED[name]
    else:
        t, ops = next((t, o) for x, t, o in op_sets() if "menu_" + x == name)
    f = getattr(G["kern"], "w_" + name)
    Scripted = env.make_scripted()
    for qs in itertools.permutations(range(n), t):
        for little in (False, True):
            E = [embed(M, qs, (), n, little)[0] for M in ops]
            for v in states(n):
                P = [np.linalg.norm(e @ v) ** 2 for e in E]
                count = [0] * len(ops)
                for a in range(N):
                    for applied in (False, True):
                        got = v.copy()
                        r = f(n, got, qs, Scripted([(a + 0.5) / N], default=0.5), little, applied)
                        cov.step()
                        txt = lambda: "%s on %s of %d (little_endian=%s, apply=%s, answer %d of %d) returns %r" % (
                            name, qs, n, little, applied, a, N, r)
                        require(r in range(len(ops)) and P[r] > 1e-12, lambda: txt() + ", an impossible operator")
                        exp = E[r] @ v / np.sqrt(P[r]) if applied else v
                        require(np.allclose(got, exp, atol=1e-9, rtol=0),
                                lambda: "%s and leaves %s instead of %s" % (txt(), np.round(got, 5), np.round(exp, 5)))
                        if applied:
                            count[r] += 1
                for k, p in enumerate(P):
                    require(abs(count[k] - N * p) < 1 + 1e-6,
                            lambda: "%s on %s of %d: operator %d chosen by %d of %d answers, probability %.5f"
                            % (name, qs, n, k, count[k], N, p))
            cov.state(name, n, qs, little)
    cov.outcome("set")
