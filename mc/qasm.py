"""An independent OpenQASM 2.0 reader (grammar of the OpenQASM 2.0 paper, with the
gates of qelib1.inc). Returns registers, definitions and the flat list of operations."""
import math
import re

import numpy as np

from . import ref


class QasmError(Exception):
    pass


TOKEN = re.compile(
    r"\s+|//[^\n]*|(?P<real>(\d+\.\d*|\.\d+|\d+)([eE][-+]?\d+)|\d+\.\d*|\.\d+)|(?P<int>\d+)"
    r"|(?P<id>[a-z][A-Za-z0-9_]*)|(?P<kw>OPENQASM|U|CX)|(?P<str>\"[^\"\n]*\")|(?P<sym>->|==|[;,{}()\[\]+\-*/^])"
)

# qelib1.inc: name -> (parameters, qubits, matrix)
def _m(name, k):
    return (ref.GATES[name][1], ref.GATES[name][0], lambda *p, n=name: ref.matrix(n, p))


QELIB = {
    "id": _m("Identity", 1), "x": _m("X", 1), "y": _m("Y", 1), "z": _m("Z", 1), "h": _m("Hadamard", 1),
    "s": _m("S", 1), "t": _m("T", 1), "rx": _m("RX", 1), "ry": _m("RY", 1), "rz": _m("RZ", 1),
    "cx": _m("CX", 2), "cy": _m("CY", 2), "cz": _m("CZ", 2), "ch": _m("CHadamard", 2), "crx": _m("CRX", 2),
    "cry": _m("CRY", 2), "crz": _m("CRZ", 2), "ccx": _m("CCX", 3), "swap": _m("SWAP", 2), "cswap": _m("CSWAP", 3),
    "sdg": (0, 1, lambda: np.diag([1, -1j])),
    "tdg": (0, 1, lambda: np.diag([1, np.exp(-0.25j * math.pi)])),
}
# gates whose definition the documentation leaves to the user
DOCUMENTED = {"rot": _m("Rotation", 1), "crot": _m("CRotation", 2)}


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise QasmError("unexpected %r" % text[i:i + 20])
        i = m.end()
        if m.lastgroup:
            kind = m.lastgroup if m.lastgroup in ("real", "int", "id", "kw", "str", "sym") else "real"
            out.append((kind, m.group(kind)))
    out.append(("end", ""))
    return out


class Reader:
    def __init__(self, text, extra=None):
        self.t = tokens(text)
        self.i = 0
        self.qregs, self.cregs, self.defs = [], [], {}
        self.ops = []  # (name, params, flat qubits)
        self.gates = dict(QELIB)
        self.gates.update(extra or {})
        self.extra = set(extra or {})
        self.size = {}
        self.program()

    # tokens
    def peek(self):
        return self.t[self.i][1]

    def kind(self):
        return self.t[self.i][0]

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, s):
        k, v = self.next()
        if v != s:
            raise QasmError("expected %r, found %r" % (s, v))
        return v

    def ident(self):
        k, v = self.next()
        if k != "id":
            raise QasmError("expected an identifier, found %r" % v)
        return v

    # grammar
    def program(self):
        self.eat("OPENQASM")
        if self.next()[1] != "2.0":
            raise QasmError("version")
        self.eat(";")
        included = False
        while self.kind() != "end":
            v = self.peek()
            if v == "include":
                self.next()
                if self.next()[1] != '"qelib1.inc"':
                    raise QasmError("unknown include")
                self.eat(";")
                included = True
            elif v in ("qreg", "creg"):
                self.register()
            elif v == "gate":
                self.definition()
            elif v in ("measure", "reset", "barrier", "if", "opaque"):
                raise QasmError("unexpected statement %s" % v)
            else:
                if not included:
                    raise QasmError("gates used before qelib1.inc is included")
                self.ops.append(self.call(self.qubit))

    def register(self):
        what = self.next()[1]
        name = self.ident()
        self.eat("[")
        k, n = self.next()
        if k != "int":
            raise QasmError("register size %r" % n)
        self.eat("]")
        self.eat(";")
        if name in self.size:
            raise QasmError("register %s declared twice" % name)
        self.size[name] = (what, int(n), sum(s for _, s in self.qregs))
        (self.qregs if what == "qreg" else self.cregs).append((name, int(n)))

    def qubit(self):
        name = self.ident()
        if name not in self.size or self.size[name][0] != "qreg":
            raise QasmError("no quantum register %s" % name)
        self.eat("[")
        k, n = self.next()
        self.eat("]")
        if k != "int" or int(n) >= self.size[name][1]:
            raise QasmError("no qubit %s[%s]" % (name, n))
        return self.size[name][2] + int(n)

    def call(self, arg, env=None):
        name = self.ident()
        if name not in self.gates:
            raise QasmError("unknown gate %s" % name)
        np_, nq, _ = self.gates[name]
        params = []
        if self.peek() == "(":
            self.next()
            while self.peek() != ")":
                params.append(self.expr(env or {}))
                if self.peek() != ")":
                    self.eat(",")
            self.eat(")")
        qs = [arg()]
        while self.peek() == ",":
            self.next()
            qs.append(arg())
        self.eat(";")
        if len(params) != np_ or len(qs) != nq:
            raise QasmError("%s called with %d parameters and %d qubits" % (name, len(params), len(qs)))
        if len(set(qs)) != len(qs):
            raise QasmError("%s called on repeated qubits" % name)
        return (name, params, qs)

    def definition(self):
        self.eat("gate")
        name = self.ident()
        if name in self.defs:
            raise QasmError("gate %s defined twice" % name)
        ps, qs = [], []
        if self.peek() == "(":
            self.next()
            while self.peek() != ")":
                ps.append(self.ident())
                if self.peek() != ")":
                    self.eat(",")
            self.eat(")")
        qs.append(self.ident())
        while self.peek() == ",":
            self.next()
            qs.append(self.ident())
        self.eat("{")
        body = []
        while self.peek() != "}":
            start = self.i

            def arg():
                a = self.ident()
                if a not in qs:
                    raise QasmError("unknown argument %s in the definition of %s" % (a, name))
                if self.peek() == "[":
                    raise QasmError("indexed argument in the definition of %s" % name)
                return qs.index(a)

            self.call(arg, {p: 0.5 for p in ps})
            body.append((start, self.i))
        self.eat("}")
        if len(set(ps + qs)) != len(ps + qs):
            raise QasmError("repeated argument in the definition of %s" % name)

        gates = dict(self.gates)

        def matrix(*vals):
            U = np.eye(2 ** len(qs), dtype=complex)
            save, g = self.i, self.gates
            self.gates = gates
            for a, b in body:
                self.i = a
                n, p, q = self.call(lambda: qs.index(self.ident()), dict(zip(ps, vals)))
                U = ref.apply(U, np.asarray(gates[n][2](*p)), q, len(qs))
            self.i, self.gates = save, g
            return U

        self.defs[name] = (len(ps), len(qs), matrix)
        self.gates[name] = self.defs[name]

    def expr(self, env):
        v = self.term(env)
        while self.peek() in ("+", "-"):
            o = self.next()[1]
            w = self.term(env)
            v = v + w if o == "+" else v - w
        return v

    def term(self, env):
        v = self.power(env)
        while self.peek() in ("*", "/"):
            o = self.next()[1]
            w = self.power(env)
            v = v * w if o == "*" else v / w
        return v

    def power(self, env):
        if self.peek() == "-":
            self.next()
            return -self.power(env)
        v = self.atom(env)
        if self.peek() == "^":
            self.next()
            return v ** self.power(env)
        return v

    def atom(self, env):
        k, v = self.next()
        if k == "real":
            return float(v)
        if k == "int":
            return int(v)
        if v == "(":
            r = self.expr(env)
            self.eat(")")
            return r
        if v == "pi":
            return math.pi
        if v in env:
            return env[v]
        if v in ("sin", "cos", "tan", "exp", "ln", "sqrt"):
            self.eat("(")
            r = self.expr(env)
            self.eat(")")
            return {"ln": math.log}.get(v, getattr(math, v, None))(r)
        raise QasmError("unexpected %r in an expression" % v)

    def unitary(self):
        n = sum(s for _, s in self.qregs)
        U = np.eye(2 ** n, dtype=complex)
        for name, ps, qs in self.ops:
            U = ref.apply(U, np.asarray(self.gates[name][2](*ps)), qs, n)
        return U
