"""C24: QIR modules compile to exactly the instructions they hold, at any point of their life."""
import itertools
import re

from mc import qir
from mc.core import Violation, require

PROPERTY = "C24"
RULE = (
    "every history of the stated length over adding instructions (base, parametric, external declared or not, malformed, "
    "measurement, output), declaring external functions, setting return values (with and without force), compiling "
    "(plain, forced), resetting (keeping instructions or not) and reading text and bitcode; every short one repeated (single actions `many` times); external functions of other types with return values; strict and lenient compilations with right and wrong return values; modules of other names; modules with many instructions, qubits, results and external functions; "
    "modules of their own, with other flags and in a context shared with a second module compiled in between: after every "
    "reading, and at the end, the executed calls, declared functions, counts, flags and names read by an independent "
    "reader compared with a reference; what must be refused is refused without effect"
)
BOUNDS = {
    "quick": dict(depth=3, mid=4, core=5, loop=(2, 33), many=65, lax=4, sizes=(17, 65, 130, 300)),
    "thorough": dict(depth=4, mid=5, core=6, loop=(3, 6), many=130, lax=5, sizes=(9, 10, 11, 17, 33, 65, 101, 130, 257, 300, 1030)),
}
ASSUMPTIONS = [
    "every external function is declared once at a time",
    "text and bitcode describe the latest compilation; declarations which are not called are not compared",
]
EXPECT_OUTCOMES = ("read", "stale", "refused compile", "failed compile", "refused instruction", "repaired", "shared", "flags", "loop", "large", "typed", "lax", "name")
CORE = ["x", "ext", "decl", "compile", "force", "reset", "keep", "text"]
MID = CORE + ["badret", "bitcode", "meas"]
ACTS = MID + ["rx", "decl2", "ext2", "okret", "setret"]
CONFIGS = ("plain", "shared", "flags")
FOO, BAR = "foo", "bar"


def generate(b):
    for d in range(1, b["depth"] + 1):
        for acts in itertools.product(range(len(ACTS)), repeat=d):
            yield ["history", list(acts), CONFIGS[sum(acts) % 3] if d == b["depth"] else None]
    for acts in itertools.product(range(len(MID)), repeat=b["mid"]):
        yield ["history", list(acts), "plain"]
    for d in range(b["mid"] + 1, b["core"] + 1):
        for acts in itertools.product(range(len(CORE)), repeat=d):
            yield ["history", list(acts), "plain"]
    for d in range(1, b["loop"][0] + 1):
        for acts in itertools.product(range(len(ACTS)), repeat=d):
            yield ["loop", list(acts) * b["loop"][1], CONFIGS[sum(acts) % 3]]
    for a in range(len(ACTS)):
        yield ["loop", [a] * b["many"], CONFIGS[a % 3]]
    for n in b["sizes"]:
        yield ["large", n]
    for d in range(1, 5):
        for acts in itertools.product(range(len(TYPED)), repeat=d):
            yield ["typed", list(acts)]
    for d in range(1, b["lax"] + 1):
        for acts in itertools.product(range(len(LAX)), repeat=d):
            yield ["lax", list(acts)]
    for i in range(len(NAMES)):
        for d in range(3):
            for acts in itertools.product(range(len(CORE)), repeat=d):
                yield ["name", i, list(acts)]
    for i in range(len(BAD)):
        for d in range(0, 3):
            for acts in itertools.product(range(len(CORE)), repeat=d):
                yield ["bad", i, list(acts)]


BAD = [("cx", 1), ("x", 2), ("nothere", 1), ("rx", 1)]


class Pair:
    """A module and what it must compile to."""

    def __init__(self, config, name="Mod"):
        from dwave.gate.qir.compiler import BaseModule

        import pyqir

        kw = {}
        self.flags = {"qir_major_version": "i32 1", "qir_minor_version": "i32 0",
                      "dynamic_qubit_management": "i1 false", "dynamic_result_management": "i1 false"}
        self.name = name
        self.other = None
        if config == "flags":
            kw = dict(qir_major_version=2, qir_minor_version=3, dynamic_qubit_management=True, dynamic_result_management=True)
            self.flags = {"qir_major_version": "i32 2", "qir_minor_version": "i32 3",
                          "dynamic_qubit_management": "i1 true", "dynamic_result_management": "i1 true"}
            self.name = "another name"
        if config == "shared":
            ctx = pyqir.Context()
            self.m = BaseModule(self.name, 2, 2, ctx)
            self.other = BaseModule("Other", 3, 1, ctx)
            self.other.add_external_function(FOO, [self.other.Types.QUBIT])
            self.other.add_instruction("body", self.other.get_external_instruction(FOO, [self.other.qubits[2]]))
        else:
            self.m = BaseModule(self.name, 2, 2, **kw)
        self.body, self.meas, self.out = [], [], []
        self.declared = {}
        self.ret = False  # a return value the entry point cannot have
        self.compiled = None  # what the latest compilation must denote

    def expected(self):
        return [("__quantum__rt__initialize", [("i8", 0)])] + self.body + self.meas + self.out

    def read(self, text, what, cov):
        try:
            p = qir.Program(text)
        except qir.QirError as e:
            raise Violation("%s: %s: %s" % (what(), e, text))
        require((p.qubits, p.results) == (2, 2), lambda: "%s: declares %d qubits and %d results" % (what(), p.qubits, p.results))
        require(p.calls == self.compiled, lambda: "%s: calls %s instead of %s" % (what(), p.calls, self.compiled))
        flags = dict(re.findall(r'!\{i32 \d+, !"(\w+)", ([^}]*)\}', text))
        require(flags == self.flags, lambda: "%s: flags %s instead of %s" % (what(), flags, self.flags))
        escaped = "".join(chr(c) if 32 <= c < 127 and c != 34 and c != 92 else "\\\\" if c == 92 else "\\%02X" % c for c in self.name.encode())
        require('source_filename = "%s"' % escaped in text, lambda: "%s: another name: %s" % (what(), text[:200]))

    def check_other(self, what):
        if self.other is None:
            return
        self.other.compile(force=True)
        p = qir.Program(self.other.qir)
        want = [("__quantum__rt__initialize", [("i8", 0)]), ("__quantum__qis__foo__body", [("qubit", 2)])]
        require((p.qubits, p.results, p.calls) == (3, 1, want), lambda: "%s: the other module of the context calls %s" % (what(), p.calls))


def as_text(bitcode):
    import pyqir

    return str(pyqir.Module.from_bitcode(pyqir.Context(), bitcode))


def act(P, a, i, what, cov):
    from dwave.gate.qir.compiler import CompileError
    from dwave.gate.qir.instructions import Instruction, InstrType

    m = P.m

    def compile_(f):
        """f compiles unless the module is compiled; returns whether it succeeded"""
        try:
            f()
        except CompileError:
            require(P.ret, lambda: "%s: the compilation is refused" % what())
            P.compiled = None
            cov.outcome("failed compile")
            P.failed = True
            return False
        require(not P.ret, lambda: "%s: an invalid return value is accepted" % what())
        if getattr(P, "failed", False):
            cov.outcome("repaired")
        P.compiled = P.expected()
        return True

    if a == "x":
        q = i % 2
        m.add_instruction("body", Instruction(InstrType.BASE, "x", [m.qubits[q]]))
        P.body.append(("__quantum__qis__x__body", [("qubit", q)]))
    elif a == "rx":
        m.add_instruction("body", Instruction(InstrType.BASE, "rx", [0.5 + i, m.qubits[1]]))
        P.body.append(("__quantum__qis__rx__body", [("double", 0.5 + i), ("qubit", 1)]))
    elif a == "meas":
        q, r = i % 2, (i // 2) % 2
        m.add_instruction("measurements", Instruction(InstrType.MEASUREMENT, "mz", [m.qubits[q], m.results[r]]))
        m.add_instruction("output", Instruction(InstrType.OUTPUT, "out", [m.results[r]]))
        P.meas.append(("__quantum__qis__mz__body", [("qubit", q), ("result", r)]))
        P.out.append(("__quantum__rt__result_record_output", [("result", r), ("i8", 0)]))
    elif a in ("decl", "decl2"):
        n, types = (FOO, ["DOUBLE", "QUBIT"]) if a == "decl" else (BAR, ["QUBIT", "QUBIT"])
        if n not in P.declared:
            m.add_external_function(n, [getattr(m.Types, t) for t in types])
            P.declared[n] = types
    elif a in ("ext", "ext2"):
        n = FOO if a == "ext" else BAR
        args = [i, m.qubits[1]] if a == "ext" else [m.qubits[1], m.qubits[0]]
        vals = [("double", float(i)), ("qubit", 1)] if a == "ext" else [("qubit", 1), ("qubit", 0)]
        try:
            instr = m.get_external_instruction(n, args)
        except ValueError:
            require(n not in P.declared, lambda: "%s: a declared external function is not found" % what())
            cov.outcome("refused instruction")
        else:
            require(n in P.declared, lambda: "%s: an external function which is not declared is found" % what())
            m.add_instruction("body", instr)
            P.body.append(("__quantum__qis__%s__body" % n, vals))
    elif a == "compile":
        if P.compiled is None:
            compile_(m.compile)
        else:
            try:
                m.compile()
                require(False, lambda: "%s: compiled twice without force" % what())
            except CompileError:
                cov.outcome("refused compile")
    elif a == "force":
        compile_(lambda: m.compile(force=True))
    elif a in ("reset", "keep"):
        if a == "reset":
            m.reset()
            P.body, P.meas, P.out = [], [], []
            P.declared = {}
            P.ret = False
        else:
            m.reset(rm_instructions=False)
        P.compiled = None
        P.failed = False
    elif a in ("text", "bitcode"):
        if P.compiled is not None and P.compiled != P.expected():
            cov.outcome("stale")
        for _ in range(2):
            got = []
            read = (lambda: got.append(m.qir)) if a == "text" else (lambda: got.append(m.bitcode))
            if P.compiled is None:
                if not compile_(read):
                    continue
            else:
                read()
            P.read(got[0] if a == "text" else as_text(got[0]), what, cov)
            cov.outcome("read")
    elif a in ("badret", "setret"):
        import pyqir

        cmd = pyqir.const(m.Types.INT64, 3 + i)
        if a == "badret":
            m.set_return(cmd, force=True)
        else:
            try:
                m.set_return(cmd)
                require(not P.ret, lambda: "%s: a return value is replaced without force" % what())
            except ValueError:
                require(P.ret, lambda: "%s: a return value is refused" % what())
        P.ret = True
    elif a == "okret":
        m.set_return(None, force=True)
        P.ret = False


def run_case(case, cov):
    if case[0] == "bad":
        return bad(case[1], case[2], cov)
    if case[0] == "large":
        return large(case[1], cov)
    if case[0] == "typed":
        return typed(case[1], cov)
    if case[0] == "lax":
        return lax(case[1], cov)
    if case[0] == "name":
        return named(case[1], case[2], cov)
    _, acts, config = case
    for c in (config,) if config else CONFIGS:
        P = Pair(c)
        for i, a in enumerate(acts):
            what = lambda: "module (%s) after %s" % (c, [ACTS[x] for x in acts[: i + 1]])  # noqa: E731
            act(P, ACTS[a], i, what, cov)
            if c == "shared":
                P.check_other(what)
            cov.state(c, repr(P.expected()), repr(P.compiled), sorted(P.declared), P.ret)
            cov.step()
        finish(P, len(acts), lambda: "module (%s) after %s" % (c, [ACTS[x] for x in acts]), cov)
        cov.outcome(c)
    if case[0] == "loop":
        cov.outcome("loop")


NAMES = ["my.module", "a b", "ünï", '"q"', "a\\b", "a/b.ll", "%d", "0", "x\ny", "other.0", "n" * 300]


def named(i, acts, cov):
    """Modules of any name."""
    P = Pair("plain", NAMES[i])
    for j, a in enumerate(acts):
        what = lambda: "module %r after %s" % (NAMES[i], [CORE[x] for x in acts[: j + 1]])  # noqa: E731
        act(P, CORE[a], j, what, cov)
        require(P.m.name == NAMES[i], lambda: "%s: called %r" % (what(), P.m.name))
        cov.step()
    finish(P, len(acts), lambda: "module %r after %s" % (NAMES[i], [CORE[x] for x in acts]), cov)
    require(P.m.name == NAMES[i], lambda: "module %r is called %r at the end" % (NAMES[i], P.m.name))
    cov.state("name", i, tuple(acts))
    cov.outcome("name")


LAX = ("x", "badret", "okret", "lax", "laxforce", "force", "keep", "text")


def lax(acts, cov):
    """Compiling without being strict accepts what is wrong, compiling strictly does not, in any order."""
    import pyqir

    from dwave.gate.qir.compiler import BaseModule, CompileError
    from dwave.gate.qir.instructions import Instruction, InstrType

    m = BaseModule("Lax", 2, 1)
    what = lambda: "module after %s" % [LAX[a] for a in acts]  # noqa: E731
    body, ret, compiled = [], None, None

    def attempt(f, may_fail, refused, i):
        nonlocal compiled
        try:
            f()
        except CompileError:
            require(refused or may_fail, lambda: "%s: step %d is refused" % (what(), i))
            if not refused:
                compiled = None
            return False
        require(not refused and not may_fail, lambda: "%s: step %d is accepted" % (what(), i))
        return True

    def read(i):
        nonlocal compiled
        if compiled is None:
            if not attempt(lambda: m.qir, ret is not None, False, i):
                return
            compiled = (list(body), ret)
        for text in (m.qir, as_text(m.bitcode)):
            p = qir.Program(text)
            require(p.calls[1:] == compiled[0], lambda: "%s: step %d: calls %s instead of %s" % (what(), i, p.calls[1:], compiled[0]))
            last = [x.strip() for x in text.split("\n") if x.strip().startswith("ret ")]
            require(last == ["ret void" if compiled[1] is None else "ret i64 %d" % compiled[1]], lambda: "%s: step %d: returns %s" % (what(), i, last))

    for i, a in enumerate([LAX[a] for a in acts] + ["text", "laxforce", "text", "okret", "force", "text"]):
        if a == "x":
            m.add_instruction("body", Instruction(InstrType.BASE, "x", [m.qubits[i % 2]]))
            body.append(("__quantum__qis__x__body", [("qubit", i % 2)]))
        elif a == "badret":
            ret = 3 + i
            m.set_return(pyqir.const(m.Types.INT64, ret), force=True)
        elif a == "okret":
            ret = None
            m.set_return(None, force=True)
        elif a == "lax":
            if attempt(lambda: m.compile(strict=False), False, compiled is not None, i):
                compiled = (list(body), ret)
        elif a == "laxforce":
            attempt(lambda: m.compile(force=True, strict=False), False, False, i)
            compiled = (list(body), ret)
        elif a == "force":
            if attempt(lambda: m.compile(force=True), ret is not None, False, i):
                compiled = (list(body), ret)
        elif a == "keep":
            m.reset(rm_instructions=False)
            compiled = None
        else:
            read(i)
        cov.step()
    cov.state("lax", tuple(acts))
    cov.outcome("lax")


def large(n, cov):
    """Many instructions, qubits, results and external functions."""
    from dwave.gate.qir.compiler import BaseModule
    from dwave.gate.qir.instructions import Instruction, InstrType

    what = lambda: "module with %d instructions" % n  # noqa: E731
    m = BaseModule("Mod", n, n)
    q, r = list(m.qubits), list(m.results)
    ext = ["f%d" % i for i in range(n)]
    for rounds in range(2):
        body, meas, out = [], [], []
        for f in ext:
            m.add_external_function(f, [m.Types.DOUBLE, m.Types.QUBIT])
        for i in range(n):
            j = (7 * i + 3) % n
            m.add_instruction("body", Instruction(InstrType.BASE, "rx", [0.5 + i, q[i]]))
            body.append(("__quantum__qis__rx__body", [("double", 0.5 + i), ("qubit", i)]))
            m.add_instruction("body", m.get_external_instruction(ext[j], [float(i), q[j]]))
            body.append(("__quantum__qis__f%d__body" % j, [("double", float(i)), ("qubit", j)]))
            m.add_instruction("measurements", Instruction(InstrType.MEASUREMENT, "mz", [q[i], r[j]]))
            meas.append(("__quantum__qis__mz__body", [("qubit", i), ("result", j)]))
            m.add_instruction("output", Instruction(InstrType.OUTPUT, "out", [r[j]]))
            out.append(("__quantum__rt__result_record_output", [("result", j), ("i8", 0)]))
        want = [("__quantum__rt__initialize", [("i8", 0)])] + body + meas + out
        for i, text in enumerate((m.qir, as_text(m.bitcode))):
            p = qir.Program(text)
            require((p.qubits, p.results) == (n, n), lambda: "%s declares %d qubits and %d results" % (what(), p.qubits, p.results))
            require(p.calls == want, lambda: "%s: call %s" % (what(), next(
                ((k, a, b) for k, (a, b) in enumerate(itertools.zip_longest(p.calls, want)) if a != b))))
        m.reset()
        cov.step(4 * n)
    cov.state("large", n)
    cov.outcome("large")


TYPED = ("f", "g", "h", "k", "z", "y", "n", "read", "force", "keep")
KINDS = {  # return type, parameter types, arguments
    "f": ("DOUBLE", ["QUBIT"]), "g": ("INT64", ["RESULT", "DOUBLE", "QUBIT"]), "h": ("BOOL_", ["RESULT"]),
    "k": (None, ["QUBIT", "QUBIT", "DOUBLE", "DOUBLE"]), "z": (None, []), "y": ("DOUBLE", []),
    "n": (None, ["INT64", "QUBIT", "INT32", "BOOL_"]),
}
IR = {"DOUBLE": "double", "INT64": "i64", "INT32": "i32", "BOOL_": "i1", None: "void", "QUBIT": "%Qubit*", "RESULT": "%Result*"}


def typed(acts, cov):
    """External functions with return values and results as arguments keep their types whenever they are compiled."""
    from dwave.gate.qir.compiler import BaseModule

    m = BaseModule("Typed", 3, 3)
    what = lambda: "module with typed external functions after %s" % [TYPED[a] for a in acts]  # noqa: E731
    declared, want = {}, []

    def read():
        for i, text in enumerate((m.qir, as_text(m.bitcode))):
            calls, decl = [], {}
            for line in text.split("\n"):
                r = re.match(r"^declare (\S+) @__quantum__qis__(\w+)__body\((.*)\)", line)
                if r:
                    require(r.group(2) not in decl, lambda: "%s: %s is declared twice" % (what(), r.group(2)))
                    decl[r.group(2)] = (r.group(1), [a.strip() for a in r.group(3).split(",") if a.strip()])
                r = re.match(r"^\s+(%\S+ = )?(?:tail )?call (\S+) @__quantum__qis__(\w+)__body\((.*)\)", line)
                if r:
                    require(bool(r.group(1)) == (r.group(2) != "void"), lambda: "%s: %s" % (what(), line))
                    calls.append((r.group(3), r.group(2), [qir.argument(a) for a in qir.split(r.group(4))]))
            require(calls == want, lambda: "%s: calls %s instead of %s" % (what(), calls, want))
            for n, (ret, pars) in declared.items():
                if any(c[0] == n for c in calls):
                    require(decl.get(n) == (ret, pars), lambda: "%s: %s is declared as %s instead of %s" % (what(), n, decl.get(n), (ret, pars)))
        cov.step()

    held = list(want)
    for i, a in enumerate(acts):
        a = TYPED[a]
        if a in KINDS:
            ret, pars = KINDS[a]
            if a not in declared:
                kw = {} if ret is None else dict(return_type=getattr(m.Types, ret))
                m.add_external_function(a, [getattr(m.Types, p) for p in pars], **kw)
                declared[a] = (IR[ret], [IR[p] for p in pars])
            args, exp = [], []
            for j, p in enumerate(pars):
                if p == "DOUBLE":
                    args.append([i - 1, 0.25 * i][j % 2])
                    exp.append(("double", float(args[-1])))
                elif p in ("INT32", "INT64", "BOOL_"):
                    args.append([3 + i, 2 ** 30 + i, bool(i % 2)][("INT64", "INT32", "BOOL_").index(p)])
                    exp.append((IR[p], int(args[-1])))
                else:
                    args.append((m.qubits if p == "QUBIT" else m.results)[(i + j) % 3])
                    exp.append(("qubit" if p == "QUBIT" else "result", (i + j) % 3))
            m.add_instruction("body", m.get_external_instruction(a, args))
            held.append((a, IR[ret], exp))
        elif a == "read":
            m.compile(force=True, strict=bool(i % 2))
            want = list(held)
            read()
        elif a == "force":
            m.compile(force=True)
            want = list(held)
        else:
            m.reset(rm_instructions=False)
    m.compile(True)
    want = list(held)
    read()
    m.reset()
    m.compile()
    want, held = [], []
    read()
    cov.state("typed", tuple(acts))
    cov.outcome("typed")


def finish(P, i, what, cov):
    if P.ret:
        act(P, "force", i, what, cov)
    for a in ("text", "okret", "force", "text", "bitcode", "keep", "bitcode", "text"):
        if a == "text" and P.ret:
            continue
        act(P, a, i, lambda: what() + ", then " + a, cov)
        cov.step()


def bad(k, acts, cov):
    """An instruction which cannot be compiled: refused, and gone after a reset."""
    from dwave.gate.qir.instructions import Instruction, InstrType

    name, n = BAD[k]
    P = Pair("plain")
    what = lambda: "module with a bad instruction %s after %s" % (BAD[k], [ACTS[x] for x in acts])  # noqa: E731
    for i, a in enumerate(acts):
        act(P, ACTS[a], i, what, cov)
    for how in ("compile", "text", "bitcode", "force"):
        P.m.add_instruction("body", Instruction(InstrType.BASE, name, [P.m.qubits[0]] * n))
        for _ in range(2):
            try:
                if how == "compile" and P.compiled is None:
                    P.m.compile()
                elif how == "text" and P.compiled is None:
                    P.m.qir
                elif how == "bitcode" and P.compiled is None:
                    P.m.bitcode
                else:
                    P.m.compile(force=True)
            except Exception:
                cov.outcome("refused instruction")
            else:
                raise Violation("%s: it is compiled" % what())
            P.compiled = None
        act(P, "reset", 0, what, cov)
        for i, a in enumerate(["x", "decl", "ext", "meas", "text", "force", "bitcode"]):
            act(P, a, i, lambda: what() + ", reset and used again", cov)
            cov.step()
        act(P, "reset", 0, what, cov)
    finish(P, 0, what, cov)
    cov.state("bad", k, tuple(acts))
