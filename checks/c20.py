"""C20: class-level operation attributes are readable and cannot be overwritten."""
import itertools

import numpy as np

from mc import drive, ref
from mc.core import require

PROPERTY = "C20"
RULE = (
    "every class hierarchy (linear of the stated depth, and diamonds) whose levels define a mixed property in each "
    "supported form (class only, class and instance, instance required, with and without decorator call, calling the "
    "inherited one), define another backing value or nothing, with instances overriding the backing value or not, read "
    "on all classes and instances in every order of the stated length incl. refused assignments in between, also with instances and classes that are falsy, empty, equal to everything or without a dictionary; every shipped "
    "and created operation class, every sequence of the stated length of reading, assigning (on class, instance, "
    "subclass), mutating the returned matrix and constructing, all attributes compared with their definition"
)
BOUNDS = {"quick": dict(depth=3, seq=3, attrs=2), "thorough": dict(depth=4, seq=4, attrs=3)}
ASSUMPTIONS = ["deleting class attributes is outside of the property"]
EXPECT_OUTCOMES = ["linear", "diamond", "operation", "refused"]

# forms of the property at one level
FORMS = ["-", "c", "c()", "cs", "cs()", "req", "req1", "up", "upreq"]


def generate(b):
    for forms in itertools.product(FORMS, repeat=b["depth"]):
        if forms[0] in ("-", "up", "upreq"):
            continue
        yield ["linear", forms]
    for forms in itertools.product(FORMS[:7], repeat=4):
        if forms[0] != "-":
            yield ["diamond", forms]
    for flavour in FLAVOURS:
        for forms in itertools.product(FORMS, repeat=2):
            if forms[0] not in ("-", "up", "upreq"):
                yield ["linear", forms, flavour]
    for name in OPS:
        for seq in itertools.product(range(len(ACTS)), repeat=b["seq"]):
            yield ["op", name, seq]


def run_case(case, cov):
    if case[0] == "op":
        operation(case[1], [ACTS[i] for i in case[2]], cov)
    else:
        hierarchy(case[0], case[1], cov, case[2] if len(case) > 2 else None)


# what instances (and classes) may look like otherwise
FLAVOURS = {
    "falsy": {"__bool__": lambda s: False},
    "empty": {"__len__": lambda s: 0},
    "equal": {"__eq__": lambda s, o: True, "__hash__": lambda s: 0},
    "different": {"__eq__": lambda s, o: False, "__hash__": lambda s: 0},
    "meta": {},
    "slots": {"__slots__": ("mine", "__weakref__")},  # no dictionary, also not in subclasses
    "strange": {"__getattr__": lambda s, name: "value of " + name},
    "closed": {"__setattr__": None},
}


def _closed(self, name, value):
    """Only the declared attributes may be assigned, the others as ever."""
    if name not in ("base", "p"):
        raise TypeError(name)
    object.__setattr__(self, name, value)


FLAVOURS["closed"] = {"__setattr__": _closed}


class Meta(type):
    def __bool__(cls):
        return False

    def __len__(cls):
        return 0


def value_of(x):
    return object.__getattribute__(x, "mine") if hasattr(type(x), "mine") and x in SET else x.base


class Identities(list):
    def __contains__(self, x):
        return any(x is y for y in self)


SET = Identities()


def define(level, form, holder):
    """Body of the property at a level. Values name the level, the class and the instance
    they were computed from."""
    from dwave.gate.mixedproperty import mixedproperty

    def f_c(cls):
        return (level, cls, cls.base)

    def f_cs(cls, self):
        return (level, cls, cls.base if self is None else value_of(self), self)

    def f_up(cls, self):
        own = holder[level]
        return (level, cls, self, super(own, cls).p if self is None else super(own, self).p)

    return {
        "c": lambda: mixedproperty(f_c), "c()": lambda: mixedproperty()(f_c),
        "cs": lambda: mixedproperty(f_cs), "cs()": lambda: mixedproperty(self_required=False)(f_cs),
        "req": lambda: mixedproperty(self_required=True)(f_cs), "req1": lambda: mixedproperty(self_required=True)(f_c),
        "up": lambda: mixedproperty(f_up), "upreq": lambda: mixedproperty(self_required=True)(f_up),
    }[form]()


def expect(forms, mro, cls, inst, base):
    """mro: levels of cls, most derived first."""
    for k, lv in enumerate(mro):
        f = forms[lv]
        if f == "-":
            continue
        if f in ("c", "c()", "req1"):
            return (lv, cls, base[id(cls)])
        if f in ("req", "upreq") and inst is None:
            return None
        if f in ("cs", "cs()", "req"):
            return (lv, cls, base[id(cls)] if inst is None else base[id(inst)], inst)
        return (lv, cls, inst, expect(forms, mro[k + 1:], cls, inst, base))
    raise AssertionError


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (isinstance(a, (int, str)) and a == b)


def hierarchy(kind, forms, cov, flavour=None):
    if kind == "linear":
        parents = {i: ([i - 1] if i else []) for i in range(len(forms))}
    else:
        parents = {0: [], 1: [0], 2: [0], 3: [1, 2]}
    orders = {i: list(range(i, -1, -1)) for i in range(len(forms))} if kind == "linear" else {
        0: [0], 1: [1, 0], 2: [2, 0], 3: [3, 1, 2, 0]}
    # every pattern of levels with their own backing value
    for own in itertools.product((False, True), repeat=len(forms)):
        classes, base = {}, {}
        for i, form in enumerate(forms):
            d = {}
            if form != "-":
                d["p"] = define(i, form, classes)
            if own[i] or i == 0:
                d["base"] = "class%d" % i
            if flavour and not i:
                d.update(FLAVOURS[flavour])
            if flavour == "slots" and i:
                d["__slots__"] = ()
            classes[i] = (Meta if flavour == "meta" else type)(
                "L%d" % i, tuple(classes[j] for j in parents[i]) or (object,), d)
        for i in classes:
            base[id(classes[i])] = next("class%d" % j for j in orders[i] if own[j] or j == 0)
        insts = {}
        for i in classes:
            plain, over = classes[i](), classes[i]()
            if flavour == "slots":
                over.mine = "instance%d" % i
                SET.append(over)
            else:
                over.base = "instance%d" % i
            base[id(plain)], base[id(over)] = base[id(classes[i])], value_of(over)
            insts[i] = (plain, over)
        objs = [(i, None) for i in classes] + [(i, x) for i in classes for x in insts[i]]
        for rounds in range(2):
            for i, x in objs if rounds == 0 else reversed(objs):
                c = classes[i]
                txt = lambda: "%s%s hierarchy %s, own values %s: level %d %s" % (
                    (flavour or "") + " ", kind, forms, own, i, "class" if x is None else "instance")
                want = expect(forms, orders[i], c, x, base)
                got = c.p if x is None else x.p
                require(same(got, want), lambda: "%s reads %r instead of %r" % (txt(), got, want))
                if x is not None:
                    for value in (None, 0, got):
                        try:
                            x.p = value
                        except AttributeError:
                            cov.outcome("refused")
                        else:
                            require(False, lambda: txt() + " accepts an assignment")
                    if flavour != "slots":
                        x.__dict__["p"] = "shadow"
                    got = x.p
                    require(same(got, want), lambda: "%s reads %r after a refused assignment" % (txt(), got))
                    if flavour != "slots":
                        del x.__dict__["p"]
                cov.step()
        del SET[:]
        cov.state(kind, forms, own, flavour)
    cov.traces += 1
    cov.outcome(kind)


OPS = [*ref.GATES, "Measurement", "Barrier", "custom1", "custom2", "customp", "controlled2", "subRX", "subX"]
ACTS = ["read", "class=", "inst=", "sub=", "mutate", "construct", "dict", "setattr"]


def make(name):
    """(class, required qubits or None, parameters, class matrix or None, instance matrix or None)"""
    import dwave.gate.operations as ops
    from dwave.gate.circuit import Circuit, ParametricCircuit

    if name in ref.GATES:
        n, k = ref.GATES[name]
        M = ref.matrix(name, ref.DEF[k])
        return getattr(ops, name), n, list(ref.DEF[k]), None if k else M, M
    if name in ("Measurement", "Barrier"):
        return getattr(ops, name), None, [], None, None
    if name in ("custom1", "custom2"):
        n = int(name[-1])
        prog = [["S", [], [0], None, None], ["Hadamard", [], [n - 1], None, None]] + (
            [["CX", [], [1, 0], None, None]] if n == 2 else [])
        M = ref.unitary(prog, n)
        return ops.create_operation(drive.build(dict(q=[n], ops=prog)), name="Custom"), n, [], M, M
    if name == "customp":
        prog = [["RX", [{"v": 0}], [0], None, None], ["RY", [{"v": 1}], [0], None, None]]
        C = ops.create_operation(drive.build(dict(q=[1], ops=prog), ParametricCircuit), name="CustomP")
        M = ref.matrix("RY", (-1.2,)) @ ref.matrix("RX", (0.3,))
        return C, 1, [0.3, -1.2], None, M
    if name == "controlled2":
        C = type("CCY", (ops.ControlledOperation,), dict(_num_control=2, _num_target=1, _target_operation=ops.Y))
        M = np.eye(8, dtype=complex)
        M[6:, 6:] = ref.matrix("Y")
        return C, 3, [], M, M
    if name == "subX":
        return type("MyX", (ops.X,), {}), 1, [], ref.matrix("X"), ref.matrix("X")
    return type("MyRX", (ops.RX,), {}), 1, [0.7], None, ref.matrix("RX", (0.7,))


def operation(name, seq, cov):
    from dwave.gate.primitives import Qubit

    C, n, params, Mc, Mi = make(name)
    sub = type(C)("Sub", (C,), {})
    k = len(params)
    nq = n or 2

    def new(cls):
        kw = dict(qubits=[Qubit(i) for i in range(nq)])
        if k:
            kw["parameters"] = params
        return cls(**kw)

    insts = [(C, new(C)), (sub, new(sub))]
    for step, a in enumerate(seq):
        txt = lambda: "%s: %s step %d (%s)" % (name, seq, step, a)

        def refuse(f, what):
            try:
                f()
            except (ValueError, AttributeError, TypeError):
                cov.outcome("refused")
            else:
                require(False, lambda: "%s: %s is accepted" % (txt(), what))

        if a == "class=":
            for v in (np.eye(2), None, property(lambda s: 1)):
                refuse(lambda: setattr(C, "matrix", v), "assigning the matrix of the class")
        elif a == "sub=":
            refuse(lambda: setattr(sub, "matrix", np.eye(2)), "assigning the matrix of a subclass")
        elif a in ("inst=", "setattr"):
            for c, o in insts:
                for attr in ("matrix", "name", "num_qubits", "decomposition") + (("num_parameters",) if k else ()) + (
                        ("num_control", "num_target", "target_operation") if hasattr(o, "control") else ()):
                    refuse(lambda: setattr(o, attr, 5), "assigning '%s' of an operation" % attr)
        elif a == "dict":
            for c, o in insts:
                o.__dict__["matrix"] = np.zeros((2, 2))
        elif a == "mutate":
            for x in (C, insts[0][1]):
                m = x.matrix
                if m is not None:
                    try:
                        m[...] = 7
                    except ValueError:
                        pass  # handed out read-only
        elif a == "construct":
            insts.append((C, new(C)))
        if a in ("read", "setattr") or step == len(seq) - 1:
            for c in (C, sub):
                check(c, None, n, k, Mc, params, name, txt)
            for c, o in insts:
                check(c, o, n, k, Mi, params, name, txt)
        cov.step()
        cov.state(name, seq[:step + 1])
    cov.traces += 1
    cov.outcome("operation")


def check(C, o, n, k, M, params, name, txt):
    x = C if o is None else o
    where = lambda: "%s: %s of %s" % (txt(), "class" if o is None else "instance", C.__name__)
    m = x.matrix
    if M is None:
        require(m is None, lambda: "%s has matrix %r" % (where(), m))
    else:
        require(isinstance(m, np.ndarray) and m.shape == M.shape and ref.close(m, M),
                lambda: "%s has matrix\n%r\ninstead of\n%r" % (where(), m, M))
    if o is None:
        require(x.name == C.__name__, lambda: "%s has name %r" % (where(), x.name))
    else:
        require(x.name.startswith(C.__name__), lambda: "%s has name %r" % (where(), x.name))
        require(all(str(p) in x.name for p in params), lambda: "%s: name %r lacks parameters" % (where(), x.name))
    if n is not None:
        require(x.num_qubits == n, lambda: "%s: %r qubits" % (where(), x.num_qubits))
    elif o is not None:
        require(x.num_qubits == 2, lambda: "%s: %r qubits" % (where(), x.num_qubits))
    else:
        try:
            q = x.num_qubits
        except AttributeError:
            pass
        else:
            require(False, lambda: "%s: %r qubits" % (where(), q))
    if k:
        require(x.num_parameters == k, lambda: "%s: %r parameters" % (where(), x.num_parameters))
    from dwave.gate.operations import X, Y

    if name in ref.CONTROLLED or name == "controlled2":
        nc = 2 if name == "controlled2" else 1
        require((x.num_control, x.num_target) == (nc, 1), lambda: where() + ": number of controls")
        want = Y if name == "controlled2" else drive.op_class(ref.CONTROLLED[name])
        require(x.target_operation is want, lambda: "%s: target operation %r" % (where(), x.target_operation))
    # decompositions, where declared, are lists of names of shipped operations
    try:
        d = x.decomposition
    except NotImplementedError:
        d = None
    if name in DECOMP:
        require(d == DECOMP[name], lambda: "%s: decomposition %r" % (where(), d))


DECOMP = {}


def prepare():
    """The decompositions declared before anything was done with the classes."""
    for name in OPS[:len(ref.GATES)]:
        try:
            DECOMP[name] = list(drive.op_class(name).decomposition)
        except NotImplementedError:
            pass
