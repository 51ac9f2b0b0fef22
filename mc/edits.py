"""Histories that edit a circuit in place between uses of it: operations added, appended again, removed and moved
to other qubits, qubits added before others. After every edit the circuit has to be what the edited program says,
whatever was derived from it before."""
import itertools
import warnings

from mc import drive

NEW = {"h0": ["Hadamard", [], [0]], "cx20": ["CX", [], [2, 0]], "crx": ["CRX", [0.7], [0, 1]]}
ACTS = [*NEW, "again", "rmfirst", "rmlast", "moves", "flip", "grow", "reset"]


def histories(depth, variants=1):
    """Variant k uses the circuit in the k-th way only, -1 in all of them."""
    for d in range(2, depth + 1):
        for i, acts in enumerate(itertools.product(ACTS, repeat=d)):
            if acts[0] in NEW:
                ks = range(-1 if variants > 1 else 0, variants)
                for k in ks if d < 4 else [ks[i % len(ks)], ks[(i + 1) % len(ks)]] if len(ks) > 1 else ks:
                    yield [list(acts), k]


def run(acts, use, cov):
    """use(circ, ops, sizes, txt) compares one consumer of the circuit with the program on registers of the sizes."""
    circ = drive.new_circuit([2, 1])
    ops = []  # entries of objects appended twice are shared
    Q = list(circ.qubits)  # positions in here are those in the entries
    first = 2
    for i, a in enumerate(acts):
        if a in NEW:
            circ.unlock()
            g, p, qs = NEW[a]
            e = [g, list(p), list(qs), None, None]
            with circ.context:
                drive.make_op(e, Q, [])
            ops.append(e)
        elif a == "reset":
            circ.reset()
            ops = []
        elif a == "grow":
            circ.add_qubit()
            Q.append(list(circ.qregisters.values())[0][first])
            first += 1
        elif not ops:
            continue
        elif a == "again":
            circ.unlock()
            circ.append(circ.circuit[0])
            ops.append(ops[0])
        elif a in ("rmfirst", "rmlast"):
            k = 0 if a == "rmfirst" else len(ops) - 1
            circ.remove(circ.circuit[k])
            del ops[ops.index(ops[k])]  # the first equal one
        else:
            k = 0 if a == "moves" else len(ops) - 1
            e = ops[k]
            e[2] = [(q + 1) % len(Q) for q in e[2]] if a == "moves" or len(e[2]) == 1 else e[2][::-1]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                circ.circuit[k].qubits = [Q[q] for q in e[2]]
        txt = lambda: "after the edits %s" % (acts[: i + 1],)  # noqa: E731
        pos = [0, 1, first, *range(2, first)]  # of the elements of Q
        use(circ, [[e[0], list(e[1]), [pos[q] for q in e[2]], None, None] for e in ops], [first, 1], txt)
        cov.state("edits", repr(ops), first)
        cov.step()
    cov.traces += 1
