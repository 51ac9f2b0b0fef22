"""All outcome branches of a program with measurements, and their exhaustive
comparison with the implementation under a controlled random generator."""
import itertools

import numpy as np

from . import drive, env, ref
from .core import Violation, require

EPS = 1e-12


class Leaf:
    __slots__ = ("p", "outs", "probs", "bits", "state", "meas")

    def __init__(self, p, outs, probs, bits, state, meas):
        self.p, self.outs, self.probs = p, outs, probs
        self.bits, self.state, self.meas = bits, state, meas


def leaves(ops, n, nbits, bits=None):
    """Every outcome history with nonzero probability.

    meas: per measurement (state before it, outcomes)."""
    out = []
    bits = list(bits) if bits is not None else [None] * nbits
    measured = set(b for o in ops if o[0] == "Measurement" and o[3] for b in o[3][: len(o[2])])
    for b in measured:
        bits[b] = None

    def rec(i, v, p, outs, probs, bits, meas):
        while i < len(ops):
            o = ops[i]
            conds = o[4] if len(o) > 4 else None
            if conds and not all(bits[b] == 1 for b in conds):
                if o[0] == "Measurement":
                    meas = meas + ((None, ()),)
                i += 1
                continue
            if o[0] == "Measurement":
                return measure(i, 0, v, v, p, outs, probs, bits, meas, ())
            v = ref.apply(v, ref.cmatrix(o[0], o[1]), o[2], n)
            i += 1
        out.append(Leaf(p, outs, probs, tuple(bits), v, meas))

    def measure(i, k, v0, v, p, outs, probs, bits, meas, got):
        o = ops[i]
        if k == len(o[2]):
            return rec(i + 1, v, p, outs, probs, bits, meas + ((v0, got),))
        q = o[2][k]
        p0 = ref.prob0(v, q, n)
        for m, pm in ((0, p0), (1, 1 - p0)):
            if pm < EPS:
                continue
            nb = bits
            if o[3] is not None and k < len(o[3]):
                nb = list(bits)
                nb[o[3][k]] = m
            measure(i, k + 1, v0, ref.project(v, q, m, n), p * pm, outs + (m,), probs + (p0,), nb, meas, got + (m,))

    rec(0, ref.zero(n), 1.0, (), (), bits, ())
    return out


def grid(N):
    return [(k + 0.5) / N for k in range(N)]


def matches(leaf, circ, mops):
    if tuple(b.value for b in circ.bits) != leaf.bits:
        return False
    if not ref.close(circ.state, leaf.state, 1e-7):
        return False
    for o, (v0, got) in zip(mops, leaf.meas):
        if v0 is None:
            continue  # blocked measurement: nothing recorded (checked for fresh circuits elsewhere)
        if not ref.close(o.state, v0, 1e-7):
            return False
    return True


def explore(prog, cov, what, Ns=(16, 16, 8, 4, 4), preset=None, extremes=False, circ=None):
    """Run the program under every answer of the grid, draw after draw."""
    from dwave.gate.simulator import simulate

    n = sum(prog["q"])
    nbits = sum(prog.get("c", ()))
    L = leaves(prog["ops"], n, nbits, preset)
    circ = circ or drive.build(prog)
    mops = [o for o in circ.circuit if type(o).__name__ == "Measurement"]
    Scripted = env.make_scripted()

    def run(us):
        for b, v in zip(circ.bits, preset or []):
            if v is None:
                b.reset()
            else:
                b.set(v, force=True)
        gens = []

        def hook(seed):
            g = Scripted(us, default=0.5)
            gens.append(g)
            return g

        env.Randomness.hook = hook
        try:
            simulate(circ)
        finally:
            env.Randomness.hook = None
        cov.step()
        hit = [l for l in L if matches(l, circ, mops)]
        require(
            hit,
            lambda: "%s with answers %s: bits %s and state %s fit no outcome history; possible (bits, state): %s"
            % (what(), us, [b.value for b in circ.bits], np.round(circ.state, 5).tolist(),
               [(l.bits, np.round(l.state, 5).tolist()) for l in L[:8]]),
        )
        used = sum(len(g.used) for g in gens)
        return hit, used

    if extremes:
        for u in (0.0, 1 - 2.0 ** -53, 0.5):
            hit, _ = run([u] * 12)
        cov.outcome("extremes")
        return

    reached = set()
    maxd = max(len(l.outs) for l in L)
    hit, used = run([])
    reached.update(l.outs for l in hit)
    standard = used == len(hit[0].outs)
    if not standard:
        # another way of drawing: follow the outcomes over a range of seeds
        for seed in range(64):
            env.Randomness.hook = None
            simulate(circ, rng_seed=seed)
            cov.step()
            h = [l for l in L if matches(l, circ, mops)]
            require(h, lambda: "%s with seed %d fits no outcome history" % (what(), seed))
            reached.update(l.outs for l in h)
        for l in L:
            require(l.p < 0.2 or l.outs in reached, lambda: "%s: outcomes %s never occur" % (what(), l.outs))
        cov.outcome("nonstandard-draws")
        return

    def rec(prefix_u, depth):
        if depth >= maxd:
            return
        N = Ns[depth] if depth < len(Ns) else 2
        groups = {}
        zeros = 0
        p0 = None
        ambiguous = False
        short = False
        for u in grid(N):
            hit, used = run(prefix_u + [u])
            if all(len(l.outs) <= depth for l in hit):
                short = True
                reached.update(l.outs for l in hit)
                break  # no further draw in this branch
            vals = {l.outs[: depth + 1] for l in hit if len(l.outs) > depth}
            reached.update(l.outs for l in hit)
            if len(vals) > 1:
                ambiguous = True
            else:
                (o,) = vals
                zeros += o[-1] == 0
                ps = {round(l.probs[depth], 9) for l in hit if len(l.outs) > depth}
                p0 = ps.pop() if len(ps) == 1 else p0
            groups.setdefault(frozenset(vals), u)
        if short:
            return
        if not ambiguous and p0 is not None:
            require(
                abs(zeros - N * p0) < 1 + 1e-6,
                lambda: "%s: draw %d after answers %s gives 0 for %d of %d equally likely answers, probability %.6f"
                % (what(), depth, prefix_u, zeros, N, p0),
            )
        for u in groups.values():
            rec(prefix_u + [u], depth + 1)

    rec([], 0)
    for l in L:
        # every history whose conditional probabilities the grid can resolve is reached
        ok = all((1 - p0 if m else p0) > 2.0 / (Ns[i] if i < len(Ns) else 2) for i, (m, p0) in enumerate(zip(l.outs, l.probs)))
        require(not ok or l.outs in reached, lambda: "%s: outcomes %s never occur" % (what(), l.outs))
    for l in L:
        cov.state(n, l.outs, l.bits, np.round(l.state, 6).tobytes())
    cov.outcome("leaves%d" % min(len(L), 8))
