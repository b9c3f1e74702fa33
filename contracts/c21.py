"""C21 composed reference generators present their parts faithfully."""
import numpy as np

import gym_electric_motor as gem
from gym_electric_motor.reference_generators import MultipleReferenceGenerator, SwitchedReferenceGenerator
from vc.engine import contract

from .envstub import StubSystem, ensure_log, ensure_same
from .rng import Rng, with_rng

R = "gym_electric_motor.reference_generators."
M = [R + "multiple_reference_generator.MultipleReferenceGenerator." + m for m in ("__init__", "set_modules", "reset", "get_reference", "get_reference_observation", "seed")]
W = [R + "switched_reference_generator.SwitchedReferenceGenerator." + m for m in ("__init__", "set_modules", "reset", "get_reference", "get_reference_observation", "_reset_reference", "seed")]
NAMES = ["omega", "torque", "i", "u", "eps"]


class Part(gem.ReferenceGenerator):
    """contract of a sub generator: references some states, everything it returns is arbitrary, calls are recorded"""

    def __init__(self, cx, log, name, states, n_obs=None):
        super().__init__()
        self.cx, self.log, self.name, self.states = cx, log, name, states
        n = len(states) if n_obs is None else n_obs
        self._reference_names = [NAMES[i] for i in states]
        lo = [cx.real(f"{name}_low{i}", typ=(-1, 0)) for i in range(n)]
        hi = [lo[i] + cx.nonneg(f"{name}_width{i}", typ=(0, 2)) for i in range(n)]
        self.reference_space = box(cx, lo, hi)
        self.n, self.k = n, 0
        self.returned = []

    def set_modules(self, ps):
        super().set_modules(ps)
        self.log.append((self.name + ".set_modules", ps))
        self._referenced_states = np.array([i in self.states for i in range(len(NAMES))])

    def _new(self, what, n):
        self.k += 1
        v = self.cx.vec(f"{self.name}_{what}{self.k}_", n, typ=(-1, 1))
        self.returned.append(v)
        return v

    def reset(self, initial_state=None, initial_reference=None):
        self.log.append((self.name + ".reset", initial_state, initial_reference))
        return self._new("ref", len(NAMES)), self._new("obs", self.n), None

    def get_reference(self, state, *a, **k):
        self.log.append((self.name + ".get_reference", state))
        return self._new("ref", len(NAMES))

    def get_reference_observation(self, state, *a, **k):
        self.log.append((self.name + ".get_reference_observation", state))
        return self._new("obs", self.n)


class RandomPart(Part, gem.RandomComponent):
    def __init__(self, *a, **k):
        Part.__init__(self, *a, **k)
        gem.RandomComponent.__init__(self)
        self.seeds = []

    def seed(self, seed=None):
        self.seeds.append(seed)
        return super().seed(seed)


def box(cx, lo, hi):
    from gymnasium.spaces import Box

    from vc.shim import symBox

    a, b = cx.array(lo), cx.array(hi)
    return symBox(a, b, dtype=np.float64) if cx.symbolic else Box(np.array(a, dtype=float), np.array(b, dtype=float), dtype=np.float64)


LAYOUTS = {"one": [[2]], "two": [[2], [0]], "two, wide": [[0, 1], [3]], "three": [[4], [1, 2], [0]], "none": [[], [1]]}


def parts(cx, log, layout, rnd=True):
    ps = StubSystem(cx, [], NAMES)
    subs = [(RandomPart if rnd and j % 2 == 0 or rnd == "all" else Part)(cx, log, f"p{j}", st) for j, st in enumerate(LAYOUTS[layout])]
    return ps, subs


def total(cx, vs, n=5):
    out = []
    for i in range(n):
        s = vs[0][i]
        for v in vs[1:]:
            s = s + v[i]
        out.append(s)
    return out


@contract("C21", cases=list(LAYOUTS), targets=M, samples=30)
def multiple(cx, layout):
    """space, names, referenced states, references and observations for arbitrary parts"""
    log = []
    ps, subs = parts(cx, log, layout)
    with cx.unchecked():
        g = MultipleReferenceGenerator(list(subs))
    cx.ensure("names in order", list(g.reference_names) == [NAMES[i] for st in LAYOUTS[layout] for i in st])
    g.set_modules(ps)
    ensure_log(cx, "set_modules forwarded", log, [(s.name + ".set_modules", ps) for s in subs])
    cx.ensure_eqs("space: low", g.reference_space.low, [v for s in subs for v in s.reference_space.low])
    cx.ensure_eqs("space: high", g.reference_space.high, [v for s in subs for v in s.reference_space.high])
    cx.ensure("referenced states", [bool(b) for b in g.referenced_states] == [any(i in st for st in LAYOUTS[layout]) for i in range(5)])
    for s in subs:
        cx.ensure_eqs(s.name + " unchanged names", [float(NAMES.index(n)) for n in s.reference_names], [float(i) for i in s.states])
    for e in range(2):
        for given in ("state and reference", "nothing"):
            log.clear()
            x = cx.vec(f"x{e}{given[0]}_", 5) if given[0] == "s" else None
            r = cx.vec(f"r{e}{given[0]}_", 5) if given[0] == "s" else None
            ref, obs, _ = g.reset(x, r)
            ensure_log(cx, f"reset {e} {given}", log, [(s.name + ".reset", x, r) for s in subs])
            cx.ensure_eqs("reset: reference is the sum", ref, total(cx, [s.returned[-2] for s in subs]))
            cx.ensure_eqs("reset: observation is the concatenation", obs, [v for s in subs for v in s.returned[-1]])
        for k in range(2):
            x = cx.vec(f"y{e}{k}_", 5)
            log.clear()
            ref = g.get_reference(x)
            ensure_log(cx, f"get_reference {e}{k}", log, [(s.name + ".get_reference", x) for s in subs])
            cx.ensure_eqs("reference is the sum", ref, total(cx, [s.returned[-1] for s in subs]))
            log.clear()
            obs = g.get_reference_observation(x)
            ensure_log(cx, f"get_reference_observation {e}{k}", log, [(s.name + ".get_reference_observation", x) for s in subs])
            cx.ensure_eqs("observation is the concatenation", obs, [v for s in subs for v in s.returned[-1]])


@contract("C21", cases=["overlap", "overlap wide"], targets=M[1:2], samples=5)
def multiple_shared_state(cx, how):
    """two parts that reference the same state are refused"""
    log = []
    ps = StubSystem(cx, [], NAMES)
    subs = [Part(cx, log, "p0", [2]), Part(cx, log, "p1", [2] if how == "overlap" else [1, 2])]
    g = MultipleReferenceGenerator(subs)
    try:
        g.set_modules(ps)
    except Exception:
        cx.ensure("refused", True)
        return
    cx.fail("parts with a common referenced state were accepted")


@contract("C21", cases=["dict", "list", "kwargs"], targets=M[:1], samples=5)
def multiple_arguments(cx, how):
    """parts given as classes are built with their own arguments"""
    seen = []

    def make(tag):
        class P(Part):
            def __init__(self, **kw):
                seen.append((tag, dict(kw)))
                super().__init__(cx, [], tag, [len(seen)])

        return P

    a = cx.real("a")
    if how == "dict":
        g = MultipleReferenceGenerator([make("p"), make("q")], sub_args={"v": a})
        want = [("p", {"v": a}), ("q", {"v": a})]
    elif how == "list":
        b = cx.real("b")
        g = MultipleReferenceGenerator([make("p"), make("q")], sub_args=[{"v": a}, {"w": b}])
        want = [("p", {"v": a}), ("q", {"w": b})]
    else:
        g = MultipleReferenceGenerator([make("p"), make("q")], v=a)
        want = [("p", {"v": a}), ("q", {"v": a})]
    cx.ensure("one part per class, in order", [t for t, _ in seen] == [t for t, _ in want])
    for (t, x), (_, y) in zip(seen, want):
        cx.ensure(t + ": argument names", set(x) == set(y))
        for k in y:
            if k in x:
                ensure_same(cx, f"{t}: {k}", x[k], y[k])
    cx.ensure("names", list(g.reference_names) == [NAMES[1], NAMES[2]])


@contract("C21", cases=["multiple", "switched"], targets=M[-1:] + W[-1:], samples=20)
def seeding(cx, kind):
    """every random part receives its own child of the seed; no two parts and not the composition itself share a stream"""
    log = []
    ps, subs = parts(cx, log, "three" if kind == "multiple" else "one", rnd="all")
    if kind == "switched":
        subs = [RandomPart(cx, log, f"q{j}", [2]) for j in range(3)]
    if kind == "multiple":
        subs.append(Part(cx, log, "plain", []))
    g = (MultipleReferenceGenerator if kind == "multiple" else SwitchedReferenceGenerator)(list(subs))
    n = int(cx.choice("entropy", [0, 7, 2**40 + 3]))
    root = np.random.SeedSequence(n)
    g.seed(root)
    rnd = [s for s in subs if isinstance(s, RandomPart)]
    cx.ensure("every random part is seeded once", all(len(s.seeds) == 1 for s in rnd))
    if not all(s.seeds for s in rnd):
        return
    seqs = [s.seeds[0] for s in rnd]
    cx.ensure("seed sequences", all(isinstance(q, np.random.SeedSequence) for q in seqs))
    states = [tuple(q.generate_state(4)) for q in seqs]
    cx.ensure("distinct streams", len(set(states)) == len(states))
    draws = [tuple(s.random_generator.random(4)) for s in rnd] + ([tuple(g.random_generator.random(4))])
    cx.ensure("distinct generators", len(set(draws)) == len(draws))
    cx.ensure("derived from the seed", all(q.entropy == n for q in seqs))
    # the same seed gives the same streams, another one does not
    g2 = type(g)(list(subs))
    g2.seed(np.random.SeedSequence(n))
    cx.ensure("reproducible", [tuple(s.seeds[-1].generate_state(4)) for s in rnd] == states)
    g2.seed(np.random.SeedSequence(n + 1))
    cx.ensure("another seed, other streams", not set(tuple(s.seeds[-1].generate_state(4)) for s in rnd) & set(states))


def switched(cx, rng, log, n, length, p=None):
    subs = [Part(cx, log, f"p{j}", [2]) for j in range(n)]
    ps = StubSystem(cx, [], NAMES)
    with cx.unchecked():
        g = with_rng(SwitchedReferenceGenerator, rng)(list(subs), p=p, super_episode_length=length)
    return g, subs, ps


def lengths(cx, how):
    lo = cx.int("len_lo", lo=1, typ=(1, 5))
    if how == "fixed":
        return int(cx.choice("fixed", [1, 2, 3])), None, None
    hi = cx.int("len_hi", lo=2, typ=(2, 9))
    cx.requires(lo < hi)
    return (lo, hi), lo, hi


def chosen(log, subs):
    """name of the part that was reset, if exactly one was"""
    r = [x for x in log if x[0].endswith(".reset")]
    return next((s for s in subs if len(r) == 1 and r[0][0] == s.name + ".reset"), None)


@contract("C21", cases=[(n, h) for n in (1, 2, 3) for h in ("range", "fixed") if (n, h) != (3, "range")], targets=W, samples=40, merge=True)
def switching(cx, n, how):
    """exactly one part is exposed unchanged; it is kept for a super-episode whose length is in the configured range"""
    rng, log = Rng(cx), []
    arg, lo, hi = lengths(cx, how)
    if how == "fixed":
        lo = hi = arg
    g, subs, ps = switched(cx, rng, log, n, arg)
    cx.ensure("names", list(g.reference_names) == ["i"])
    g.set_modules(ps)
    cx.ensure("set_modules forwarded once", sorted(x[0] for x in log) == sorted(s.name + ".set_modules" for s in subs) and all(x[1] is ps for x in log))
    cx.ensure("referenced states", [bool(b) for b in g.referenced_states] == [i == 2 for i in range(5)])
    for s in subs:
        cx.ensure_le("space covers " + s.name, g.reference_space.low[0], s.reference_space.low[0])
        cx.ensure_le("space covers (2) " + s.name, s.reference_space.high[0], g.reference_space.high[0])
    for e in range(1 if cx.symbolic and n > 1 else 2):
        log.clear()
        x0, r0 = (cx.vec(f"x{e}_", 5), cx.vec(f"r{e}_", 5)) if e == 0 else (None, None)
        ref, obs, _ = g.reset(x0, r0)
        act = chosen(log, subs)
        cx.ensure("reset: exactly one part is reset", act is not None and len(log) == 1)
        if act is None:
            return
        ensure_log(cx, "reset: forwarded", log, [(act.name + ".reset", x0, r0)])
        cx.ensure_eqs("reset: reference of the part", ref, act.returned[-2])
        cx.ensure_eqs("reset: observation of the part", obs, act.returned[-1])
        used = 1
        for k in range((4 if n < 2 else 3) if cx.symbolic else 12):
            x = cx.vec(f"s{e}_{k}_", 5)
            log.clear()
            ref = g.get_reference(x)
            ensure_log(cx, "get_reference", log, [(act.name + ".get_reference", x)])
            cx.ensure_eqs("reference of the active part", ref, act.returned[-1])
            log.clear()
            x = cx.vec(f"t{e}_{k}_", 5)
            obs = g.get_reference_observation(x)
            new = chosen(log, subs)
            if new is None:
                ensure_log(cx, "get_reference_observation", log, [(act.name + ".get_reference_observation", x)])
                cx.ensure_eqs("observation of the active part", obs, act.returned[-1])
                used += 1
                cx.ensure("not kept longer than the longest super episode", used <= hi)
            else:
                ensure_log(cx, "switch: the new part continues from the current state and reference", log, [(new.name + ".reset", x, ref)])
                cx.ensure_eqs("switch: observation of the new part", obs, new.returned[-1])
                cx.ensure("kept for at least the shortest super episode", used >= lo)
                act, used = new, 1


@contract("C21", cases=["continue", "switch"], targets=W[3:6], samples=30)
def switching_any_history(cx, how):
    """inductive step from an arbitrary position in a super-episode of arbitrary length (private attributes set directly)"""
    rng, log = Rng(cx), []
    (arg, lo, hi) = lengths(cx, "range")
    g, subs, ps = switched(cx, rng, log, 2, arg)
    if not all(hasattr(g, a) for a in ("_k", "_current_episode_length")):
        return
    g.set_modules(ps)
    g.reset(None, None)
    act = chosen(log, subs)
    ref = g.get_reference(cx.vec("x", 5))
    n, k = cx.int("length", lo=1, typ=(1, 9)), cx.int("position", lo=1, typ=(1, 9))
    cx.requires(k < n if how == "continue" else k == n)
    g._current_episode_length, g._k = n, k
    log.clear()
    s = cx.vec("s", 5)
    obs = g.get_reference_observation(s)
    if how == "continue":
        ensure_log(cx, "same part", log, [(act.name + ".get_reference_observation", s)])
        cx.ensure_eqs("its observation", obs, act.returned[-1])
        cx.ensure_eq("position", g._k, k + 1)
        cx.ensure_eq("length", g._current_episode_length, n)
    else:
        new = chosen(log, subs)
        cx.ensure("one part starts", new is not None)
        if new is None:
            return
        ensure_log(cx, "continues from the current state and reference", log, [(new.name + ".reset", s, ref)])
        cx.ensure_eqs("its observation", obs, new.returned[-1])
        cx.ensure_eq("position", g._k, 1)
        m = g._current_episode_length
        cx.ensure("length in range", conj_range(cx, m, lo, hi))


def conj_range(cx, m, lo, hi):
    return (m >= lo) & (m <= hi) if cx.symbolic else lo <= m <= hi


@contract("C21", cases=[(h, n) for h in ("default", "given") for n in (1, 2, 3, 4)], targets=[W[0], W[5]], samples=30, merge=True)
def probabilities(cx, how, n):
    """the parts are chosen with the given (default: equal) probabilities at every super-episode"""
    rng, log = Rng(cx), []
    p = None
    if how == "given":
        p = [cx.real(f"p{i}", lo=0, hi=1) for i in range(n - 1)]
        if n > 2:
            cx.requires(sum(p) <= 1)
        p = p + [1 - sum(p)]
    want = list(p) if p else [1 / n] * n
    g, subs, ps = switched(cx, rng, log, n, 1, p)
    g.set_modules(ps)
    g.reset(None, None)
    for k in range(1):
        g.get_reference(cx.vec(f"x{k}_", 5))
        g.get_reference_observation(cx.vec(f"y{k}_", 5))
    draws = [d for d in rng.log if d[0] == "choice"]
    for d in draws:
        cx.ensure("among all parts", d[3] == n)
        if d[2] is None:
            cx.ensure("equal probabilities", how == "default")
        else:
            cx.ensure_eqs("probabilities", d[2], want)


@contract("C21", cases=["states", "names", "empty"], targets=W[:2], samples=5)
def switched_mismatch(cx, how):
    """parts that reference different states cannot be switched"""
    log = []
    ps = StubSystem(cx, [], NAMES)
    try:
        if how == "empty":
            SwitchedReferenceGenerator([])
        else:
            subs = [Part(cx, log, "p0", [2]), Part(cx, log, "p1", [1] if how == "names" else [2])]
            if how == "states":
                subs[1].states = [1]
            SwitchedReferenceGenerator(subs).set_modules(ps)
    except Exception:
        cx.ensure("refused", True)
        return
    cx.fail("parts with different referenced states were accepted")
