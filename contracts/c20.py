"""C20 reference sequencing: the announced next reference is the one used next; documented trajectory shapes."""
import math

import numpy as np

from vc.engine import contract

from .c19 import ALLT, CLS, NAMES, PERIODIC, R, SAW, cls_of, length, margin, ranges, sawtooth, signal_stub, system, targets
from .envstub import StubSystem
from .rng import Rng, with_rng

SUB = [R + "subepisoded_reference_generator.SubepisodedReferenceGenerator." + m for m in ("__init__", "set_modules", "reset", "get_reference", "get_reference_observation", "_get_current_value")]


class Trajectory:
    """an arbitrary pre-computed sub-episode of (symbolic) length n; reading outside of it is an obligation failure"""

    def __init__(self, cx, no, n):
        self.cx, self.no, self.n, self.reads, self.values = cx, no, n, [], {}

    def at(self, k):
        key = str(k)
        if key not in self.values:
            self.values[key] = self.cx.real(f"ref{self.no}_{len(self.values)}", typ=(-1, 1))
        return self.values[key]

    def __getitem__(self, k):
        self.cx.ensure("reads inside the sub episode", (k >= 0) & (k < self.n) if hasattr(k >= 0, "e") or hasattr(k < self.n, "e") else 0 <= k < self.n)
        self.reads.append(k)
        return self.at(k)

    def __len__(self):
        return int(self.n)


def abstract(cx, rng, lengths):
    """the base class with the subclass extension point left arbitrary"""
    from gym_electric_motor.reference_generators.subepisoded_reference_generator import SubepisodedReferenceGenerator

    class Sub(with_rng(SubepisodedReferenceGenerator, rng)):
        def _reset_reference(self):
            self._reference = Trajectory(cx, len(self.trajectories), self._current_episode_length)
            self.trajectories.append(self._reference)

    Sub.trajectories = []
    with cx.unchecked():
        g = Sub(reference_state="i", episode_lengths=lengths)
    return g


def next_reference(cx, g, name, obs, idx=2, n=3):
    """what the next step is rewarded against equals the announced observation; all other entries are zero; asking twice changes nothing"""
    want = [0.0] * n
    want[idx] = obs[0]
    r1, r2 = g.get_reference(None), g.get_reference(cx.vec("state_" + name, n))
    cx.ensure_eqs(name + ": the reference used next is the announced one", r1, want)
    cx.ensure_eqs(name + ": reading the reference does not advance it", r2, want)


@contract("C20", cases=[(h, s) for h in ("range", "fixed") for s in ("fresh", "given")], targets=SUB, samples=60, merge=True)
def one_point_per_step(cx, how, start):
    """for sub-episodes of any lengths: each observation reads the next point; a new sub-episode begins exactly when the old one is used up"""
    rng = Rng(cx)
    lo = cx.int("len_lo", lo=1, typ=(1, 6))
    hi = cx.int("len_hi", lo=1, typ=(1, 9))
    cx.requires(lo <= hi)
    if how == "fixed":
        hi = lo
    lengths = (lo, hi) if how == "range" else lo
    g = abstract(cx, rng, lengths)
    g.set_modules(system(cx, -1.0)[0])
    init = None
    if start == "given":
        init = cx.vec("init", 3, typ=(-1, 1))
    ref, obs, _ = g.reset(None, init)
    cx.ensure_eqs("reset: the first reference is the initial one", ref, [0.0, 0.0, init[2] if init is not None else 0.0])
    left, seen = None, 0
    for k in range(5 if cx.symbolic else 30):
        fresh = left is None or bool(left == 0)
        if fresh:
            cx.ensure("a new sub episode begins when the previous one is exhausted", len(g.trajectories) == seen + 1)
            if len(g.trajectories) != seen + 1:
                return
            seen += 1
            t = g.trajectories[-1]
            cx.ensure("sub-episode length is at least the minimum", t.n >= lo)
            cx.ensure("sub-episode length is at most the maximum", t.n <= hi)
            left = t.n
            p = 0
        cx.ensure("no other sub episode begins", len(g.trajectories) == seen)
        cx.ensure("one point per step", len(t.reads) == p + 1)
        cx.ensure_eqs("the observation is the next point", obs, [t.at(p)])
        p, left = p + 1, left - 1
        next_reference(cx, g, f"step {k}", obs)
        cx.ensure("reading the reference consumes nothing", len(t.reads) == p)
        obs = g.get_reference_observation(cx.vec(f"obs_state{k}", 3))


@contract("C20", cases=["fresh", "used"], targets=SUB[2:5], samples=30, merge=True)
def any_history(cx, how):
    """inductive step: from an arbitrary position in an arbitrary sub-episode (private position and length attributes set directly)"""
    rng = Rng(cx)
    lo, hi = cx.int("len_lo", lo=1, typ=(1, 6)), cx.int("len_hi", lo=1, typ=(1, 9))
    cx.requires(lo <= hi)
    g = abstract(cx, rng, (lo, hi))
    if not all(hasattr(g, a) for a in ("_k", "_current_episode_length", "_reference", "_reference_value")):
        return
    g.set_modules(system(cx, -1.0)[0])
    if how == "used":
        g.reset(None, cx.vec("init", 3))
    n0 = len(g.trajectories)
    n = cx.int("length", lo=1, typ=(1, 9))
    k = cx.int("position", lo=0, typ=(0, 9))
    cx.requires(k <= n)
    t = Trajectory(cx, 99, n)
    g._reference, g._current_episode_length, g._k = t, n, k
    g._reference_value = cx.real("previous")
    obs = g.get_reference_observation(cx.vec("s", 3))
    if bool(k < n):
        cx.ensure("no new sub episode", len(g.trajectories) == n0)
        cx.ensure_eqs("next point", obs, [t.at(k)])
        cx.ensure_eq("position advanced by one", g._k, k + 1)
        cx.ensure_eq("same length", g._current_episode_length, n)
        cx.ensure("same sub episode", g._reference is t)
    else:
        cx.ensure("a new sub episode", len(g.trajectories) == n0 + 1 and not t.reads)
        if len(g.trajectories) == n0 + 1:
            t = g.trajectories[-1]
            cx.ensure("length in range", (t.n >= lo) & (t.n <= hi) if cx.symbolic else lo <= t.n <= hi)
            cx.ensure_eqs("first point", obs, [t.at(0)])
            cx.ensure_eq("position", g._k, 1)
    next_reference(cx, g, "next", obs)


def equal(cx, a, b):
    return a == b if cx.symbolic else abs(a - b) <= 1e-6 * (1 + abs(b))


def conj(cx, *cs):
    if not cx.symbolic:
        return all(bool(c) for c in cs)
    from vc import sym as S

    return S.SymBool(S.z3.And(*[S.to_bool(c) for c in cs]))


def implies(cx, p, q):
    if not cx.symbolic:
        return (not p) or bool(q)
    from vc import sym as S

    return S.SymBool(S.z3.Implies(S.to_bool(p), S.to_bool(q)))


def follows(cx, kind, v, A, o, x, w, margins):
    """v == A * wave(x) + o, cut off at the margins, for the documented waveform with period 1 (x counted in periods)"""
    lo, hi = margins

    def is_(w, *scale):
        k = scale[0] if scale else 1.0
        return conj(cx, implies(cx, w < lo * k, equal(cx, v, lo)), implies(cx, w > hi * k, equal(cx, v, hi)), implies(cx, conj(cx, w >= lo * k, w <= hi * k), equal(cx, v * k, w)))

    if kind == "sinus":
        a = 2 * math.pi * x
        return is_(A * (a.sin() if hasattr(a, "e") else math.sin(a)) + o)
    if cx.symbolic:
        from vc import sym as S

        f = x - S.floor(x)
    else:
        f = x % 1.0
        if min(f, 1 - f) < 1e-9 or abs(f - w) < 1e-9:
            return True  # at the jump / corner rounding decides
    if kind == "sawtooth":
        return is_(A * (2 * f - 1) + o)
    return conj(cx, implies(cx, f < w, is_(A * (2 * f - w) + o * w, w)), implies(cx, f >= w, is_(A * (w + 1 - 2 * f) + o * (1 - w), 1 - w)))


def uniforms(rng):
    return [e[1] for e in rng.log if e[0] == "random"]


def room(v, a, m0, m1):
    """the offset next to v that leaves room for the amplitude a between -m0 and m1"""
    return -m0 + a if v < -m0 + a else m1 - a if v > m1 - a else v


def widen(cx, name, v):
    return (v, v + cx.nonneg(name + "_width", typ=(0.01, 0.1)))


SHAPES = [(k, v, n) for k in ("sinus", "sawtooth", "triangle") for v in ("fixed", "amplitude", "offset", "frequency", "room") for n in ("1", "n")]


@contract("C20", cases=SHAPES, targets=ALLT, samples=40, opaque_trig=True, assumes=[SAW, "vectorised numpy operations act elementwise: the symbolic run follows one arbitrary element of the trajectory"])
def periodic_shape(cx, kind, free, n):
    """sample i of a sub-episode is amplitude * wave(frequency * i * tau + phase) + offset with the drawn parameters; an offset range that
    leaves no room for the amplitude inside the margins is narrowed accordingly (room)"""
    from vc.shim import NP

    rng = Rng(cx)
    if n == "1":
        L, i = 1, 0
    elif cx.symbolic:
        L, i = cx.int("length", lo=2), cx.int("index", lo=0)
        cx.requires(i < L)
        NP.generic = (L, i)
    else:
        L = length(cx, 2)
        cx.int("index", lo=0)
    try:
        with signal_stub(kind):
            ps, lim, nom = system(cx, -1.0)
            tau = ps.tau
            A = cx.real("amplitude", lo=0, typ=(0.05, 0.4))
            o = cx.real("offset", typ=(-0.2, 0.2))
            f = cx.real("frequency", gt=0, typ=(1, 30))
            m0, m1 = cx.real("margin0", gt=0, hi=1, typ=(0.7, 1)), cx.real("margin1", gt=0, hi=1, typ=(0.7, 1))
            kw = {"amplitude_range": (A, A), "offset_range": (o, o), "frequency_range": (f, f)}
            if free == "room":
                kw["offset_range"] = (o, o + cx.nonneg("width", typ=(0.5, 2)))
                cx.requires(2 * A <= m0 + m1)
            elif free != "fixed":
                kw[free + "_range"] = widen(cx, free, kw[free + "_range"][0])
            top = kw["amplitude_range"][1]
            if free != "room":
                cx.requires(-m0 <= kw["offset_range"][0] - top)
                cx.requires(kw["offset_range"][1] + top <= m1)
            given = {k: tuple(v) for k, v in kw.items()}
            if free == "room":
                given["offset_range"] = tuple(room(v, A, m0, m1) for v in kw["offset_range"])
            with cx.unchecked():
                g = with_rng(cls_of(kind), rng)(reference_state="i", episode_lengths=(L, L), limit_margin=(m0, m1), **kw)
            g.set_modules(ps)
            first = len(rng.log)
            _, obs, _ = g.reset(None, None)
            us = uniforms(rng)
            got = [(i, obs[0])] if cx.symbolic else []
            if not cx.symbolic:
                n_draws = len(rng.log)
                for j in range(L):
                    got.append((j, obs[0]))
                    if j + 1 < L:
                        obs = g.get_reference_observation(None)
                cx.ensure("parameters are kept for the whole sub episode", len(rng.log) == n_draws)

            def params(u):
                d = {k: given[k + "_range"][0] for k in ("amplitude", "offset", "frequency")}
                if free != "fixed":
                    key = "offset" if free == "room" else free
                    lo_, hi_ = given[key + "_range"]
                    d[key] = lo_ + (hi_ - lo_) * u
                return d["amplitude"], d["offset"], d["frequency"]

            def fits(u, p, w):
                a_, o_, f_ = params(u)
                return conj(cx, *[follows(cx, kind, v, a_, o_, f_ * (j * tau) + p, w, (-m0, m1)) for j, v in got])

            us = us[::-1][:6]
            r = range(len(us))
            cands = [(us[a], us[b], us[c] if kind == "triangle" else 1) for c in (r if kind == "triangle" else [-1]) for b in r for a in (r if free != "fixed" else [-2]) if len({a, b, c}) == 3]
            cx.ensure_some("sample of the documented wave", [lambda c=c: fits(*c) for c in cands], info=f"{got[:4]}")
    finally:
        NP.generic = None


@contract("C20", cases=[(n, v) for n in ("1", "n") for v in ("fixed", "room")], targets=targets("step"), samples=40, assumes=["vectorised numpy operations act elementwise (np.roll moves elements only): the symbolic run follows one arbitrary element of the trajectory"])
def step_shape(cx, n, free):
    """the samples are offset + amplitude for `1 - ratio` of a period and offset - amplitude for the rest, shifted by the drawn phase and cut off at the margins"""
    from vc.shim import NP

    rng = Rng(cx)
    if n == "1":
        L, i = 1, 0
    elif cx.symbolic:
        L, i = cx.int("length", lo=2), cx.int("index", lo=0)
        cx.requires(i < L)
        NP.generic = (L, i)
    else:
        L = length(cx, 2)
        cx.int("index", lo=0)
    NP.rolled = []
    try:
        ps, lim, nom = system(cx, -1.0)
        tau = ps.tau
        A = cx.real("amplitude", lo=0, typ=(0.05, 0.4))
        o = cx.real("offset", typ=(-0.2, 0.2))
        f = cx.real("frequency", gt=0, typ=(1, 30))
        m0, m1 = cx.real("margin0", gt=0, hi=1, typ=(0.7, 1)), cx.real("margin1", gt=0, hi=1, typ=(0.7, 1))
        given = o, o
        if free == "room":
            given = o, o + cx.nonneg("width", typ=(0.5, 2))
            cx.requires(2 * A <= m0 + m1)
        else:
            cx.requires(-m0 <= o - A)
            cx.requires(o + A <= m1)
        with cx.unchecked():
            g = with_rng(cls_of("step"), rng)(reference_state="i", episode_lengths=(L, L), limit_margin=(m0, m1), amplitude_range=(A, A), offset_range=given, frequency_range=(f, f))
        g.set_modules(ps)
        _, obs, _ = g.reset(None, None)
        got = [obs[0]]
        if not cx.symbolic:
            got += [g.get_reference_observation(None)[0] for _ in range(L - 1)]
        ratios = [e[1] for e in rng.log if e[0] == "triangular"]
        cx.ensure("the high/low ratio is drawn", len(ratios) >= 1)
        if not ratios:
            return
        r, us = ratios[-1], uniforms(rng)[::-1]
        offsets = [o]
        if free == "room":
            l_, h_ = (room(v, A, m0, m1) for v in given)
            offsets = [l_ + (h_ - l_) * u for u in us]
        with cx.unchecked():
            per = 1 / f / tau
            if cx.symbolic:
                x = f * ((i * tau) % (1 / f)) if n != "1" else 0.0
                v = got[0]
                cx.ensure_some("the level follows the position in the period", [lambda o=o: conj(cx, implies(cx, x > r, equal(cx, v, o + A)), implies(cx, x < r, equal(cx, v, o - A)), implies(cx, x == r, equal(cx, v, o))) for o in offsets])
                if n != "1":
                    from vc import sym as S

                    for s in NP.rolled:
                        cx.ensure_some("shifted by the phase", [lambda u=u: s == S.floor(per * u) for u in us])
                return
            x = [f * ((j * tau) % (1 / f)) for j in range(L)]
            if any(min(abs(a - r), a, 1 - a) < 1e-9 for a in x[1:]) or abs(x[0] - r) < 1e-9:
                return
            s = [1 if a > r else -1 for a in x]
            cx.ensure("the documented step wave", any(all(equal(cx, v, o + A * s[(j - int(per * u)) % L]) for j, v in enumerate(got)) for u in us for o in offsets), info=f"{got[:6]}")
    finally:
        NP.generic = None


@contract("C20", cases=["wiener", "laplace"], targets=targets("wiener") + targets("laplace"), samples=30)
def random_walk_any_length(cx, kind):
    """loop invariant on the real loop, sub-episodes of any length: element i is written once, in iteration i, and is element i - 1
    (the last reference for i = 0) plus draw i limited to the margins"""
    if not cx.symbolic:
        return random_walk_body(cx, kind, min(int(cx.int("length", lo=1, typ=(1, 25))), 3000), "fixed sigma")
    from .walk import any_length

    any_length(cx, kind, True)


@contract("C20", cases=[(k, n, v) for k in ("wiener", "laplace") for n in (1, 2, 3) for v in ("fixed sigma", "sigma range") if n < 3 or v == "fixed sigma"], targets=targets("wiener") + targets("laplace"), samples=40)
def random_walk(cx, kind, n, v):
    """each value is the previous one plus the drawn increment, limited to the margins; the walk continues over sub-episode borders"""
    random_walk_body(cx, kind, n, v)


def random_walk_body(cx, kind, n, v):
    rng = Rng(cx)
    ps, lim, nom = system(cx, -1.0)
    m0, m1 = cx.real("margin0", gt=0, hi=1), cx.real("margin1", gt=0, hi=1)
    sig = (0.1, 0.1) if v == "fixed sigma" else (1e-3, 1e-1)
    with cx.unchecked():
        g = with_rng(cls_of(kind), rng)(reference_state="i", episode_lengths=(n, n), limit_margin=(m0, m1), sigma_range=sig)
    g.set_modules(ps)
    how = cx.choice("start", ["none", "given"])
    init = None
    if how == "given":
        init = cx.array([0.0, 0.0, cx.real("initial", typ=(-0.6, 0.6))])
    ref, obs, _ = g.reset(None, init)
    last = ref[2]
    if init is not None:
        cx.ensure_eqs("starts at the initial reference", ref, init)
    for k in range((n + 1 if n < 3 else n) if v == "fixed sigma" else 1):
        if k:
            obs = g.get_reference_observation(None)
        draws = [e[1] for e in rng.log if e[0] == ("normal" if kind == "wiener" else "laplace")]
        cx.ensure("one increment per step is drawn", len(draws) == (k // n + 1) * n)
        if len(draws) <= k:
            return
        with cx.unchecked():
            if v == "fixed sigma":
                cands = [10 ** np.log10(0.1)]
            else:
                import math as m

                lo, hi = m.log10(1e-3), m.log10(1e-1)
                cands = [10 ** ((hi - lo) * u + lo) for u in uniforms(rng)[::-1]]

            def ok(s):
                w = last + s * draws[k]
                return conj(cx, implies(cx, w > m1, equal(cx, obs[0], m1)), implies(cx, w < -m0, equal(cx, obs[0], -m0)), implies(cx, conj(cx, w >= -m0, w <= m1), equal(cx, obs[0], w)))

            cx.ensure_some("previous value plus increment, limited to the margins", [lambda s=s: ok(s) for s in cands])
        last = obs[0]


@contract("C20", cases=[(k, s) for k in CLS for s in ("none", "given")] + [("const", "none"), ("zero", "none")], targets=ALLT + [R + "const_reference_generator.ConstReferenceGenerator." + m for m in ("get_reference", "get_reference_observation")], samples=40, merge=True)
def announced(cx, kind, start):
    """every real generator, over a reset, sub-episode borders and a second reset: the announced reference is the one used next"""
    rng = Rng(cx)
    if kind in CLS:
        ps, lim, nom = system(cx, -1.0)
        mkw, lo, hi = margin(cx, "tuple", -1.0, lim, nom)
        kw = ranges(cx, kind, "default")
        L = 2 if kind in ("wiener", "laplace") and cx.symbolic else (1 if cx.symbolic and kind == "triangle" else cx.choice("length", [1, 2]) if cx.symbolic else cx.choice("length", [1, 2, 3]))
        with cx.unchecked():
            g = with_rng(cls_of(kind), rng)(reference_state="i", episode_lengths=L, **mkw, **kw)
    else:
        from gym_electric_motor.reference_generators import ConstReferenceGenerator, ZeroReferenceGenerator

        ps = StubSystem(cx, [], NAMES)
        g = ConstReferenceGenerator(reference_state="i", reference_value=cx.real("value", lo=-1, hi=1)) if kind == "const" else ZeroReferenceGenerator()
    with signal_stub(kind):
        g.set_modules(ps)
        for e in range(1 if cx.symbolic and kind in CLS else 2):
            init = None
            if start == "given":
                init = cx.vec(f"init{e}_", 3, lo=0, hi=0.1)
                cx.requires(init[2] <= hi)
            ref, obs, _ = g.reset(cx.vec(f"x{e}_", 3), init)
            if init is not None:
                cx.ensure_eqs("the first reference is the initial one", ref, [0.0, 0.0, init[2]])
            for k in range(2 if cx.symbolic and kind in CLS else 4):
                if kind == "zero":
                    cx.ensure("nothing announced", len(obs) == 0)
                    cx.ensure_eqs("zero", g.get_reference(None), [0.0, 0.0, 0.0])
                else:
                    next_reference(cx, g, f"episode {e} step {k}", obs)
                obs = g.get_reference_observation(None)
