"""C19 generated references stay in the permitted range."""
import math

import numpy as np

from vc.engine import contract

from .envstub import StubSystem
from .rng import Rng, with_rng

R = "gym_electric_motor.reference_generators."
CLS = {"wiener": ("wiener_process_reference_generator", "WienerProcessReferenceGenerator"), "laplace": ("laplace_process_reference_generator", "LaplaceProcessReferenceGenerator"), "sinus": ("sinusoidal_reference_generator", "SinusoidalReferenceGenerator"),
       "step": ("step_reference_generator", "StepReferenceGenerator"), "sawtooth": ("sawtooth_reference_generator", "SawtoothReferenceGenerator"), "triangle": ("triangle_reference_generator", "TriangularReferenceGenerator")}
PERIODIC = ("sinus", "step", "sawtooth", "triangle")
NAMES = ["omega", "torque", "i"]
SAW = "scipy.signal.sawtooth(x, width) is external: assumed to be the documented function (rising from -1 to 1 over the fraction `width` of a period 2 pi, falling back over the rest)"


def cls_of(kind):
    import importlib

    mod, name = CLS[kind]
    return getattr(importlib.import_module(R + mod), name)


def targets(kind):
    mod, name = CLS[kind]
    return [f"{R}{mod}.{name}.{m}" for m in ("set_modules", "_reset_reference", "reset")] + [R + "subepisoded_reference_generator.SubepisodedReferenceGenerator." + m for m in ("set_modules", "reset", "get_reference", "get_reference_observation", "_get_current_value")]




def length(cx, lo):
    """a concrete sub-episode length for the run on the real code"""
    n = int(cx.int("length", lo=lo, typ=(lo, 25)))
    cx.requires(n <= 4000)
    return n


ALLT = sorted({t for k in CLS for t in targets(k)})


def sawtooth(x, width=1):
    """contract of scipy.signal.sawtooth on scalars / vectors, symbolic"""
    from vc import sym as S

    a = np.asarray(x, dtype=object)
    out = []
    for v in a.reshape(-1):
        t = v / (2 * math.pi)
        f = t - S.floor(t) if hasattr(t, "e") else t % 1.0
        if isinstance(width, (int, float)) and width == 1:
            out.append(2 * f - 1)
        elif bool(f < width):
            out.append(2 * f / width - 1)
        else:
            out.append((width + 1 - 2 * f) / (1 - width))
    from vc.shim import vec

    return vec(out)


class Signal:
    def __getattr__(self, n):
        import scipy.signal as s

        return getattr(s, n)

    def sawtooth(self, t, width=1):
        from vc.sym import has_sym

        import scipy.signal as s

        if has_sym(np.asarray(t, dtype=object)) or has_sym(width):
            return sawtooth(t, width)
        return s.sawtooth(np.asarray(t, dtype=float), float(width))


def signal_stub(kind):
    import contextlib
    import importlib

    from .common import patched

    if kind not in ("sawtooth", "triangle"):
        return contextlib.nullcontext()
    import scipy

    mod = importlib.import_module(R + CLS[kind][0])
    return patched(*[(mod, n, Signal()) for n, v in list(mod.__dict__.items()) if v is scipy.signal])


def system(cx, low, names=NAMES, idx=2):
    nom = [cx.positive(f"nom{i}") for i in range(len(names))]
    lim = [n + cx.nonneg(f"reserve{i}") for i, n in enumerate(nom)]
    lo = [-1.0] * len(names)
    lo[idx] = low
    tau = cx.positive("tau", typ=(1e-3, 0.02))
    ps = StubSystem(cx, [], names, limits=lim, nominal=nom, low=lo, tau=1e-3)
    ps._tau = tau
    return ps, lim, nom


def margin(cx, how, low, lim, nom, idx=2):
    """(constructor argument, lower, upper)"""
    if how == "default":
        f = nom[idx] / lim[idx]
        return {}, f * low, f * 1.0
    if how == "float":
        m = cx.real("margin", gt=0, hi=1)
        return {"limit_margin": m}, m * low, m * 1.0
    m0, m1 = cx.real("margin0", gt=0, hi=1), cx.real("margin1", gt=0, hi=1)
    return {"limit_margin": (m0, m1)}, m0 * low, m1 * 1.0


def ordered(cx, name, lo=None, typ=(-1, 1), special=()):
    kw = {} if lo is None else {"gt": lo}
    a = cx.real(name + "_lo", typ=typ, **kw)
    return (a, a + cx.nonneg(name + "_width", typ=(0.01, typ[1])))


def ranges(cx, kind, how):
    kw = {}
    if kind in PERIODIC:
        kw["frequency_range"] = ordered(cx, "freq", lo=0, typ=(1, 30))
        if how != "default":
            kw["amplitude_range"] = ordered(cx, "amp", typ=(-0.2, 1.2))
            kw["offset_range"] = ordered(cx, "off", typ=(-1.2, 1.2))
    else:
        kw["sigma_range"] = (1e-3, 1e-1)
    if kind == "wiener" and how != "default":
        kw["initial_range"] = ordered(cx, "init", typ=(-1.3, 1.3))
    return kw


def build(cx, kind, how, low, mh, length, rng):
    ps, lim, nom = system(cx, low)
    mkw, lo, hi = margin(cx, mh, low, lim, nom)
    kw = ranges(cx, kind, how)
    given = dict(kw)
    with cx.unchecked():
        g = with_rng(cls_of(kind), rng)(reference_state="i", episode_lengths=length, **mkw, **kw)
    g.set_modules(ps)
    return g, ps, lo, hi, given


def check(cx, g, name, ref, lo, hi):
    cx.ensure(name + ": one entry per state", np.asarray(ref).shape == (3,))
    cx.ensure_eq(name + ": other states 0", ref[0], 0.0)
    cx.ensure_eq(name + ": other states 0 (2)", ref[1], 0.0)
    cx.ensure_between(name + ": inside the margin", ref[2], lo, hi, tol=1e-9)


CASES = [(k, h, l, m) for k in CLS for h in ("default", "given") for l, m in ((-1.0, "default"), (0.0, "float"), (-1.0, "tuple"), (0.0, "tuple")) if not (k == "laplace" and h == "given")]


@contract("C19", cases=CASES, targets=ALLT, samples=60, merge=True, assumes=[SAW, "vectorised numpy operations act elementwise: the symbolic run follows one arbitrary element of the trajectory; random walks here with one element, of any length in contract walk_any_length"])
def in_range(cx, kind, how, low, mh):
    """every value of a sub-episode of any length, for every draw, lies in the limit margin and in the announced space"""
    from vc.shim import NP

    rng = Rng(cx)
    walk = kind not in PERIODIC
    if cx.symbolic:
        L = 1 if walk else cx.int("length", lo=1)
        i = cx.int("index", lo=0)
        if not walk:
            cx.requires(i < L)
            cx.requires(L >= 1)
        NP.generic = None if walk else (L, i)
    else:
        L = length(cx, 1)
        cx.int("index", lo=0)
    try:
        with signal_stub(kind):
            g, ps, lo, hi, given = build(cx, kind, how, low, mh, (L, L), rng)
            space = g.reference_space
            cx.ensure_eq("announced space: low", space.low[0], lo)
            cx.ensure_eq("announced space: high", space.high[0], hi)
            cx.ensure("announced space: shape", tuple(space.shape) == (1,))
            cx.ensure("referenced states", [bool(b) for b in g.referenced_states] == [False, False, True])
            cx.ensure("reference names", list(g.reference_names) == ["i"])
            start = cx.choice("start", ["none", "given"])
            init = None
            if start == "given":
                v = cx.real("initial", typ=(0, 0.3))
                cx.requires(lo <= v)
                cx.requires(v <= hi)
                init = cx.array([cx.real("junk0"), cx.real("junk1"), v])
            ref, obs, _ = g.reset(None, init)
            if init is not None:
                cx.ensure_eq("the initial reference is the first reference", ref[2], v)
            check(cx, g, "reset", ref, lo, hi)
            for k in range(1 if cx.symbolic else 2 * L + 3):
                cx.ensure("one observation", np.asarray(obs).shape == (1,))
                cx.ensure_between("observation inside the margin", obs[0], lo, hi, tol=1e-9)
                check(cx, g, "step", g.get_reference(None), lo, hi)
                if not cx.symbolic:
                    obs = g.get_reference_observation(None)
    finally:
        NP.generic = None


@contract("C19", cases=["wiener", "laplace"], targets=targets("wiener") + targets("laplace"), samples=40)
def walk_any_start(cx, kind):
    """one iteration of a random walk from an arbitrary (even inadmissible) previous value ends inside the margin"""
    rng = Rng(cx)
    g, ps, lo, hi, _ = build(cx, kind, "default", -1.0, "tuple", (1, 1), rng)
    v = cx.real("previous", typ=(-5, 5))
    _, obs, _ = g.reset(None, cx.array([0.0, 0.0, v]))
    cx.ensure_between("inside the margin", obs[0], lo, hi, tol=1e-9)
    check(cx, g, "step", g.get_reference(None), lo, hi)
    obs = g.get_reference_observation(None)
    cx.ensure_between("next one inside the margin", obs[0], lo, hi, tol=1e-9)


@contract("C19", cases=["wiener", "laplace"], targets=targets("wiener") + targets("laplace"), samples=30)
def walk_any_length(cx, kind):
    """sub-episodes of any length (loop invariant on the real loop): every element is inside the margin, from any start value"""
    if not cx.symbolic:
        return walk_samples(cx, kind)
    from .walk import any_length

    any_length(cx, kind, False)


def walk_samples(cx, kind):
    rng = Rng(cx)
    n = min(int(cx.int("length", lo=1, typ=(1, 25))), 3000)
    g, ps, lo, hi, _ = build(cx, kind, "default", -1.0, "tuple", (n, n), rng)
    v = cx.real("start", typ=(-5, 5))
    _, obs, _ = g.reset(None, cx.array([0.0, 0.0, v]))
    for j in range(n):
        cx.ensure_between("inside the margin", obs[0], lo, hi, tol=1e-9)
        obs = g.get_reference_observation(None)


@contract("C19", cases=["const", "const upper", "zero"], targets=[R + "const_reference_generator.ConstReferenceGenerator." + m for m in ("__init__", "set_modules", "get_reference", "get_reference_observation")] + [R + "zero_reference_generator.ZeroReferenceGenerator." + m for m in ("set_modules", "get_reference", "get_reference_observation")], samples=20)
def constant(cx, kind):
    """constant and zero references"""
    from gym_electric_motor.reference_generators import ConstReferenceGenerator, ZeroReferenceGenerator

    ps = StubSystem(cx, [], NAMES)
    if kind == "zero":
        g = ZeroReferenceGenerator()
        g.set_modules(ps)
        ref, obs, _ = g.reset(None)
        cx.ensure("no observation", np.asarray(obs).shape == (0,) and tuple(g.reference_space.shape) == (0,))
        cx.ensure("no names", list(g.reference_names) == [])
        cx.ensure("no referenced states", not any(g.referenced_states))
        for r in (ref, g.get_reference(None)):
            cx.ensure_eqs("all states 0", r, [0.0, 0.0, 0.0])
        return
    v = cx.real("value", lo=-1, hi=1)
    g = ConstReferenceGenerator(reference_state="I" if kind == "const upper" else "i", reference_value=v)
    g.set_modules(ps)
    cx.ensure_eqs("space low", g.reference_space.low, [v])
    cx.ensure_eqs("space high", g.reference_space.high, [v])
    cx.ensure("names", isinstance(g.reference_names, (list, tuple)) and list(g.reference_names) == ["i"])
    cx.ensure("referenced states", [bool(b) for b in g.referenced_states] == [False, False, True])
    ref, obs, _ = g.reset(None, cx.vec("init", 3))
    for k in range(3):
        cx.ensure_eqs("reference", ref, [0.0, 0.0, v])
        cx.ensure_eqs("observation", obs, [v])
        ref, obs = g.get_reference(None), g.get_reference_observation(None)


COMP = [R + "multiple_reference_generator.MultipleReferenceGenerator." + m for m in ("set_modules", "reset", "get_reference_observation")] + [R + "switched_reference_generator.SwitchedReferenceGenerator." + m for m in ("set_modules", "reset", "get_reference_observation")]


@contract("C19", cases=[(k, n) for k in ("multiple", "switched", "nested") for n in (1, 2, 3)], targets=COMP, samples=40, merge=True)
def composed(cx, kind, n):
    """parts whose observations lie in their own, arbitrary, spaces: the composition's observations lie in its announced space"""
    from gym_electric_motor.reference_generators import MultipleReferenceGenerator, SwitchedReferenceGenerator

    from .c21 import NAMES as N5
    from .c21 import Part

    class Inside(Part):
        def _new(self, what, m):
            v = super()._new(what, m)
            if what == "obs":
                for i in range(m):
                    cx.requires((v[i] >= self.reference_space.low[i]) & (v[i] <= self.reference_space.high[i]) if cx.symbolic else True)
                if not cx.symbolic:
                    v = np.clip(v, self.reference_space.low, self.reference_space.high)
            return v

    log, rng = [], Rng(cx)
    ps = StubSystem(cx, [], N5)
    if kind == "multiple":
        with cx.unchecked():
            g = MultipleReferenceGenerator([Inside(cx, log, f"p{j}", [[2, 0], [1], [4]][j]) for j in range(n)])
    else:
        subs = [Inside(cx, log, f"p{j}", [2]) for j in range(n)]
        with cx.unchecked():
            g = with_rng(SwitchedReferenceGenerator, rng)(subs, super_episode_length=1)
            if kind == "nested":
                g = MultipleReferenceGenerator([Inside(cx, log, "q", [0, 1]), g])
    g.set_modules(ps)
    lo, hi = g.reference_space.low, g.reference_space.high
    _, obs, _ = g.reset(None, None)
    for k in range(3):
        cx.ensure("as many entries as the space", len(obs) == len(lo))
        for i in range(len(lo)):
            cx.ensure_between(f"step {k} entry {i}", obs[i], lo[i], hi[i])
        g.get_reference(None)
        obs = g.get_reference_observation(None)
