"""C25 state wrappers add exactly the quantities they announce, after steps and resets; nesting composes."""
import math

import numpy as np
from gymnasium.spaces import Box

from gym_electric_motor.physical_system_wrappers import CosSinProcessor, CurrentSumProcessor, DeadTimeProcessor, FluxObserver, PhysicalSystemWrapper, StateNoiseProcessor
from vc.engine import contract

from .common import MOTORS, motor
from .envstub import StubSystem
from .rng import Rng, with_rng

W = "gym_electric_motor.physical_system_wrappers."


def tgt(mod, cls, *ms):
    return [f"{W}{mod}.{cls}.{m}" for m in ms]


BASE = tgt("physical_system_wrapper", "PhysicalSystemWrapper", "__init__", "set_physical_system", "limits", "nominal_state", "state_names", "state_space", "action_space", "k", "simulate", "reset", "__getattr__")
NAMES = ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "epsilon", "u_sup"]


def inner(cx, names, cls=StubSystem, **kw):
    n = len(names)
    lim = [cx.positive(f"lim{i}", typ=(0.5, 300)) for i in range(n)]
    nom = [cx.positive(f"nom{i}", typ=(0.5, 300)) for i in range(n)]
    low = [-1.0 if i % 2 == 0 else 0.0 for i in range(n)]
    s = cls(cx, [], list(names), limits=lim, nominal=nom, low=low, **kw)
    return s, lim, nom


def announced(cx, w, names, lim, nom, low, high):
    """names, limits, nominal values, positions and space describe the same state vector"""
    n = len(names)
    cx.ensure("state names", list(w.state_names) == list(names))
    cx.ensure("state positions", dict(w.state_positions) == {k: i for i, k in enumerate(names)})
    for what, got, want in (("limits", w.limits, lim), ("nominal values", w.nominal_state, nom)):
        cx.ensure(what + ": one per state", len(got) == n)
        if len(got) == n:
            cx.ensure_eqs(what, list(got), list(want))
    cx.ensure("state space: one dimension per state", w.state_space.shape == (n,))
    if w.state_space.shape == (n,) and low is not None:
        for k in range(n):
            if low[k] is not None:
                cx.ensure_eq("lower bound of the space", w.state_space.low[k], low[k])
                cx.ensure_eq("upper bound of the space", w.state_space.high[k], high[k])


def inner_untouched(cx, s, names, lim, nom):
    cx.ensure("inner names untouched", list(s.state_names) == list(names) and dict(s.state_positions) == {k: i for i, k in enumerate(names)})
    cx.ensure_eqs("inner limits untouched", list(s.limits), lim)
    cx.ensure_eqs("inner nominal values untouched", list(s.nominal_state), nom)
    cx.ensure("inner space untouched", s.state_space.shape == (len(names),))


def drive(cx, w, s, spec, steps=2, episodes=2):
    """arbitrary histories: spec(inner state) is the expected outer state"""
    for ep in range(episodes):
        for k in range(steps + 1):
            n = len(s.states)
            if k == 0:
                out = w.reset()
                cx.ensure("one inner reset", s.resets == ep + 1)
            else:
                a = cx.vec(f"act{ep}_{k}_", 2, typ=(-1, 1))
                out = w.simulate(a)
                cx.ensure("one inner step", len(s.actions) == ep * steps + k)
                cx.ensure_eqs("action handed through", list(s.actions[-1]), list(a))
            cx.ensure("one inner state", len(s.states) == n + 1)
            want = spec(s.states[-1], k)
            cx.ensure("length of the state", len(out) == len(want))
            if len(out) == len(want):
                cx.ensure_eqs("reset state" if k == 0 else "state after a step", list(out), want)


# ------------------------------------------------------------------ the base wrapper
@contract("C25", cases=[0, 1, 2, 3], targets=BASE, samples=15)
def transparent(cx, depth):
    """a plain wrapper, at any nesting, changes nothing"""
    s, lim, nom = inner(cx, ["a", "b", "c"])
    w = s
    for _ in range(depth):
        w = PhysicalSystemWrapper().set_physical_system(w)
    announced(cx, w, ["a", "b", "c"], lim, nom, list(s.state_space.low), list(s.state_space.high))
    cx.ensure("action space", w.action_space is s.action_space)
    cx.ensure("step size", w.tau == s.tau)
    cx.ensure("innermost system", w.unwrapped is s)
    drive(cx, w, s, lambda x, k: list(x))
    cx.ensure("step counter", w.k == s.k)
    s.special = object()
    cx.ensure("further attributes are those of the inner system", w.special is s.special)


# ------------------------------------------------------------------ cos / sin
@contract("C25", cases=[(i, r, late) for i in (0, 1, 2) for r in (False, True) for late in (False, True)], targets=tgt("cos_sin_processor", "CosSinProcessor", "__init__", "set_physical_system", "reset", "simulate", "_get_cos_sin", "_delete_angle", "angle"), samples=40)
def cos_sin(cx, pos, remove, late):
    """the state, without the angle if it is to be removed, followed by its cosine and sine"""
    names = ["a", "b", "c"]
    s, lim, nom = inner(cx, names)
    low, high = list(s.state_space.low), list(s.state_space.high)
    kw = dict(angle=names[pos], remove_angle=remove)
    w = CosSinProcessor(**kw).set_physical_system(s) if late else CosSinProcessor(physical_system=s, **kw)
    cut = (lambda v: [x for i, x in enumerate(v) if i != pos]) if remove else list
    announced(cx, w, cut(names) + [f"cos({names[pos]})", f"sin({names[pos]})"], cut(lim) + [1.0, 1.0], cut(nom) + [1.0, 1.0], cut(low) + [-1.0, -1.0], cut(high) + [1.0, 1.0])
    cx.ensure("angle", w.angle == names[pos])

    def spec(x, k):
        a = x[pos] * math.pi
        return cut(list(x)) + [a.cos() if cx.symbolic else math.cos(a), a.sin() if cx.symbolic else math.sin(a)]

    drive(cx, w, s, spec)
    inner_untouched(cx, s, names, lim, nom)


# ------------------------------------------------------------------ sum of currents
@contract("C25", cases=[(c, l, late) for c in (("i_a",), ("i_a", "i_e"), ("i_e", "i_a"), ("i_a", "i_e", "i_x")) for l in ("max", "sum") for late in (False, True)], targets=tgt("current_sum_processor", "CurrentSumProcessor", "__init__", "set_physical_system", "reset", "simulate", "_get_current_sum"), samples=40)
def current_sum(cx, currents, limit, late):
    """i_sum is the normalised sum of the currents"""
    names = ["omega", "i_a", "u", "i_e", "i_x"]
    s, lim, nom = inner(cx, names)
    low, high = list(s.state_space.low), list(s.state_space.high)
    idx = [names.index(c) for c in currents]
    w = CurrentSumProcessor(currents, limit=limit).set_physical_system(s) if late else CurrentSumProcessor(currents, limit=limit, physical_system=s)
    lims = w.limits
    cx.ensure("limits: one per state", len(lims) == 6)
    if len(lims) != 6:
        return
    L, N = lims[5], w.nominal_state[5]
    for v, src, what in ((L, lim, "limit"), (N, nom, "nominal value")):
        if limit == "sum":
            cx.ensure_eq(f"{what} of i_sum", v, sum((src[i] for i in idx), 0))
        else:
            for i in idx:
                cx.ensure_le(f"{what} of i_sum not below the currents'", src[i], v)
            cx.ensure_some(f"{what} of i_sum is one of the currents'", [lambda i=i: v == src[i] for i in idx])
    announced(cx, w, names + ["i_sum"], lim + [L], nom + [N], low + [-1.0], high + [1.0])
    drive(cx, w, s, lambda x, k: list(x) + [sum((x[i] * lim[i] for i in idx), 0) / L])
    inner_untouched(cx, s, names, lim, nom)


# ------------------------------------------------------------------ flux observer
FNAMES = ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "epsilon"]


@contract("C25", cases=[(k, late) for k in ("scim", "dfim") for late in (False, True)], targets=tgt("flux_observer", "FluxObserver", "__init__", "set_physical_system", "reset", "simulate", "_abc_to_alphabeta_transformation"), samples=60)
def flux_observer(cx, kind, late):
    """psi_abs and psi_angle are those of the rotor flux obtained by explicit Euler integration of the motor's own rotor flux equation from zero"""
    m, mp = motor(cx, kind)
    tau = cx.positive("tau", typ=(1e-4, 1e-2))
    s, lim, nom = inner(cx, FNAMES, tau=tau)
    s.electrical_motor = m
    low, high = list(s.state_space.low), list(s.state_space.high)
    w = FluxObserver().set_physical_system(s) if late else FluxObserver(physical_system=s)
    L = w.limits
    cx.ensure("limits: one per state", len(L) == 9)
    if len(L) != 9:
        return
    cx.ensure_eq("limit of the angle", L[8], math.pi)
    cx.ensure_eq("limit of the flux: main inductance times limit of i_sd", L[7], mp["l_m"] * lim[5])
    announced(cx, w, FNAMES + ["psi_abs", "psi_angle"], lim + [L[7], math.pi], nom + [w.nominal_state[7], w.nominal_state[8]], low + [None, None], high + [None, None])
    flux = [0, 0]

    def next_flux(x):
        """one Euler step of the model of the motor, from the measured currents"""
        ph = [x[2 + j] * lim[2 + j] for j in range(3)]
        i_al, i_be = m.t_23(cx.array(ph))
        u = np.zeros((2, 2)) if kind == "dfim" else np.zeros(2)
        d = m.electrical_ode(cx.array([i_al, i_be, flux[0], flux[1], 0.0]), u, x[0] * lim[0])
        flux[:] = [flux[0] + d[2] * tau, flux[1] + d[3] * tau]

    for ep in range(2):
        out = w.reset()
        flux[:] = [0, 0]
        cx.ensure("length after a reset", len(out) == 9)
        if len(out) != 9:
            return
        cx.ensure_eqs("reset state", list(out), list(s.states[-1]) + [0.0, 0.0])
        for k in range(2 if ep == 0 else 1):
            out = w.simulate(cx.vec(f"act{ep}_{k}_", 2, typ=(-1, 1)))
            x = s.states[-1]
            next_flux(x)
            cx.ensure("length after a step", len(out) == 9)
            cx.ensure_eqs("inner state", list(out[:7]), list(x))
            r, a = out[7] * L[7], out[8] * math.pi
            scale = 1 + abs(float(flux[0])) + abs(float(flux[1])) if not cx.symbolic else 1
            cx.ensure_le("psi_abs not negative", 0.0, r)
            c, sn = (a.cos(), a.sin()) if hasattr(a, "cos") else (math.cos(a), math.sin(a))
            cx.ensure_eq("psi_angle (alpha)", r * c, flux[0], scale=scale)
            cx.ensure_eq("psi_angle (beta)", r * sn, flux[1], scale=scale)
            cx.ensure_between("psi_angle in its range", out[8], -1.0, 1.0, tol=1e-9)
    inner_untouched(cx, s, FNAMES, lim, nom)


# ------------------------------------------------------------------ noise
class KeepingSystem(StubSystem):
    """hands out copies and keeps the original states"""

    def _new(self):
        return super()._new().copy()


def which(cx, value, candidates, prefer):
    """index of the candidate that equals the value for all inputs of the path (samples may contain equal values: preferred first)"""
    for j in sorted(range(len(candidates)), key=lambda j: not prefer(j)):
        c = candidates[j]
        if cx.symbolic:
            from vc import sym

            if cx.n.zero(sym.to_real(value) - sym.to_real(c)):
                return j
        elif abs(value - c) <= 1e-9:
            return j
    return None


NOISE = {
    "normal": (dict(loc=0.25, scale=0.5), lambda v: 0.25 + 0.5 * v),
    "laplace": (dict(scale=0.5), lambda v: 0.5 * v),
    "uniform": (dict(low=-0.5, high=0.25), lambda v: -0.5 + 0.75 * v),
}


@contract("C25", cases=[(st, n, d) for st in (("a",), ("c", "a"), "all") for n in (1, 2, 5) for d in NOISE], targets=tgt("state_noise_processor", "StateNoiseProcessor", "__init__", "set_physical_system", "reset", "simulate", "_add_noise", "_new_noise", "random_kwargs"), samples=25)
def noise(cx, states, n, dist):
    """every selected state receives one new noise value of the configured distribution per step; the others are unchanged"""
    names = ["a", "b", "c"]
    s, lim, nom = inner(cx, names, cls=KeepingSystem)
    low, high = list(s.state_space.low), list(s.state_space.high)
    rng = Rng(cx, "n")
    kw, value = NOISE[dist]
    with cx.unchecked():
        w = with_rng(StateNoiseProcessor, rng)(states, random_dist=dist, random_kwargs=kw, random_length=n, physical_system=s)
    announced(cx, w, names, lim, nom, low, high)
    sel = [names.index(x) for x in (names if states == "all" else states)]
    used = set()
    for ep in range(2):
        start = len(rng.log)
        for k in range(4):
            out = w.reset() if k == 0 else w.simulate(cx.vec(f"act{ep}_{k}_", 2, typ=(-1, 1)))
            x = s.states[-1]
            cx.ensure("length", len(out) == 3)
            draws = [value(e[1]) for e in rng.log]
            for i in range(3):
                if i not in sel:
                    cx.ensure_eq("other state unchanged", out[i], x[i])
                    continue
                j = which(cx, out[i] - x[i], draws, lambda j: j >= start and j not in used)
                cx.ensure("the noise is a value drawn from the configured distribution", j is not None)
                cx.ensure("drawn in this episode", j is None or j >= start)
                cx.ensure("never used before", j not in used)
                used.add(j)
    inner_untouched(cx, s, names, lim, nom)


# ------------------------------------------------------------------ nesting
class Layer:
    def __init__(self, names, lim, nom, low, high, spec):
        self.names, self.lim, self.nom, self.low, self.high, self.spec = names, lim, nom, low, high, spec


def layer(cx, kind, L):
    """the wrapper and the layer it must turn layer L into"""
    if kind == "dead":
        return DeadTimeProcessor(1), L
    if kind == "plain":
        return PhysicalSystemWrapper(), L
    if kind == "noise":
        rng = Rng(cx, f"z{len(L.names)}")
        rng.normal = lambda loc=0.0, scale=1.0, size=None: np.zeros(size)  # the noise values: contract noise
        return with_rng(StateNoiseProcessor, rng)([L.names[-1]], random_length=2), L
    if kind == "sum":
        src = [n for n in L.names if n in ("i_a", "i_e")]
        idx = [L.names.index(n) for n in src]
        total = lambda v: sum((v[i] for i in idx), 0)
        lim, nom = total(L.lim), total(L.nom)
        spec = lambda x: (lambda v: v + [sum((v[i] * L.lim[i] for i in idx), 0) / lim])(L.spec(x))
        return CurrentSumProcessor(src, limit="sum"), Layer(L.names + ["i_sum"], L.lim + [lim], L.nom + [nom], L.low + [-1.0], L.high + [1.0], spec)
    remove = kind in ("cosr", "cosw")
    angle = "omega" if kind == "cosw" else "eps"
    pos = L.names.index(angle)
    cut = (lambda v: [x for i, x in enumerate(v) if i != pos]) if remove else list

    def spec(x):
        v = L.spec(x)
        a = v[pos] * math.pi
        return cut(v) + [a.cos() if cx.symbolic else math.cos(a), a.sin() if cx.symbolic else math.sin(a)]

    one = [1.0, 1.0]
    return CosSinProcessor(angle, remove_angle=remove), Layer(cut(L.names) + [f"cos({angle})", f"sin({angle})"], cut(L.lim) + one, cut(L.nom) + one, cut(L.low) + [-1.0] * 2, cut(L.high) + one, spec)


KINDS = ["cos", "cosr", "cosw", "sum", "noise", "dead", "plain"]


@contract("C25", cases=[(a, b, "-") for a in KINDS for b in KINDS if not (a == b and a in ("cos", "cosr", "cosw", "sum")) and not (a == "cosr" and b == "cos")] + [("cosr", "sum", "noise"), ("sum", "cosr", "dead"), ("noise", "sum", "cosr"), ("plain", "cos", "sum"), ("dead", "cosr", "sum"), ("cosw", "sum", "cosr"), ("cosw", "noise", "cos"), ("cosr", "plain", "cosw")], targets=BASE + ["CosSinProcessor, CurrentSumProcessor, StateNoiseProcessor, DeadTimeProcessor in every order"], samples=20)
def nested(cx, a, b, c):
    """every order of wrappers gives the composition of their additions"""
    names = ["omega", "i_a", "eps", "i_e"]
    s, lim, nom = inner(cx, names, cls=KeepingSystem)
    L = Layer(names, lim, nom, list(s.state_space.low), list(s.state_space.high), list)
    w = s
    for kind in (a, b, c):
        if kind == "-":
            continue
        with cx.unchecked():
            obj, L = layer(cx, kind, L)
        inside = w
        w = obj.set_physical_system(inside)
        cx.ensure("set_physical_system returns the wrapper", w is obj)
        cx.ensure("inner system", w.physical_system is inside)
        announced(cx, w, L.names, L.lim, L.nom, L.low, L.high)
    inner_untouched(cx, s, names, lim, nom)
    for ep in range(2):
        for k in range(3):
            out = w.reset() if k == 0 else w.simulate(cx.vec(f"act{ep}_{k}_", 2, typ=(-1, 1)))
            want = L.spec(list(s.states[-1]))
            cx.ensure("length of the state", len(out) == len(want))
            if len(out) == len(want):
                cx.ensure_eqs("state", list(out), want)
    cx.ensure("innermost system", w.unwrapped is s)
