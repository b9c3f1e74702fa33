"""C14 initial states."""
import math

import numpy as np

from vc.engine import contract

from .common import AC, DC, MOTORS, RecordingSolver, patched, real_converter, system_class
from .rng import Rng, with_rng

EM = "gym_electric_motor.physical_systems.electric_motors."
TM = [EM + c for c in ("electric_motor.ElectricMotor.initialize", "electric_motor.ElectricMotor.reset", "electric_motor.ElectricMotor._initial_ode_state", "synchronous_motor.SynchronousMotor.reset", "induction_motor.InductionMotor.reset",
                       "squirrel_cage_induction_motor.SquirrelCageInductionMotor._update_initial_limits", "doubly_fed_induction_motor.DoublyFedInductionMotor._update_initial_limits", "induction_motor.InductionMotor._flux_limit")]
TL = ["gym_electric_motor.physical_systems.mechanical_loads.mechanical_load.MechanicalLoad." + m for m in ("initialize", "reset", "__init__")]
TN = "scipy.stats.truncnorm is external: rvs(a, b, loc, scale, size, random_state) is assumed to return values loc + scale z with a <= z <= b, drawn from random_state only"
STATES = {"perm": ["i"], "extex": ["i_a", "i_e"], "series": ["i"], "shunt": ["i_a", "i_e"], "pmsm": ["i_sd", "i_sq", "epsilon"], "synrm": ["i_sd", "i_sq", "epsilon"], "eesm": ["i_sd", "i_sq", "i_e", "epsilon"],
          "scim": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"], "dfim": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]}
NAMES = {"extex": {"i_a": "i_a", "i_e": "i_e"}}


def arr(x):
    return [v for v in np.asarray(x, dtype=object).reshape(-1)]


class TruncNorm:
    """contract of scipy.stats.truncnorm"""

    def __init__(self, cx, rng):
        self.cx, self.rng, self.calls = cx, rng, []

    def rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        self.calls.append(random_state)
        self.loc, self.scale = loc, scale
        n = int(np.prod(size)) if size is not None else 1
        at = lambda x, k: arr(x)[k if len(arr(x)) > 1 else 0]
        out = []
        for k in range(n):
            z = self.cx.real(f"z{len(self.calls)}_{k}", typ=(-3, 3))
            lo, hi = at(a, k), at(b, k)
            if self.cx.symbolic:
                self.cx.requires(lo <= z)
                self.cx.requires(z <= hi)
            else:
                z = min(max(z, lo), hi)
            out.append(at(loc, k) + at(scale, k) * z)
        return self.cx.array(out)


def truncnorm_stub(cx, rng):
    import scipy.stats as st

    from gym_electric_motor.physical_systems.electric_motors import electric_motor
    from gym_electric_motor.physical_systems.mechanical_loads import mechanical_load

    stub = TruncNorm(cx, rng)
    return patched((st, "truncnorm", stub), (electric_motor, "truncnorm", stub), (mechanical_load, "truncnorm", stub)), stub


def distribution(cx, stub, j, mue, sigma, lo, hi, name):
    """the mean and the deviation configured; the middle of the range and 1 where none is given"""
    at = lambda x: arr(x)[j if len(arr(x)) > 1 else 0]
    cx.ensure_eq("mean: " + name, at(stub.loc), mue if mue is not None else (lo + hi) / 2)
    cx.ensure_eq("deviation: " + name, at(stub.scale), sigma if sigma is not None else 1)


def quadrants(kind, q):
    """the converters of the motor kind with the given quadrants: the state space differs between the states"""
    from gym_electric_motor.physical_systems import converters as cv

    one = {"1": cv.ContOneQuadrantConverter, "2": cv.ContTwoQuadrantConverter, "4": cv.ContFourQuadrantConverter}
    return real_converter(kind) if not q else one[q]() if len(q) == 1 else cv.ContMultiConverter(tuple(one[c]() for c in q))


def fixture(cx, kind, motor_kw, load_kw=None, rng=None, q=""):
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    cls = MOTORS[kind][0]
    if rng is not None:
        cls = with_rng(cls, rng)
    m = cls(**motor_kw)
    load = PolynomialStaticLoad(**(load_kw or {}))
    s = system_class(kind)(converter=quadrants(kind, q), motor=m, load=load, supply=IdealVoltageSupply(u_nominal=100.0), ode_solver=RecordingSolver(), tau=1e-4)
    return m, load, s


def admissible(kind, nom, low, pos, name):
    """(lower, upper) of a state: nominal value and state space"""
    if kind in ("scim", "dfim"):
        return -nom[name], nom[name]
    up = nom[name]
    return up * low[pos[name]], up


def user_states(cx, kind, order, prefix="s_"):
    names = list(STATES[kind])
    if order == "reverse":
        names = names[::-1]
    elif order == "partial":
        names = names[-2:][::-1] if len(names) > 2 else names[1:]
    elif order in ("default", "no states"):
        return None
    return {n: cx.real(prefix + n, typ=(-2, 2)) for n in names}


def currents_nominal(cx, kind):
    n = cx.positive("i_nom", typ=(1, 20))
    if kind in ("extex", "shunt"):
        return {"i": n, "i_a": n, "i_e": n}
    return {"i": n, **({"i_e": n} if kind == "eesm" else {})}


QUADRANTS = ["extex/41", "extex/14", "extex/24", "perm/1", "shunt/1"]


@contract("C14", cases=[(k, o) for k in list(MOTORS) + QUADRANTS for o in ("default", "ode", "reverse", "partial", "no states") if not (o == "partial" and len(STATES[k.split("/")[0]]) == 1)], targets=TM, samples=25)
def constant_motor(cx, kind, order):
    """every reset returns the configured constants (0 where none is given) in the order of the ODE states"""
    kind, _, q = kind.partition("/")
    nom = currents_nominal(cx, kind)
    given = user_states(cx, kind, order)
    init = {"states": given} if given is not None or order == "no states" else {}
    rng = Rng(cx)
    with cx.unchecked():
        m, load, s = fixture(cx, kind, dict(motor_initializer=init, nominal_values=nom), rng=rng, q=q)
    low, pos = s.state_space.low, s.state_positions
    want = []
    for n in STATES[kind]:
        v = (given or {}).get(n, 0)
        want.append(v)
        if n.startswith("psi"):
            cx.requires(v == 0)
            continue
        lo, hi = (-math.pi, math.pi) if n == "epsilon" else (-nom["i"], nom["i"]) if kind in AC else (nom["i"] * low[pos[n]], nom["i"])
        cx.requires(lo <= v)
        cx.requires(v <= hi)
    before = dict(given) if given is not None else None
    for r in range(2):
        kw = {"omega": 0.0} if kind in ("scim", "dfim") else {}
        x = m.reset(state_space=s.state_space, state_positions=pos, **kw)
        cx.ensure_eqs(f"reset {r}: configured constants in ODE order", arr(x), want)
        cx.ensure("a new generator per episode", rng.generations == r + 1)
    if given is not None:
        cx.ensure("the user's dictionary is not modified", list(given) == list(before) and all(given[k] is before[k] for k in before))


def interval_for(cx, kind, names):
    out, rows = {}, []
    for n in names:
        lo, hi = cx.real("lo_" + n, typ=(-3, 0)), cx.real("hi_" + n, typ=(0, 3))
        out[n] = (lo, hi)
        rows.append([lo, hi])
    return out, rows


@contract("C14", cases=[(k, d, o) for k in list(MOTORS) + QUADRANTS for d in ("uniform", "normal", "gaussian") for o in ("none", "interval", "interval reverse") if not (d == "gaussian" and (o != "none" or "/" in k)) and not (o == "interval reverse" and len(STATES[k.split("/")[0]]) == 1)], targets=TM, samples=40, assumes=[TN], merge=True)
def random_motor(cx, kind, dist, how):
    """random initial states lie inside the user's interval and the admissible range, whatever is drawn"""
    kind, _, q = kind.partition("/")
    nom = currents_nominal(cx, kind)
    names = list(STATES[kind])
    if how == "interval reverse":
        names = names[::-1]
    init = {"random_init": dist}
    iv = {}
    if how != "none":
        iv, rows = interval_for(cx, kind, names)
        init["interval"] = rows
        init["states"] = {n: 0.0 for n in names}
    mue = sigma = None
    if dist != "uniform":
        params = cx.choice("params", ["given", "default"] + (["mean", "deviation"] if how == "none" else []))
        mue = cx.real("mue", typ=(-2, 2)) if params in ("given", "mean") else None
        sigma = cx.positive("sigma", typ=(0.1, 2)) if params in ("given", "deviation") else None
        if mue is not None:
            cx.requires(mue != 0)
        if params != "default":
            init["random_params"] = (mue, sigma)
    rng = Rng(cx)
    with cx.unchecked():
        m, load, s = fixture(cx, kind, dict(motor_initializer=init, nominal_values=nom), rng=rng, q=q)
    low, pos = s.state_space.low, s.state_positions
    bounds = []
    for n in STATES[kind]:
        if n.startswith("psi"):
            b = m.motor_parameter["l_m"] * nom["i"]
            lo, hi = -b, b
        elif n == "epsilon":
            lo, hi = -math.pi, math.pi
        else:
            lo, hi = (-nom["i"], nom["i"]) if kind in AC else (nom["i"] * low[pos[n]], nom["i"])
        if n in iv:
            a, b = iv[n]
            cx.requires(a <= b)
            if n.startswith("psi"):  # the flux bound depends on the drawn angle: intervals around 0 always leave a range
                cx.requires(a <= 0)
                cx.requires(b >= 0)
            else:
                cx.requires(a <= hi)
                cx.requires(b >= lo)
        bounds.append((lo, hi))
    ctx, stub = truncnorm_stub(cx, rng)
    with ctx:
        kw = {"omega": 0.0} if kind in ("scim", "dfim") else {}
        x = arr(m.reset(state_space=s.state_space, state_positions=pos, **kw))
    cx.ensure("one value per ODE state", len(x) == len(STATES[kind]))
    if dist != "uniform":
        cx.ensure("drawn from the component's own generator", len(stub.calls) == 1 and stub.calls[0] is rng)
        for j, (n, (lo, hi)) in enumerate(zip(STATES[kind], bounds) if how == "none" or kind in DC and how == "interval" else ()):
            if n in iv:
                lo, hi = (iv[n][0] if iv[n][0] > lo else lo), (iv[n][1] if iv[n][1] < hi else hi)
            if not n.startswith("psi"):
                distribution(cx, stub, j, mue, sigma, lo, hi, n)
    for n, v, (lo, hi) in zip(STATES[kind], x, bounds):
        cx.ensure_between("admissible range: " + n, v, lo, hi, tol=1e-9)
        if n in iv:
            cx.ensure_between("user interval: " + n, v, iv[n][0], iv[n][1], tol=1e-9)


@contract("C14", cases=[(d, o) for d in ("constant", "uniform", "normal") for o in ("none", "interval")], targets=TL, samples=40, assumes=[TN])
def load_init(cx, dist, how):
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gymnasium.spaces import Box

    rng = Rng(cx)
    nom = cx.positive("nominal", typ=(1, 20))
    low = cx.choice("low", [-1.0, 0.0])
    init, iv = {}, None
    lo, hi = nom * low, nom
    if how == "interval":
        iv = (cx.real("lo", typ=(-3, 0)), cx.real("hi", typ=(0, 3)))
        init["interval"] = [[iv[0], iv[1]]]
        cx.requires(iv[0] <= iv[1])
        cx.requires(iv[0] <= hi)
        cx.requires(iv[1] >= lo)
    w0 = cx.real("omega0", typ=(-2, 2))
    if dist == "constant":
        init["states"] = {"omega": w0}
        cx.requires(lo <= w0)
        cx.requires(w0 <= hi)
        if iv:
            cx.requires(iv[0] <= w0)
            cx.requires(w0 <= iv[1])
    else:
        init["random_init"] = dist
        mue = sigma = None
        params = cx.choice("params", ["given", "default", "mean", "deviation"]) if dist == "normal" else "default"
        mue = cx.real("mue", typ=(-2, 2)) if params in ("given", "mean") else None
        sigma = cx.positive("sigma", typ=(0.1, 2)) if params in ("given", "deviation") else None
        if mue is not None:
            cx.requires(mue != 0)
        if params != "default":
            init["random_params"] = (mue, sigma)
    defaults = lambda: {n: repr(v) for n, v in vars(PolynomialStaticLoad).items() if isinstance(v, dict)}
    before = defaults()
    with cx.unchecked():
        load = with_rng(PolynomialStaticLoad, rng)(load_initializer=init)
    space = Box(np.array([low, -1.0]), np.array([1.0, 1.0]), dtype=np.float64)
    ctx, stub = truncnorm_stub(cx, rng)
    with ctx:
        for r in range(2):
            x = arr(load.reset(state_space=space, state_positions={"omega": 0, "torque": 1}, nominal_state=cx.array([nom, 1.0])))
            cx.ensure("one value", len(x) == 1)
            cx.ensure("a new generator per episode", rng.generations == r + 1)
            if dist == "constant":
                cx.ensure_eq(f"reset {r}: the configured speed", x[0], w0)
            cx.ensure_between(f"reset {r}: admissible range", x[0], lo, hi, tol=1e-9)
            if iv:
                cx.ensure_between(f"reset {r}: user interval", x[0], iv[0], iv[1], tol=1e-9)
            if dist == "normal" and len(stub.calls) == r + 1:
                a, b = (lo, hi) if not iv else (iv[0] if iv[0] > lo else lo, iv[1] if iv[1] < hi else hi)
                distribution(cx, stub, 0, mue, sigma, a, b, f"reset {r}")
    if dist == "normal":
        cx.ensure("drawn from the component's own generator", all(c is rng for c in stub.calls) and len(stub.calls) == 2)
    cx.ensure("the class default is not modified", defaults() == before)
    cx.ensure("the user's dictionary is not modified", init.get("states", {"omega": w0})["omega"] is w0)


@contract("C14", cases=["scim", "dfim"], targets=TM, samples=25)
def induction_history(cx, kind):
    """the initial state of an induction motor at speed depends on the configuration and this episode's draws, not on earlier episodes"""
    nom = currents_nominal(cx, kind)
    w1, w2 = cx.real("w1", typ=(1, 10)), cx.real("w2", typ=(1, 10))
    cx.requires(w1 != 0)
    cx.requires(w2 != 0)
    res = []
    rng = Rng(cx)
    with cx.unchecked():
        m, load, s = fixture(cx, kind, dict(motor_initializer={"random_init": "uniform"}, nominal_values=nom), rng=rng)
        m2, _, s2 = fixture(cx, kind, dict(motor_initializer={"random_init": "uniform"}, nominal_values=nom), rng=rng)
    m.reset(state_space=s.state_space, state_positions=s.state_positions, omega=w1)
    k = len(rng.log)
    a = arr(m.reset(state_space=s.state_space, state_positions=s.state_positions, omega=w2))
    draws = rng.log[k:]
    rng.log = list(draws)
    rng.rewind()
    b = arr(m2.reset(state_space=s2.state_space, state_positions=s2.state_positions, omega=w2))
    cx.ensure("same number of draws", len(rng.log) == len(draws))
    cx.ensure_eqs("same draws, same initial state", a, b, scale=10)
