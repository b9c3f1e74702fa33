"""C10 mechanical loads."""
import numpy as np

from vc.engine import contract

from .rng import Rng, with_rng

ML = "gym_electric_motor.physical_systems.mechanical_loads."


def loads():
    from gym_electric_motor.physical_systems import mechanical_loads

    return mechanical_loads


def arr(x):
    return [v for v in np.asarray(x, dtype=object).reshape(-1)]


def poly(cx, rotor=True):
    lp = dict(a=cx.nonneg("a", typ=(0, 2.0)), b=cx.nonneg("b", typ=(0, 1.0)), c=cx.nonneg("c", typ=(0, 1.0)), j_load=cx.positive("j_load", typ=(0.01, 2.0)))
    with cx.unchecked():
        load = loads().PolynomialStaticLoad(load_parameter=dict(lp))
        j = lp["j_load"]
        if rotor:
            jr = cx.nonneg("j_rotor", typ=(0.01, 1.0))
            load.set_j_rotor(jr)
            j = j + jr
    return load, lp, j


def static(load, w):
    """the load torque the object applies at speed w (through the public equation, at no drive torque)"""
    return -arr(load.mechanical_ode(0.0, np.array([w], dtype=object) if not isinstance(w, float) else np.array([w]), 0.0))[0] * load.j_total


@contract("C10", cases=[(s, r) for s in ("positive", "zero", "negative") for r in (True, False)], targets=[ML + "PolynomialStaticLoad." + m for m in ("_static_load", "mechanical_ode", "set_j_rotor", "__init__")], samples=60)
def newton(cx, side, rotor):
    """total inertia, Newton's law, and the documented torque for every speed"""
    load, lp, j = poly(cx, rotor)
    w = {"positive": lambda: cx.positive("w", typ=(0, 20)), "negative": lambda: -cx.positive("w", typ=(0, 20)), "zero": lambda: cx.real("z", lo=0, hi=0)}[side]()
    T, t = cx.real("T"), cx.nonneg("t")
    cx.ensure_eq("total inertia is load plus rotor", load.j_total, j)
    got = arr(load.mechanical_ode(t, cx.array([w]), T))
    cx.ensure("one derivative per state", len(got) == 1)
    T_load = T - got[0] * j
    a, b, c = lp["a"], lp["b"], lp["c"]
    const = j / load.tau_decay * w  # linear part around standstill
    if side == "zero":
        cx.ensure_eq("no load torque at standstill", T_load, 0, scale=10)
        return
    s = 1 if side == "positive" else -1
    # the constant part is min(a, j / tau_decay |w|) in the direction of rotation
    const = s * a if a < j / load.tau_decay * (s * w) else const
    cx.ensure_eq("documented constant, linear and quadratic parts", T_load, const + b * w + s * c * w * w, scale=1e3)
    cx.ensure_le("load torque opposes the motion", 0, T_load * w, tol=1e-6)
    # standstill: one relaxation time of the static part alone cannot reverse the drive
    cx.ensure_le("bounded near standstill: the constant part does not exceed j |w| / tau_decay", T_load * s, j / load.tau_decay * s * w + b * s * w + c * w * w, tol=1e-6)
    cx.ensure_le("the constant part does not exceed a", T_load * s, a + b * s * w + c * w * w, tol=1e-6)


@contract("C10", targets=[ML + "MechanicalLoad.set_j_rotor", ML + "MechanicalLoad.__init__"], samples=20)
def inertia(cx):
    jl, j1, j2 = cx.nonneg("jl"), cx.nonneg("j1"), cx.nonneg("j2")
    load = loads().MechanicalLoad(j_load=jl)
    load.set_j_rotor(j1)
    cx.ensure_eq("load plus rotor", load.j_total, jl + j1)
    load.set_j_rotor(j2)
    cx.ensure_eq("load plus the present rotor", load.j_total, jl + j2)


@contract("C10", cases=["given", "initializer", "default"], targets=[ML + "ConstantSpeedLoad.__init__", ML + "ConstantSpeedLoad.mechanical_ode"], samples=30)
def constant_speed(cx, how):
    w0 = cx.real("w_fixed")
    kw = {"given": {"omega_fixed": w0}, "initializer": {"load_initializer": {"states": {"omega": w0}}}, "default": {}}[how]
    if how == "default":
        other = loads().ConstantSpeedLoad(omega_fixed=cx.real("w_other"))  # another load built before
    load = loads().ConstantSpeedLoad(**kw)
    load.set_j_rotor(cx.nonneg("jr"))
    want = 0 if how == "default" else w0
    cx.ensure_eq("declared speed", load.omega_fixed, want)
    for k in range(2):
        d = arr(load.mechanical_ode(cx.nonneg(f"t{k}"), cx.array([cx.real(f"w{k}")]), cx.real(f"T{k}")))
        cx.ensure_eqs("never accelerates", d, [0])
    nom = cx.positive("nominal", typ=(1, 50))
    cx.requires(-nom <= want)
    cx.requires(want <= nom)
    from gymnasium.spaces import Box

    r = arr(load.reset(state_space=Box(-1, 1, shape=(1,), dtype=np.float64), state_positions={"omega": 0}, nominal_state=cx.array([nom])))
    cx.ensure_eqs("starts at the declared speed", r, [want])


@contract("C10", targets=[ML + "ExternalSpeedLoad." + m for m in ("__init__", "mechanical_ode", "reset", "omega")], samples=40)
def external_speed(cx):
    """starts at the profile's initial value; one explicit Euler step of the load's own tau lands exactly on the profile"""
    log, vals = [], []
    k = cx.real("gain")

    def profile(t, gain):
        log.append((t, gain))
        vals.append(cx.real(f"p{len(log)}"))
        return vals[-1]

    tau = cx.positive("tau", typ=(1e-4, 1e-1))
    load = loads().ExternalSpeedLoad(profile, tau=tau, speed_profile_kwargs={"gain": k})
    load.set_j_rotor(cx.nonneg("jr"))
    cx.ensure_eqs("profile asked at time 0", [log[-1][0], log[-1][1]], [0, k])
    p0 = vals[0]
    cx.ensure_eq("initial speed", load.omega, p0)
    cx.ensure_eqs("reset returns the initial speed", arr(load.reset()), [p0])
    for j in range(2):
        t, w = cx.nonneg(f"t{j}"), cx.real(f"w{j}")
        n = len(log)
        d = arr(load.mechanical_ode(t, cx.array([w]), cx.real(f"T{j}")))
        cx.ensure("profile asked once", len(log) == n + 1)
        cx.ensure_eqs("profile asked one load step ahead", [log[-1][0], log[-1][1]], [t + tau, k])
        cx.ensure_eq("one Euler step of length tau lands on the profile", w + tau * d[0], vals[-1], scale=10)


@contract("C10", targets=[ML + "OrnsteinUhlenbeckLoad." + m for m in ("__init__", "mechanical_ode", "reset")], samples=40)
def ornstein_uhlenbeck(cx):
    """the speed never leaves the configured range in a step of the load's tau, whatever is drawn, and ignores the torque"""
    rng = Rng(cx)
    lo, hi = cx.real("lo", typ=(-50, 0)), cx.real("hi", typ=(0, 50))
    cx.requires(lo <= hi)
    tau = cx.positive("tau", typ=(1e-4, 1e-1))
    mu, sigma, theta = cx.real("mu"), cx.nonneg("sigma"), cx.nonneg("theta")
    load = with_rng(loads().OrnsteinUhlenbeckLoad, rng)(mu=mu, sigma=sigma, theta=theta, tau=tau, omega_range=(lo, hi))
    r = arr(load.reset(state_space=None, state_positions=None, nominal_state=None))
    cx.ensure("a new generator for the episode", rng.generations >= 1)
    cx.ensure_between("initial speed in the range", r[0], lo, hi)
    w = cx.real("w", typ=(-50, 50))
    cx.requires(lo <= w)
    cx.requires(w <= hi)
    d = arr(load.mechanical_ode(cx.nonneg("t"), cx.array([w]), cx.real("T")))
    cx.ensure("one derivative", len(d) == 1)
    cx.ensure_between("next speed in the range", w + d[0] * tau, lo, hi, tol=1e-9)
    calm = with_rng(loads().OrnsteinUhlenbeckLoad, rng)(mu=mu, sigma=0, theta=theta, tau=tau, omega_range=(lo, hi))
    still = arr(calm.mechanical_ode(cx.nonneg("t2"), cx.array([w]), cx.real("T2")))
    cx.ensure_le("without noise the speed drifts towards its mean", 0, still[0] * (mu - w))
