"""C30 every registered environment is what its id says, and every constructor argument reaches exactly its component."""
import contextlib
import warnings

import numpy as np

import gym_electric_motor as gem
from gym_electric_motor import physical_systems as ps
from gym_electric_motor.core import Callback, ElectricMotorVisualization, ReferenceGenerator, RewardFunction
from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper
from vc.engine import contract

from .c17 import env_ids
from .c23 import env_class
from .common import MOTORS, system_class

G = "gym_electric_motor."
KIND = {"PermExDc": "perm", "ExtExDc": "extex", "SeriesDc": "series", "ShuntDc": "shunt", "PMSM": "pmsm", "SynRM": "synrm", "EESM": "eesm", "SCIM": "scim", "DFIM": "dfim"}
CURRENTS = {"perm": ["i"], "series": ["i"], "extex": ["i_a", "i_e"], "shunt": ["i_a"], "pmsm": ["i_sd", "i_sq"], "synrm": ["i_sd", "i_sq"], "eesm": ["i_sd", "i_sq", "i_e"], "scim": ["i_sd", "i_sq"], "dfim": ["i_sd", "i_sq"]}
LIMITED = {"perm": ["i"], "series": ["i"], "extex": ["i_a", "i_e"], "shunt": ["i_a", "i_e"], "eesm": ["i_e"]}  # single limits
SQUARED = {k: ["i_sd", "i_sq"] for k in ("pmsm", "synrm", "eesm", "scim", "dfim")}  # length of the current vector
ACTIONS = {  # (finite, continuous)
    "perm": ([4], 1), "series": ([4], 1), "shunt": ([4], 1), "extex": ([4, 4], 2), "pmsm": ([8], 3), "synrm": ([8], 3), "scim": ([8], 3), "eesm": ([8, 4], 4), "dfim": ([8, 8], 6)}
ENVS = ["gym_electric_motor.envs.*.__init__", G + "utils.initialize", G + "core.ElectricMotorEnvironment.__init__"]


def parse(env_id):
    control, task, motor = env_id.split("-")[:3]
    return control, task, KIND[motor]


def quantities(task, kind):
    return {"SC": ["omega"], "TC": ["torque"], "CC": CURRENTS[kind]}[task]


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


def build(cx, env_id, **kw):
    """through gymnasium.make where the code runs unpatched, through the registered entry point otherwise"""
    kw.setdefault("visualization", ())
    with quiet():
        if cx.symbolic:
            return env_class(env_id)(**kw)
        return gem.make(env_id, **kw).unwrapped


@contract("C30", cases=env_ids(), samples=4, targets=ENVS)
def named(cx, env_id):
    """motor, converter kind, controlled quantity, load, constraints and step size of the default environment follow from its id"""
    control, task, kind = parse(env_id)
    env = build(cx, env_id)
    inner = env.physical_system.unwrapped
    cx.ensure("the system of the machine", type(inner) is system_class(kind))
    cx.ensure("the machine", type(inner.electrical_motor) is MOTORS[kind][0])
    sp = env.action_space
    fin, n = ACTIONS[kind]
    if control == "Finite":
        got = list(sp.nvec) if hasattr(sp, "nvec") else [sp.n] if hasattr(sp, "n") else None
        cx.ensure("a finite set of switching actions", got == fin)
    else:
        cx.ensure("continuous duty cycles", hasattr(sp, "low") and sp.shape == (n,) and bool(np.all(sp.low == -1)) and bool(np.all(sp.high == 1)))
    cx.ensure("the step size of the control kind", env.physical_system.tau == (1e-5 if control == "Finite" else 1e-4))
    names = list(env.state_names)
    ref = quantities(task, kind)
    cx.ensure("the controlled quantities", list(env.reference_names) == ref)
    cx.ensure("one reference per controlled quantity", env.observation_space[1].shape == (len(ref),))
    load = inner.mechanical_load
    cx.ensure("a free shaft for speed control, a fixed speed otherwise", type(load) is (ps.PolynomialStaticLoad if task == "SC" else ps.ConstantSpeedLoad))
    cx.ensure("an ideal supply", type(inner.supply) is ps.IdealVoltageSupply)
    cx.ensure("the whole state is observed", list(env.state_names) == list(env.physical_system.state_names))


@contract("C30", cases=env_ids(), samples=30, targets=ENVS + [G + "constraints.LimitConstraint.__call__", G + "constraints.SquaredConstraint.__call__", G + "core.ConstraintMonitor.check_constraints"])
def terminates(cx, env_id):
    """an excess of the monitored current (or length of the current vector) terminates the episode, nothing else does, for every state"""
    control, task, kind = parse(env_id)
    env = build(cx, env_id)
    names = list(env.state_names)
    s = cx.vec("s", len(names), typ=(-1.3, 1.3))
    deg = env.constraint_monitor.check_constraints(s)
    bad = False
    for q in LIMITED.get(kind, []):
        v = s[names.index(q)]
        bad = bad or bool(v > 1) or bool(v < -1)
    if kind in SQUARED:
        d, q = (s[names.index(n_)] for n_ in SQUARED[kind])
        bad = bad or bool(d * d + q * q > 1)
    cx.ensure("an excess current terminates, nothing else does", deg == (1 if bad else 0))


@contract("C30", cases=env_ids(), samples=10, merge=True, targets=ENVS + [G + "reward_functions.weighted_sum_of_errors.WeightedSumOfErrors.reward"])
def rewards(cx, env_id):
    """the default reward is the negative mean error of exactly the controlled quantities, for every state and reference"""
    control, task, kind = parse(env_id)
    env = build(cx, env_id)
    names, ref = list(env.state_names), quantities(task, kind)
    s = cx.vec("s", len(names), typ=(-1.3, 1.3))
    r = cx.vec("r", len(names), typ=(-1, 1))
    low, high = env.physical_system.state_space.low, env.physical_system.state_space.high
    got = env.reward_function.reward(s, r, 0, None, 0.0)
    want = 0
    for q in ref:
        i = names.index(q)
        e = s[i] - r[i]
        e = e if e >= 0 else -e
        want = want - e / float(high[i] - low[i]) / len(ref)
    cx.ensure_eq("the weighted error of the controlled quantities", got, want)


class Solver(ps.OdeSolver):
    def __init__(self):
        super().__init__()
        self.jac = 0

    def set_system_equation(self, f, jac=None):
        self.f, self.jac = f, jac
        super().set_system_equation(f, jac)

    def integrate(self, t):
        return self.y


class Reward(RewardFunction):
    def __init__(self):
        super().__init__()
        self.modules = None
        self.reward_range = (-7.0, 3.0)

    def set_modules(self, ps_, rg, cm):
        self.modules = (ps_, rg, cm)

    def reward(self, *a, **k):
        return 0.0


class Visu(ElectricMotorVisualization):
    def __init__(self):
        super().__init__()
        self.env = None

    def set_env(self, env):
        self.env = env


class Call(Callback):
    def __init__(self):
        super().__init__()
        self.env = None

    def set_env(self, env):
        self.env = env


class Wrapper(PhysicalSystemWrapper):
    inner = None

    def set_physical_system(self, p):
        self.inner = p
        return super().set_physical_system(p)


def other_converter(kind, control):
    """a converter of the other control kind for the same terminals"""
    fin = control == "Cont"
    q4, b6 = (ps.FiniteFourQuadrantConverter, ps.FiniteB6BridgeConverter) if fin else (ps.ContFourQuadrantConverter, ps.ContB6BridgeConverter)
    multi = ps.FiniteMultiConverter if fin else ps.ContMultiConverter
    return {"extex": lambda: multi(subconverters=(q4(), q4())), "eesm": lambda: multi(subconverters=(b6(), q4())), "dfim": lambda: multi(subconverters=(b6(), b6()))}.get(kind, lambda: q4() if kind in ("perm", "series", "shunt") else b6())()


@contract("C30", cases=env_ids(), samples=2, targets=ENVS)
def instances(cx, env_id):
    """an already built component is used itself, in its place"""
    from gym_electric_motor.reference_generators import ConstReferenceGenerator

    control, task, kind = parse(env_id)
    tau = cx.real("tau", gt=1e-6, typ=(1e-5, 1e-3))
    with quiet():
        supply, motor, load = ps.IdealVoltageSupply(u_nominal=cx.real("u", gt=10, typ=(50, 400))), MOTORS[kind][0](), ps.ExternalSpeedLoad(lambda t: 0.0 * t, tau=1e-3)
        conv, solver, reward, visu, call, wrap = other_converter(kind, control), Solver(), Reward(), Visu(), Call(), Wrapper()
        rg = ConstReferenceGenerator(reference_state="omega", reference_value=0.25)
    names = list(build(cx, env_id).state_names)
    env = build(cx, env_id, supply=supply, converter=conv, motor=motor, load=load, ode_solver=solver, reward_function=reward, reference_generator=rg, visualization=visu, callbacks=[call], state_filter=["torque", "omega"],
                constraints=["omega"], tau=tau, calc_jacobian=False, physical_system_wrappers=(wrap,))
    inner = env.physical_system.unwrapped
    for what, given, used in (("supply", supply, inner.supply), ("converter", conv, inner.converter), ("motor", motor, inner.electrical_motor), ("load", load, inner.mechanical_load), ("reward function", reward, env.reward_function), ("reference generator", rg, env.reference_generator)):
        cx.ensure(f"the {what} handed in", used is given)
    cx.ensure("the solver handed in integrates this system, without jacobian", solver.jac is None and getattr(solver, "f", None) is not None)
    cx.ensure("the action space of the converter handed in", env.action_space == conv.action_space)
    cx.ensure_eqs("step size of the system and of the converter", [env.physical_system.tau, inner.tau, inner.converter.tau], [tau] * 3)
    cx.ensure("the visualization belongs to the environment", visu.env is env and visu in env.visualizations)
    cx.ensure("the callback belongs to the environment", call.env is env)
    cx.ensure("the wrapper is put around the system", wrap.inner is not None and wrap.unwrapped is inner and wrap_in(env.physical_system, wrap))
    cx.ensure("the state filter", list(env.state_names) == ["torque", "omega"] and env.observation_space[0].shape == (2,))
    cx.ensure("the reference", list(env.reference_names) == ["omega"])
    cx.ensure("the reward function knows its environment", reward.modules is not None and reward.modules[0] is env.physical_system and reward.modules[1] is rg and reward.modules[2] is env.constraint_monitor)
    cx.ensure("the announced reward range", tuple(env.reward_range) == (-7.0, 3.0))
    cx.ensure("all states of the system", list(env.physical_system.state_names) == names)
    s = cx.vec("s", len(names), typ=(-1.3, 1.3))
    deg = env.constraint_monitor.check_constraints(s)
    w = s[names.index("omega")]
    if (w > 1) | (w < -1):
        cx.ensure("the constraint handed in", deg == 1)
    else:
        cx.ensure("only the constraint handed in", deg == 0)


def wrap_in(p, w):
    while p is not None:
        if p is w:
            return True
        p = getattr(p, "physical_system", None)
    return False


@contract("C30", cases=env_ids(), samples=3, targets=ENVS)
def parameters(cx, env_id):
    """a dictionary changes exactly the named parameters of the default component, a changed one never falls back to a default"""
    control, task, kind = parse(env_id)
    u, tau = cx.real("u", gt=10, typ=(50, 400)), cx.real("tau", gt=1e-6, typ=(1e-5, 1e-3))
    v = cx.real("violation", typ=(-100, 0))
    cls, names = MOTORS[kind]
    d = build(cx, env_id)
    di = d.physical_system.unwrapped
    mp = {n: (x if n == "p" else x * cx.real("scale_" + n, lo=0.9, hi=1.1)) for n, x in di.electrical_motor.motor_parameter.items() if n in names and n != "j_rotor" and not (kind == "eesm" and n in ("l_d", "l_m", "l_e", "k"))}  # (EESM: the leakage factor must not vanish)
    lim = {"omega": cx.positive("lim_omega", typ=(100, 500)), "torque": cx.positive("lim_torque", typ=(1, 50))}
    j = cx.positive("j_load", typ=(0.01, 1))
    w = cx.real("omega", lo=1, hi=90)
    il = cx.real("interlock", lo=0, hi=1e-7)
    kw = dict(supply=dict(u_nominal=u), motor=dict(motor_parameter=dict(mp), limit_values=dict(lim)), load=dict(load_parameter=dict(j_load=j)) if task == "SC" else dict(omega_fixed=w), tau=tau, reward_function=dict(violation_reward=v))
    if kind not in ("extex", "eesm", "dfim"):
        kw["converter"] = dict(interlocking_time=il)
    multi = len(quantities(task, kind)) > 1
    if multi:
        from gym_electric_motor.reference_generators import ConstReferenceGenerator

        with quiet():
            sub = ConstReferenceGenerator(reference_state="torque", reference_value=0.125)
        kw["reference_generator"] = dict(sub_generators=[sub])
    else:
        kw["reference_generator"] = dict(reference_state="torque" if task != "TC" else "omega")
    env = build(cx, env_id, **kw)
    inner = env.physical_system.unwrapped
    for what, a, b in (("supply", di.supply, inner.supply), ("converter", di.converter, inner.converter), ("motor", di.electrical_motor, inner.electrical_motor), ("load", di.mechanical_load, inner.mechanical_load), ("reward function", d.reward_function, env.reward_function), ("reference generator", d.reference_generator, env.reference_generator)):
        cx.ensure(f"the default class of the {what}, a new object", type(a) is type(b) and a is not b)
    cx.ensure_eq("supply voltage", inner.supply.u_nominal, u)
    for n, x in mp.items():
        cx.ensure_eq(f"motor parameter {n}", inner.electrical_motor.motor_parameter[n], x)
    cx.ensure_eq("motor parameter j_rotor", inner.electrical_motor.motor_parameter["j_rotor"], di.electrical_motor.motor_parameter["j_rotor"])
    for n, x in lim.items():
        cx.ensure_eq(f"motor limit {n}", inner.electrical_motor.limits[n], x)
    if task == "SC":
        cx.ensure_eq("load inertia", inner.mechanical_load.load_parameter["j_load"], j)
    else:
        cx.ensure_eq("fixed speed", inner.mechanical_load.omega_fixed, w)
    cx.ensure_eqs("step size", [env.physical_system.tau, inner.converter.tau], [tau, tau])
    cx.ensure("the reference", list(env.reference_names) == (["torque"] if multi or task != "TC" else ["omega"]))
    n = len(env.state_names)
    z = cx.vec("state", n, typ=(-1, 1))
    cx.ensure_eq("violation reward", env.reward_function.reward(z, z, 0, None, 1.0), v)


@contract("C30", cases=["instance", "dict", "none", "bad", "tuple"], samples=20, targets=[G + "utils.initialize"])
def initialize(cx, how):
    """the selection rule for component arguments"""
    from gym_electric_motor.utils import initialize as init

    a, b, c = cx.real("a"), cx.real("b"), cx.real("c")

    class Base:
        pass

    class Other:
        pass

    class Default(Base):
        def __init__(self, x=None, y=None, z=None):
            self.v = (x, y, z)

    class Sub(Base):
        pass

    args = dict(x=a, y=b)
    if how == "instance":
        for o in (Sub(), Default(), Base()):
            cx.ensure("used itself", init(Base, o, Default, args) is o)
    elif how == "tuple":
        for o in (Sub(), Other(), Default()):
            cx.ensure("used itself", init((Base, Other), o, Default, args) is o)
    elif how == "none":
        o = init(Base, None, Default, args)
        cx.ensure("default class", type(o) is Default and o.v[2] is None)
        cx.ensure_eqs("default arguments", o.v[:2], [a, b])
    elif how == "dict":
        o = init(Base, dict(y=c), Default, args)
        cx.ensure("default class", type(o) is Default and o.v[2] is None)
        cx.ensure_eqs("the given value instead of the default, the other default kept", o.v[:2], [a, c])
        o = init(Base, dict(z=c), Default, args)
        cx.ensure_eqs("an additional value", o.v, [a, b, c])
        o = init(Base, {}, Default, args)
        cx.ensure_eqs("an empty dictionary changes nothing", o.v[:2], [a, b])
    else:
        for arg in (Default, "a name"):
            try:
                init(Base, arg, Default, args)
                cx.fail("a class or a name is refused", repr(arg))
            except Exception:  # noqa
                cx.ensure("a class or a name is refused", True)
    cx.ensure("the default arguments are not modified", sorted(args) == ["x", "y"] and args["x"] is a and args["y"] is b)
