"""C15 constraints and their combination."""
import itertools

import numpy as np

from vc.engine import contract

from .common import MOTORS
from .envstub import StubConstraint, StubReference, StubReward, StubSystem

CT = "gym_electric_motor.constraints."
TC = [CT + "LimitConstraint.__call__", CT + "LimitConstraint.set_modules", CT + "SquaredConstraint.__call__", CT + "SquaredConstraint.set_modules"]
TM = ["gym_electric_motor.core.ConstraintMonitor." + m for m in ("__init__", "set_modules", "check_constraints")]
LAYOUTS = {
    "1": ["a"], "2": ["a", "b"], "3": ["a", "b", "c"],
    "dc": ["omega", "torque", "i", "u", "u_sup"],
    "sync": ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "u_a", "u_b", "u_c", "u_sd", "u_sq", "epsilon", "u_sup"],
    "eesm": ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "i_e", "u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e", "epsilon", "u_sup"],
}


def subsets(names):
    if len(names) <= 3:
        return [list(c) for r in range(len(names) + 1) for c in itertools.permutations(names, r)] + [["all_states"]]
    cur = [n for n in names if n.startswith("i_")] or names[:2]
    return [cur, cur[::-1], ["omega"], [names[-1], names[1]], ["all_states"], [], ["i_sq", "i_sd"] if "i_sq" in names else ["i"]]


CASES = [(k, tuple(s)) for k, n in LAYOUTS.items() for s in subsets(n)]


def abs_gt(cx, v):
    return (v > 1) | (v < -1) if cx.symbolic else bool(v > 1 or v < -1)


def any_of(cx, bs):
    r = False
    for b in bs:
        r = b if r is False else (r | b)
    return r


def eq_flag(cx, name, deg, cond):
    """deg == 1 if cond else 0"""
    if isinstance(cond, bool) or isinstance(cond, np.bool_):
        cx.ensure_eq(name, deg, 1 if cond else 0)
    else:
        cx.ensure(name + ": 1 when violated", (~cond) | (deg == 1))
        cx.ensure(name + ": 0 when not violated", cond | (deg == 0))


@contract("C15", cases=CASES, targets=TC, samples=60, merge=True)
def limit(cx, layout, observed):
    """1 exactly when some observed state is beyond its limit in magnitude, else 0"""
    from gym_electric_motor.constraints import LimitConstraint

    names = LAYOUTS[layout]
    for how in ("list", "tuple"):
        lc = LimitConstraint(list(observed) if how == "list" else tuple(observed))
        ps = StubSystem(cx, [], names, prefix="x")
        lc.set_modules(ps)
        cx.ensure("state names not modified", list(ps.state_names) == list(LAYOUTS[layout]))
    state = cx.vec("s", len(names), typ=(-1.2, 1.2))
    keep = list(state)
    deg = lc(state)
    obs = names if "all_states" in observed else observed
    eq_flag(cx, "degree", deg, any_of(cx, [abs_gt(cx, state[names.index(n)]) for n in obs]))
    cx.ensure("state not modified", all(a is b or a == b for a, b in zip(keep, state)) if not cx.symbolic else all(a is b for a, b in zip(keep, state)))
    if set(obs) != set(names):  # whatever the other states are
        other = state.copy()
        for i, n in enumerate(names):
            if n not in obs:
                other[i] = (float("nan"), 1e30, float("-inf"))[i % 3]
        cx.ensure_eq("the other states do not matter", lc(other), deg)


@contract("C15", targets=TC)
def limit_default(cx):
    """the default observes all states; a second use with another system observes that system's states"""
    from gym_electric_motor.constraints import LimitConstraint

    lc = LimitConstraint()
    lc.set_modules(StubSystem(cx, [], ["a", "b", "c"]))
    state = cx.vec("s", 3, typ=(-1.2, 1.2))
    eq_flag(cx, "degree", lc(state), any_of(cx, [abs_gt(cx, v) for v in state]))


@contract("C15", cases=[(k, s, u) for k, s in CASES if s != ("all_states",) for u in ("normalised", "physical")], targets=TC, samples=60)
def squared(cx, layout, observed, unit):
    """1 exactly when the squares of the observed normalised states sum up to more than 1"""
    from gym_electric_motor.constraints import SquaredConstraint

    names = LAYOUTS[layout]
    n = len(names)
    if unit == "normalised":
        lim = [cx.real(f"lim{i}", gt=0, typ=(0.2, 9), special=(1.0,)) for i in range(n)]  # some limits may be 1, also all of them
        high = [1.0] * n
    else:
        high = lim = [2.0 + 3 * i for i in range(n)]
    sc = SquaredConstraint(tuple(observed))
    ps = StubSystem(cx, [], names, limits=lim, low=[-h for h in high], high=high, prefix="x")
    sc.set_modules(ps)
    state = cx.vec("s", n, typ=(-1.2, 1.2) if unit == "normalised" else (-9, 9))
    scale = [1.0] * n if unit == "normalised" else lim
    total = 0
    for m in observed:
        i = names.index(m)
        total = total + (state[i] / scale[i]) ** 2
    deg = sc(state)
    cond = total > 1
    if not cx.symbolic:
        cx.sample_requires(abs(total - 1) > 1e-9)
    eq_flag(cx, "degree", deg, cond if observed else False)


class Count:
    def __init__(self, ret):
        self.args, self.ret = [], ret

    def __call__(self, *a, **k):
        self.args.append(a)
        return self.ret


@contract("C15", cases=[(k, m) for k in range(6) for m in ("max", "product", "user")], targets=TM, samples=60)
def monitor(cx, k, merge):
    """every constraint is asked exactly once about the given state; the degrees are combined as documented"""
    from gym_electric_motor.core import ConstraintMonitor

    log = []
    cons = [StubConstraint(cx, log, f"d{i}") if i % 2 == 0 else _plain(StubConstraint(cx, log, f"d{i}")) for i in range(k)]
    want = cx.real("user_degree", lo=0, hi=1)
    fn = Count(want)
    cm = ConstraintMonitor((), cons, fn if merge == "user" else merge)
    ps = StubSystem(cx, log, ["a", "b"])
    cm.set_modules(ps)
    for i, c in enumerate(cons):
        if i % 2 == 0:
            cx.ensure("constraint knows the system", len(c.modules) == 1 and c.modules[0] is ps)
    state = cx.vec("s", 2)
    deg = cm.check_constraints(state)
    cx.ensure("each constraint asked once", sorted(x[0] for x in log) == sorted(f"d{i}" for i in range(k)))
    cx.ensure("about the state given", all(x[1] is state for x in log))
    ds = [(c.stub if not isinstance(c, StubConstraint) else c).degrees[0] for c in cons]
    if k == 0:
        cx.ensure_eq("no constraint, degree 0", deg, 0)
        return
    if merge == "user":
        cx.ensure("the user's function gets all degrees", len(fn.args) == 1 and _same(_spread(fn.args[0]), ds))
        cx.ensure_eq("the user's degree", deg, want)
        return
    if merge == "max":
        for d in ds:
            cx.ensure_le("max: not below any degree", d, deg)
        cx.ensure("max: one of the degrees", any_of(cx, [deg == d for d in ds]))
    else:
        p = 1
        for d in ds:
            p = p * (1 - d)
        cx.ensure_eq("product: complement product", deg, 1 - p)
    cx.ensure_between("degree in [0, 1]", deg, 0, 1, tol=1e-12)
    for i, d in enumerate(ds):
        full = d == 1
        if cx.symbolic:
            cx.ensure(f"full violation of {i} gives 1", (~full) | (deg == 1))
        elif full:
            cx.ensure_eq(f"full violation of {i} gives 1", deg, 1)


def _spread(args):
    return list(args[0]) if len(args) == 1 and isinstance(args[0], (list, tuple, np.ndarray)) else list(args)


def _same(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, float) and x == y) for x, y in zip(a, b))


def _plain(stub):
    """the same constraint as a plain function"""

    def constraint(state):
        return stub(state)

    constraint.stub = stub
    return constraint


@contract("C15", cases=["complement"], targets=TM)
def product_step(cx, _):
    """induction step of the complement product: another degree keeps it in [0, 1], never lowers it, 1 stays 1"""
    d, v = cx.real("d", lo=0, hi=1), cx.real("v", lo=0, hi=1)
    n = 1 - (1 - d) * (1 - v)
    cx.ensure_between("range", n, 0, 1)
    cx.ensure_le("monotone", d, n)


@contract("C15", cases=[("list", lim) for lim in ("none", "some", "all")], targets=TM + ["gym_electric_motor.core.ElectricMotorEnvironment.__init__"])
def environment_constraints(cx, how, lim):
    """state names, constraint objects and plain functions in the environment's constraint list are all monitored"""
    from gym_electric_motor.core import ConstraintMonitor, ElectricMotorEnvironment

    log = []
    names = ["a", "b", "c"]
    a, b = StubConstraint(cx, log, "obj"), StubConstraint(cx, log, "fun")
    limits = {"none": [], "some": ["b"], "all": ["all_states"]}[lim]
    env = ElectricMotorEnvironment(StubSystem(cx, log, names), StubReference(cx, log), StubReward(cx, log), constraints=[a, *limits, _plain(b)])
    cm = env.constraint_monitor
    state = cx.vec("x", 3, typ=(-1.2, 1.2))
    deg = cm.check_constraints(state)
    cx.ensure("both user constraints asked", sorted(x[0] for x in log if x[0] in ("obj", "fun")) == ["fun", "obj"])
    obs = {"none": [], "some": [1], "all": [0, 1, 2]}[lim]
    viol = any_of(cx, [abs_gt(cx, state[i]) for i in obs])
    ds = [c.degrees[-1] for c in (a, b) if c.degrees]
    for d in ds:
        cx.ensure_le("at least each degree", d, deg)
    if cx.symbolic and obs:
        cx.ensure("limit violation gives 1", (~viol) | (deg == 1))
        cx.ensure("otherwise the larger degree", viol | any_of(cx, [deg == d for d in ds]))
    elif obs and viol:
        cx.ensure_eq("limit violation gives 1", deg, 1)
    else:
        cx.ensure("otherwise the larger degree", any_of(cx, [deg == d for d in ds]))
    own = ConstraintMonitor((), [a])
    env2 = ElectricMotorEnvironment(StubSystem(cx, log, names, prefix="t"), StubReference(cx, log, prefix="q"), StubReward(cx, log, prefix="v"), constraints=own)
    cx.ensure("an own monitor is used as it is", env2.constraint_monitor is own)
