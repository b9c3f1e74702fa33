"""C16 episode protocol of the environment."""
import itertools

import numpy as np

from vc.engine import contract

from .envstub import StubCallback, StubConstraint, StubReference, StubReward, StubSystem, StubVisualization, ensure_calls, ensure_log, ensure_same

T = ["gym_electric_motor.core.ElectricMotorEnvironment." + m for m in ("__init__", "reset", "step", "_call_callbacks", "reference_generator", "reward_function", "close", "_seed")]


class Fix:
    def __init__(self, cx, prefix="", callbacks=2, degree=None, k0=0):
        from gym_electric_motor.core import ConstraintMonitor, ElectricMotorEnvironment

        self.cx, self.log = cx, []
        self.ps = StubSystem(cx, self.log, ["a", "b", "c"], prefix=prefix + "s", start_k=k0)
        self.rg, self.rf = StubReference(cx, self.log, prefix=prefix + "r"), StubReward(cx, self.log, prefix=prefix + "w")
        self.con = StubConstraint(cx, self.log, "constraint" if not prefix else prefix + "constraint", degree)
        self.cbs = [StubCallback(self.log, f"cb{i}") for i in range(callbacks)]
        self.vis = [StubVisualization(self.log, "vis")]
        self.env = ElectricMotorEnvironment(self.ps, self.rg, self.rf, constraints=ConstraintMonitor((), [self.con]), callbacks=tuple(self.cbs), visualization=self.vis, state_filter=["c", "a"])
        self.names = [c.name for c in self.cbs] + ["vis"]

    def mark(self):
        self.log.clear()


def refuse(cx, f, name, action=0):
    """step raises and changes nothing"""
    f.mark()
    env = f.env
    before = {k: v for k, v in env.__dict__.items()}
    k, cls = f.ps.k, {n: getattr(type(env), n) for n in ("current_state", "current_reference", "current_next_reference")}
    refused = False
    try:
        env.step(action)
    except Exception as e:  # AssertionError or gymnasium error, whichever
        from vc.engine import Infeasible
        from vc.sym import Unsupported

        if isinstance(e, (Infeasible, Unsupported)):
            raise
        refused = True
    cx.ensure(name + ": the step is refused", refused)
    cx.ensure(name + ": nothing is called", f.log == [])
    cx.ensure(name + ": system time step unchanged", f.ps.k is k or bool(f.ps.k == k))
    cx.ensure(name + ": environment unchanged", set(before) == set(env.__dict__) and all(env.__dict__[n] is before[n] for n in before))
    cx.ensure(name + ": class unchanged", all(getattr(type(env), n) is cls[n] for n in cls))


def do_reset(cx, f, name, seed=None):
    f.mark()
    obs = f.env.reset(seed=seed)
    s, r, o = f.ps.states[-1], f.rg.refs[-1], f.rg.obs[-1]
    want = [(n + ".on_reset_begin",) for n in f.names] + [("system.reset",), ("reference.reset", s), ("reward.reset", s, r)] + [(n + ".on_reset_end", s, r) for n in f.names]
    first, last = f.names[0], f.names[-1]
    order = [(n + ".on_reset_begin", "system.reset") for n in f.names] + [("system.reset", "reference.reset"), ("reference.reset", "reward.reset")] + [("reward.reset", n + ".on_reset_end") for n in f.names]
    ensure_calls(cx, name, f.log, want, order)
    (state, ref), info = obs
    cx.ensure_eqs(name + ": observed state", state, [s[2], s[0]])
    ensure_same(cx, name + ": observed reference", ref, o)
    cx.ensure(name + ": info", isinstance(info, dict))


def do_step(cx, f, name, action):
    f.mark()
    k = f.ps.k
    out = f.env.step(action)
    s, r, o = f.ps.states[-1], f.rg.refs[-1], f.rg.obs[-1]
    d, w = f.con.degrees[-1], f.rf.rewards[-1]
    (state, ref), reward, terminated, truncated, info = out
    want = [(n + ".on_step_begin", k, action) for n in f.names] + [("system.simulate", action), ("reference.get_reference", s), (f.con.name, s), ("reward.reward", s, r, k + 1, action, d), ("reference.get_reference_observation", s)] + [
        (n + ".on_step_end", k + 1, s, r, w, terminated) for n in f.names]
    order = [(n + ".on_step_begin", "system.simulate") for n in f.names] + [("system.simulate", "reference.get_reference"), ("system.simulate", f.con.name), ("reference.get_reference", "reward.reward"), (f.con.name, "reward.reward"),
             ("reference.get_reference", "reference.get_reference_observation")] + [(b, n + ".on_step_end") for n in f.names for b in ("reward.reward", "reference.get_reference_observation")]
    ensure_calls(cx, name, f.log, want, order)
    cx.ensure_eqs(name + ": observed state", state, [s[2], s[0]])
    ensure_same(cx, name + ": observed reference", ref, o)
    ensure_same(cx, name + ": reward", reward, w)
    ensure_same(cx, name + ": terminated exactly at degree 1", terminated, d >= 1)
    cx.ensure(name + ": not truncated", not truncated)
    cx.ensure(name + ": info", isinstance(info, dict))
    return d


ACTIONS = {"array": lambda: np.array([0.25, -0.5]), "int": lambda: 3, "list": lambda: [1, 2]}


@contract("C16", cases=list(ACTIONS), targets=T, samples=20)
def fresh(cx, act):
    """a freshly built environment refuses to step; after a reset it steps"""
    f = Fix(cx)
    a = ACTIONS[act]()
    refuse(cx, f, "fresh", a)
    do_reset(cx, f, "reset")
    do_step(cx, f, "step", a)


@contract("C16", cases=["running", "running twice", "terminated", "terminated twice"], targets=T, samples=40)
def after_reset(cx, where):
    """whatever happened before, a reset makes the environment run again with the same protocol"""
    f = Fix(cx)
    do_reset(cx, f, "reset 0")
    for i in range(2 if where.endswith("twice") else 1):
        d = do_step(cx, f, f"step {i}", np.array([0.1, 0.2 * i]))
        if i == 0 and where.endswith("twice"):
            cx.requires(d < 1)
    if where.startswith("terminated"):
        cx.requires(d >= 1)
        refuse(cx, f, "terminated", np.array([0.0, 0.0]))
        refuse(cx, f, "terminated again", np.array([0.0, 0.0]))
    else:
        cx.requires(d < 1)
    do_reset(cx, f, "reset 1", seed=None)
    do_step(cx, f, "step after reset", np.array([0.3, 0.4]))


@contract("C16", targets=T, samples=60)
def arbitrary_step(cx):
    """one step from an arbitrary time step of a running environment (induction over the episode)"""
    f = Fix(cx)
    do_reset(cx, f, "reset")
    f.ps._k = cx.int("k", lo=0, hi=10**6)
    d = do_step(cx, f, "step", np.array([0.1, 0.2]))
    if bool(d >= 1):
        refuse(cx, f, "terminated", np.array([0.1, 0.2]))
        cx.cover("terminated")
    else:
        do_step(cx, f, "next step", np.array([0.3, 0.4]))
        cx.cover("running")


@contract("C16", cases=[(w, s) for w in ("reference generator", "reward function", "both", "same generator", "same reward") for s in ("fresh", "reset", "running", "terminated")], targets=T, samples=20)
def exchanged(cx, what, when):
    """after an exchange of the reference generator or reward function a reset is required, and the new one is used"""
    f = Fix(cx)
    if when != "fresh":
        do_reset(cx, f, "reset")
    if when in ("running", "terminated"):
        d = do_step(cx, f, "step", np.array([0.1, 0.2]))
        cx.requires(d >= 1 if when == "terminated" else d < 1)
    if what == "same generator":
        f.env.reference_generator = f.env.reference_generator
    if what == "same reward":
        f.env.reward_function = f.env.reward_function
    if what in ("reference generator", "both"):
        rg = StubReference(cx, f.log, prefix="new_r")
        rg.set_modules(f.ps)
        f.env.reference_generator = rg
        f.rg = rg
        cx.ensure("the new generator is installed", f.env.reference_generator is rg)
    if what in ("reward function", "both"):
        rf = StubReward(cx, f.log, prefix="new_w")
        f.env.reward_function = rf
        f.rf = rf
        cx.ensure("the new reward function is installed", f.env.reward_function is rf)
    refuse(cx, f, "exchanged", np.array([0.1, 0.2]))
    do_reset(cx, f, "reset after exchange")
    do_step(cx, f, "step after exchange", np.array([0.1, 0.2]))


@contract("C16", targets=T, samples=20)
def isolated_episodes(cx):
    """the termination of one environment does not stop or start another one"""
    f, g = Fix(cx, degree=1.0), Fix(cx, prefix="g", degree=0.0)
    do_reset(cx, f, "reset f")
    refuse(cx, g, "other fresh", 1)
    do_reset(cx, g, "reset g")
    do_step(cx, f, "step f", 1)
    do_step(cx, g, "step g", 2)
    refuse(cx, f, "f terminated", 1)
    do_step(cx, g, "g runs on", 2)
    do_reset(cx, f, "reset f again")
    do_step(cx, f, "step f again", 1)


@contract("C16", cases=[0, 1, 3], targets=T, samples=10)
def setup_and_close(cx, n):
    """every callback learns the environment once, the modules know each other, close reaches every component once"""
    f = Fix(cx, callbacks=n)
    want = [(c + ".set_env", f.env) for c in f.names]
    ensure_log(cx, "set_env", f.log, want)
    cx.ensure("reference generator knows the system", len(f.rg.modules) == 1 and f.rg.modules[0] is f.env.physical_system)
    m = f.rf.modules
    cx.ensure("reward function knows the modules", len(m) == 1 and m[0][0] is f.env.physical_system and m[0][1] is f.rg and m[0][2] is f.env.constraint_monitor)
    cx.ensure("constraints know the system", len(f.con.modules) == 1 and f.con.modules[0] is f.env.physical_system)
    do_reset(cx, f, "reset")
    do_step(cx, f, "step", 1)
    f.mark()
    f.env.close()
    want = [(c + ".on_close",) for c in f.names] + [("reward.close",), ("system.close",), ("reference.close",)]
    ensure_calls(cx, "close", f.log, want, [(c + ".on_close", x) for c in f.names for x in ("reward.close", "system.close", "reference.close")])
    f.mark()
    f.env.render()
    ensure_log(cx, "render", f.log, [("vis.render",)])
