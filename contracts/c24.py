"""C24 the dead-time wrapper delays every action by exactly n steps."""
import gymnasium
import numpy as np

from gym_electric_motor.physical_system_wrappers import CosSinProcessor, DeadTimeProcessor, PhysicalSystemWrapper
from vc.engine import contract

from .common import MOTORS, RecordingSolver, real_converter, system_class
from .envstub import StubSystem

W = "gym_electric_motor.physical_system_wrappers.dead_time_processor.DeadTimeProcessor."
TGT = [W + m for m in ("__init__", "set_physical_system", "reset", "simulate", "dead_time")]
KINDS = ["box1", "box3", "box32", "multi", "discrete"]


def space(kind):
    sp = gymnasium.spaces
    return {
        "box1": lambda: sp.Box(-1.0, 1.0, shape=(1,), dtype=np.float64),
        "box3": lambda: sp.Box(-1.0, 1.0, shape=(3,), dtype=np.float64),
        "box32": lambda: sp.Box(-1.0, 1.0, shape=(2,)),
        "multi": lambda: sp.MultiDiscrete([8, 4]),
        "discrete": lambda: sp.Discrete(8),
    }[kind]()


def action(cx, kind, name):
    """an arbitrary element of the action space"""
    if kind == "discrete":
        return cx.int(name, lo=0, hi=7)
    if kind == "multi":
        return cx.array([cx.int(name + "_0", lo=0, hi=7), cx.int(name + "_1", lo=0, hi=3)])
    n = {"box1": 1, "box3": 3, "box32": 2}[kind]
    return cx.array([cx.real(f"{name}_{i}", lo=-1, hi=1) for i in range(n)])


def parts(a):
    return list(np.asarray(a, dtype=object).reshape(-1))


def same(cx, name, got, want):
    cx.ensure(name + " (shape)", np.shape(got) == np.shape(want))
    if np.shape(got) == np.shape(want):
        cx.ensure_eqs(name, parts(got), parts(want))


STEPS = [(k, n) for k in KINDS for n in (1, 2, 3, 5)]


def build(cx, kind, n, reset_action=None, names=("a", "b")):
    s = StubSystem(cx, [], list(names), action_space=space(kind))
    with cx.unchecked():
        w = DeadTimeProcessor(steps=n, reset_action=reset_action, physical_system=s)
    return w, s


@contract("C24", cases=STEPS, targets=TGT, samples=25, thorough=[(k, n) for k in KINDS for n in (4, 6, 8, 12)])
def pipeline(cx, kind, n):
    """inductive step: from a pipeline holding any n actions, every step hands out the oldest action, unaltered, and appends the new one"""
    w, s = build(cx, kind, n, lambda: [action(cx, kind, f"r{j}") for j in range(n)])
    w.reset()
    given = []
    for j in range(n):  # any pipeline: the last n given actions
        given.append(action(cx, kind, f"a{j}"))
        w.simulate(given[-1])
    base = len(s.actions)
    for j in range(n, 2 * n + 1):
        given.append(action(cx, kind, f"a{j}"))
        out = w.simulate(given[-1])
        cx.ensure("exactly one inner step per step", len(s.actions) == base + j - n + 1)
        same(cx, f"inner action of step {j}", s.actions[-1], given[j - n])
        cx.ensure_eqs("state handed through", list(out), list(s.states[-1]))
    cx.ensure("dead time", w.dead_time == n)


@contract("C24", cases=[(k, n, m) for k, n in STEPS for m in sorted({0, 1, n, n + 1}) if n < 5 or m in (0, n + 1)], targets=TGT, samples=25)
def episodes(cx, kind, n, m):
    """after every reset, also when the last episode had m steps: first the n configured reset actions, nothing of the last episode"""
    cfg = []

    def reset_actions():
        cfg[:] = [action(cx, kind, f"r{len(s.states)}_{j}") for j in range(n)]
        return list(cfg)

    w, s = build(cx, kind, n, reset_actions)
    for ep in range(2):
        out = w.reset()
        cx.ensure_eqs("initial state handed through", list(out), list(s.states[-1]))
        cx.ensure("one inner reset", s.resets == ep + 1)
        want = list(cfg)
        s.actions.clear()
        given = []
        steps = m if ep == 0 else n + 2
        for j in range(steps):
            given.append(action(cx, kind, f"a{ep}_{j}"))
            w.simulate(given[-1])
        first = s.actions[: min(n, steps)]
        if n == 1:
            for a in first:
                same(cx, "reset action", a, want[0])
        else:  # each configured action exactly once, in the order of the list or from its end
            fwd = lambda: np.all([np.all([p == q for p, q in zip(parts(a), parts(b))]) for a, b in zip(first, want)])
            bwd = lambda: np.all([np.all([p == q for p, q in zip(parts(a), parts(b))]) for a, b in zip(first, want[::-1])])
            cx.ensure_some("the configured reset actions", [fwd, bwd])
        for j in range(n, steps):
            same(cx, f"inner action of step {j}", s.actions[j], given[j - n])


@contract("C24", cases=[c for c in STEPS if c[0] != "discrete"], targets=TGT, samples=25)
def reused_array(cx, kind, n):
    """the caller writes every action into the same array"""
    w, s = build(cx, kind, n)
    got = []
    simulate = s.simulate
    s.simulate = lambda a: (got.append(np.array(a, dtype=object)), simulate(a))[1]
    w.reset()
    buf = action(cx, kind, "buf")
    given = []
    for j in range(2 * n + 1):
        buf[:] = action(cx, kind, f"a{j}")
        given.append(parts(buf))
        w.simulate(buf)
        cx.ensure_eqs("the caller's array is untouched", parts(buf), given[-1])
        if j >= n:
            cx.ensure_eqs(f"inner action of step {j}", parts(got[-1]), given[j - n])


def valid(cx, sp, actions, n):
    cx.ensure("one reset action for every dead-time step", len(actions) == n)
    for a in actions:
        if cx.symbolic and getattr(a, "dtype", None) == object:  # the stand-in for numpy has no element types (those: concrete runs)
            a = np.array([float(v) for v in a.reshape(-1)]).reshape(a.shape).astype(sp.dtype)
        cx.ensure("a valid action", sp.contains(a))
        cx.ensure("zero", not np.any(np.asarray(a, dtype=float)))


def default_actions(w, s, kind_action, n):
    w.reset()
    s.actions.clear()
    for j in range(n):
        w.simulate(kind_action)
    return list(s.actions)


@contract("C24", cases=[(k, q, n) for k in KINDS for q in KINDS for n in (1, 3)], targets=TGT, samples=5)
def default_reset_action(cx, kind, second, n):
    """the default reset action is a valid zero action, also of another system the wrapper is used with later"""
    w, s = build(cx, kind, n)
    for ep in range(2):
        valid(cx, s.action_space, default_actions(w, s, action(cx, kind, f"a{ep}"), n), n)
    t = StubSystem(cx, [], ["a", "b"], action_space=space(second), prefix="t")
    cx.ensure("returns the wrapper", w.set_physical_system(t) is w)
    cx.ensure("action space of the system", w.action_space == t.action_space)
    valid(cx, t.action_space, default_actions(w, t, action(cx, second, "b"), n), n)


def real_spaces():
    from gym_electric_motor.physical_systems import converters as cv

    single = ["OneQuadrantConverter", "TwoQuadrantConverter", "FourQuadrantConverter", "B6BridgeConverter"]
    out = [p + c for p in ("Cont", "Finite") for c in single]
    return out + ["ContMulti", "FiniteMulti"]


@contract("C24", cases=real_spaces(), targets=TGT, samples=2)
def converters(cx, name):
    """valid reset actions for the action spaces of all converters, accepted by the converter"""
    from gym_electric_motor.physical_systems import converters as cv

    if name.endswith("Multi"):
        sub = [getattr(cv, name[:-5] + "B6BridgeConverter")(), getattr(cv, name[:-5] + "FourQuadrantConverter")()]
        c = getattr(cv, name + "Converter")(sub)
    else:
        c = getattr(cv, name)()
    s = StubSystem(cx, [], ["a", "b"], action_space=c.action_space)
    w = DeadTimeProcessor(steps=2, physical_system=s)
    acts = default_actions(w, s, c.action_space.sample(), 2)
    valid(cx, c.action_space, acts, 2)
    c.reset()
    for k, a in enumerate(acts):
        c.set_action(a, k * 1e-4)


@contract("C24", cases=[1, 2], targets=TGT, samples=15)
def nested(cx, n):
    """two dead-time wrappers, with another wrapper between them, add their delays"""
    s = StubSystem(cx, [], ["a", "epsilon"], action_space=space("box1"))
    with cx.unchecked():
        w = DeadTimeProcessor(steps=n).set_physical_system(PhysicalSystemWrapper().set_physical_system(DeadTimeProcessor(steps=1, physical_system=s)))
    w.reset()
    given = []
    for j in range(2 * n + 3):
        given.append(action(cx, "box1", f"a{j}"))
        w.simulate(given[-1])
        if j >= n + 1:
            same(cx, f"inner action of step {j}", s.actions[j], given[j - n - 1])


@contract("C24", cases=[0, -1, -3], targets=TGT, samples=2)
def invalid_steps(cx, n):
    """no dead time below one step"""
    try:
        DeadTimeProcessor(steps=n)
        cx.fail("a dead time below one step was accepted")
    except AssertionError:
        cx.ensure("rejected", True)
