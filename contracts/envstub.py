"""Stub components (abstract contracts) for the environment and for wrappers: every value they return is arbitrary and
unconstrained, every call is recorded with its arguments."""
import numpy as np
from gymnasium.spaces import Box

import gym_electric_motor as gem
from gym_electric_motor.core import Callback, ElectricMotorVisualization, PhysicalSystem, ReferenceGenerator, RewardFunction


class StubSystem(PhysicalSystem):
    """PhysicalSystem contract: n named states, arbitrary limits, arbitrary state arrays"""

    def __init__(self, cx, log, names, limits=None, nominal=None, low=None, high=None, tau=1e-3, action_space=None, prefix="s", start_k=0, names_type=list):
        n = len(names)
        super().__init__(action_space or Box(-1.0, 1.0, shape=(2,), dtype=np.float64), Box(np.array(low if low is not None else [-1.0] * n), np.array(high if high is not None else [1.0] * n), dtype=np.float64), names_type(names), tau)
        self.cx, self.log, self.prefix = cx, log, prefix
        self._limits = cx.array(limits) if limits is not None else np.ones(n)
        self._nominal = cx.array(nominal) if nominal is not None else np.ones(n)
        self._k = start_k
        self.states, self.actions, self.resets = [], [], 0
        self.closed = 0

    limits = property(lambda self: self._limits)
    nominal_state = property(lambda self: self._nominal)

    def _new(self):
        s = self.cx.vec(f"{self.prefix}{len(self.states)}_", len(self._state_names), typ=(-1.5, 1.5))
        self.states.append(s)
        return s

    def reset(self, *a, **k):
        self.log.append(("system.reset",))
        self._k = 0
        self.resets += 1
        return self._new()

    def simulate(self, action, *a, **k):
        self.log.append(("system.simulate", action))
        self._k += 1
        self.actions.append(action)
        return self._new()

    def close(self):
        self.closed += 1
        self.log.append(("system.close",))


class StubReference(ReferenceGenerator):
    def __init__(self, cx, log, prefix="r", n_obs=1):
        super().__init__()
        self.cx, self.log, self.prefix, self.n_obs = cx, log, prefix, n_obs
        self.reference_space = Box(-1.0, 1.0, shape=(n_obs,), dtype=np.float64)
        self._reference_names = ["a"]
        self.refs, self.obs = [], []
        self.modules = []

    def set_modules(self, ps):
        super().set_modules(ps)
        self.modules.append(ps)
        self.n = len(ps.state_names)
        self._referenced_states = np.array([True] + [False] * (self.n - 1))

    def _ref(self):
        self.refs.append(self.cx.vec(f"{self.prefix}ref{len(self.refs)}_", self.n, typ=(-1, 1)))
        return self.refs[-1]

    def _obs(self):
        self.obs.append(self.cx.vec(f"{self.prefix}obs{len(self.obs)}_", self.n_obs, typ=(-1, 1)))
        return self.obs[-1]

    def reset(self, initial_state=None, initial_reference=None):
        self.log.append(("reference.reset", initial_state))
        return self._ref(), self._obs(), None

    def get_reference(self, state, *a, **k):
        self.log.append(("reference.get_reference", state))
        return self._ref()

    def get_reference_observation(self, state, *a, **k):
        self.log.append(("reference.get_reference_observation", state))
        return self._obs()

    def close(self):
        self.log.append(("reference.close",))


class StubReward(RewardFunction):
    def __init__(self, cx, log, prefix="w"):
        self.cx, self.log, self.prefix = cx, log, prefix
        self.rewards, self.modules = [], []
        self.reward_range = (-7.0, 3.0)

    def set_modules(self, ps, rg, cm):
        self.modules.append((ps, rg, cm))

    def reset(self, initial_state=None, initial_reference=None):
        self.log.append(("reward.reset", initial_state, initial_reference))

    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        self.log.append(("reward.reward", state, reference, k, action, violation_degree))
        self.rewards.append(self.cx.real(f"{self.prefix}{len(self.rewards)}"))
        return self.rewards[-1]

    def close(self):
        self.log.append(("reward.close",))


class StubConstraint(gem.constraints.Constraint):
    def __init__(self, cx, log, name, degrees=None):
        self.cx, self.log, self.name, self.given = cx, log, name, degrees
        self.modules, self.degrees = [], []

    def set_modules(self, ps):
        self.modules.append(ps)

    def __call__(self, state):
        self.log.append((self.name, state))
        d = self.given if self.given is not None else self.cx.real(f"{self.name}{len(self.degrees)}", lo=0, hi=1, special=(0.0, 1.0))
        self.degrees.append(d)
        return d


class StubCallback(Callback):
    def __init__(self, log, name):
        super().__init__()
        self.log, self.name = log, name

    def set_env(self, env):
        super().set_env(env)
        self.log.append((self.name + ".set_env", env))

    def on_reset_begin(self):
        self.log.append((self.name + ".on_reset_begin",))

    def on_reset_end(self, state, reference):
        self.log.append((self.name + ".on_reset_end", state, reference))

    def on_step_begin(self, k, action):
        self.log.append((self.name + ".on_step_begin", k, action))

    def on_step_end(self, k, state, reference, reward, terminated):
        self.log.append((self.name + ".on_step_end", k, state, reference, reward, terminated))

    def on_close(self):
        self.log.append((self.name + ".on_close",))


class StubVisualization(ElectricMotorVisualization):
    def __init__(self, log, name):
        super().__init__()
        self.log, self.name = log, name

    set_env, on_reset_begin, on_reset_end, on_step_begin, on_step_end, on_close = (StubCallback.__dict__[n] for n in ("on_close", "on_reset_begin", "on_reset_end", "on_step_begin", "on_step_end", "on_close"))

    def set_env(self, env):  # noqa: F811
        self._env = env
        self.log.append((self.name + ".set_env", env))

    def render(self):
        self.log.append((self.name + ".render",))


def numeric(x):
    return isinstance(x, (int, float, np.number, np.ndarray)) and not isinstance(x, (bool, np.bool_)) and not (isinstance(x, np.ndarray) and x.dtype == bool) or type(x).__name__ in ("SymReal", "SymInt")


def boolean(x):
    return isinstance(x, (bool, np.bool_)) or type(x).__name__ == "SymBool"


def ensure_same(cx, name, a, b):
    """the two values are equal (numeric values as obligations, everything else by identity / equality)"""
    if a is b:
        cx.ensure(name, True)
    elif isinstance(b, (list, tuple)) and not isinstance(b, str):
        ok = isinstance(a, (list, tuple)) and len(a) == len(b)
        cx.ensure(name + ":len", ok)
        if ok:
            for i, (x, y) in enumerate(zip(a, b)):
                ensure_same(cx, f"{name}.{i}", x, y)
    elif numeric(a) and numeric(b):
        cx.ensure_eqs(name, a, b)
    elif boolean(a) and boolean(b):
        cx.ensure_eq(name, a, b) if False else cx.ensure(name, (a & b) | (~a & ~b) if "SymBool" in (type(a).__name__, type(b).__name__) and type(a) is type(b) else (a if b else _neg(a)) if isinstance(b, (bool, np.bool_)) else (b if a else _neg(b)))
    else:
        try:
            cx.ensure(name, bool(a == b))
        except Exception:
            cx.ensure(name, False)


def _neg(a):
    return (not a) if isinstance(a, (bool, np.bool_)) else ~a


def ensure_log(cx, name, got, want):
    """the recorded calls are exactly `want`: same functions in the same order with the same arguments"""
    g, w = [x[0] for x in got], [x[0] for x in want]
    cx.ensure(f"{name}: calls in order", g == w, info=f"{g} vs {w}")
    if g != w:
        return
    for i, (x, y) in enumerate(zip(got, want)):
        for j, (a, b) in enumerate(zip(x[1:], y[1:])):
            ensure_same(cx, f"{name}: {x[0]} argument {j}", a, b)


def ensure_calls(cx, name, got, want, before):
    """each of the wanted calls happened exactly once with the given arguments, nothing else was called, and every pair in
    `before` happened in that order"""
    g = [x[0] for x in got]
    w = [x[0] for x in want]
    cx.ensure(f"{name}: every component and callback called exactly once", sorted(g) == sorted(w), info=f"{g} vs {w}")
    if sorted(g) != sorted(w):
        return
    for a, b in before:
        cx.ensure(f"{name}: {a} before {b}", g.index(a) < g.index(b), info=str(g))
    ensure_log(cx, name, [got[g.index(n)] for n in w], want)
