"""Stub environment for the gem_controllers package: a real motor object (arbitrary positive parameters), arbitrary
limits, arbitrary step size; only what the controllers read from an environment in their tune() methods."""
import numpy as np
from gymnasium.spaces import Discrete, MultiDiscrete

import gem_controllers as gc
from gem_controllers.stages import BaseController, OperationPointSelection

from .common import motor

MOTOR_ID = {"perm": "PermExDc", "extex": "ExtExDc", "series": "SeriesDc", "shunt": "ShuntDc", "pmsm": "PMSM", "synrm": "SynRM", "eesm": "EESM", "scim": "SCIM"}
DCK = ["perm", "extex", "series", "shunt"]
ACK = ["pmsm", "synrm", "scim", "eesm"]
# orders that are neither those of the environments nor those of the controllers (indices have to be looked up by name)
STATES = {
    "perm": ["torque", "u_sup", "i", "omega", "u"],
    "series": ["u", "torque", "u_sup", "i", "omega"],
    "shunt": ["u", "i_e", "torque", "omega", "u_sup", "i_a"],
    "extex": ["u_e", "i_e", "torque", "i_a", "u_sup", "omega", "u_a"],
    "pmsm": ["i_sq", "u_b", "u_sq", "torque", "u_a", "epsilon", "u_sd", "i_sd", "omega", "u_c"],
    "eesm": ["u_e", "i_sq", "u_b", "u_sq", "torque", "u_a", "epsilon", "u_sd", "i_e", "i_sd", "omega", "u_c", "u_sup"],
    "scim": ["i_sq", "u_sb", "u_sq", "psi_angle", "torque", "u_sa", "epsilon", "u_sd", "psi_abs", "i_sd", "omega", "u_sc"],
}
STATES["synrm"] = STATES["pmsm"]


class _Box:
    def __init__(self, low, high):
        self.low, self.high = low, high


class _Load:
    pass


class _System:
    pass


class StubEnv:
    """limits: one arbitrary positive number per state; low: 0 or -1 per state, high: 1"""

    def __init__(self, cx, kind, mp=None, low=None, same_limits=(), references=None, dead_time=None, converter=None, action_space=None, motor_=None, reverse=False):
        self.given = dict(mp=mp, low=low, same_limits=same_limits, references=references, dead_time=dead_time, converter=converter, action_space=action_space)
        self.state_names = list(STATES[kind])[:: -1 if reverse else 1]
        self.kind = kind
        self.visualizations = []
        lim = {}
        for n in self.state_names:
            lim[n] = cx.positive("lim_" + n, typ=(0.5, 20.0)) if not any(n in g[1:] for g in same_limits) else None
        for g in same_limits:
            for n in g[1:]:
                lim[n] = lim[g[0]]
        self.lim = lim
        self.limits = cx.array([lim[n] for n in self.state_names])
        low = low or {}
        lows = [low.get(n, -1.0) for n in self.state_names]
        self.low = dict(zip(self.state_names, lows))
        self.observation_space = (_Box(cx.array(lows), cx.array([1.0] * len(lows))), None)
        self.reference_names = list(references or ["omega"])
        self.action_space = action_space
        ps = self.physical_system = _System()
        ps.electrical_motor, self.mp = (motor_, motor_.motor_parameter) if motor_ is not None else motor(cx, kind, mp)
        ps.tau = cx.positive("tau", typ=(1e-4, 1e-2))
        ps.limits = self.limits
        ps.nominal_state = cx.array([cx.positive("nom_" + n, typ=(0.5, 20.0)) for n in self.state_names])
        ps.converter = converter
        ps.state_names = self.state_names
        self.nominal_state = ps.nominal_state
        ps.mechanical_load = _Load()
        ps.mechanical_load.j_total = cx.positive("j_total", typ=(0.01, 2.0))
        if dead_time is not None:
            ps.dead_time = dead_time

    def idx(self, n):
        return self.state_names.index(n)


def state(cx, env, prefix="x_", typ=(-30, 30), **given):
    return cx.array([given[n] if n in given else cx.real(prefix + n, typ=typ) for n in env.state_names])


class HavocBase(BaseController):
    """base controller contract: any vector"""

    def __init__(self, cx, n, task, prefix="v", typ=(-60, 60), special=()):
        super().__init__(task)
        self.out = cx.array([cx.real(f"{prefix}{k}", typ=typ) for k in range(n)])
        self.calls = []

    def __call__(self, state, reference):
        self.calls.append((state, reference))
        return self.out


class HavocOps(OperationPointSelection):
    """operation point selection contract: any current vector"""

    def __init__(self, cx, n, prefix="op", typ=(-60, 60)):
        super().__init__()
        self.out = cx.array([cx.real(f"{prefix}{k}", typ=typ) for k in range(n)])
        self.calls = []

    def __call__(self, state, reference):
        self.calls.append((state, reference))
        return self.out


class RecordingCurrentController(gc.CurrentController):
    """current controller contract: records the reference it is given, returns any voltage"""

    def __init__(self):
        super().__init__()
        self.refs = []
        self.resets = 0

    def tune(self, env, env_id, **kwargs):
        pass

    def current_control(self, state, reference):
        self.refs.append((state, reference))
        return "voltage"

    def reset(self):
        self.resets += 1

    t_n = property(lambda self: np.array([1e-3]))
    references = property(lambda self: dict())
    referenced_states = property(lambda self: np.array([]))
    maximum_reference = property(lambda self: dict())


def n_cur(kind):
    return len(gc.parameter_reader.currents[MOTOR_ID[kind]])


def n_volt(kind):
    return len(gc.parameter_reader.voltages[MOTOR_ID[kind]])


class Fixed:
    """the same context with a fixed, different number for every input"""

    def __init__(self, cx):
        self._cx, self._n = cx, 0

    def __getattr__(self, n):
        if n in ("real", "angle", "int", "bool", "choice", "vec"):
            raise NotImplementedError(n)
        return getattr(self._cx, n)

    def positive(self, name, typ=(0.05, 5.0)):
        self._n += 1
        return typ[0] + (typ[1] - typ[0]) * (self._n * 7 % 31) / 32

    nonneg = positive


def earlier(cx, kind, **k):
    """an environment a controller has been tuned to before (other parameters, limits and state order); nothing of it may
    be left after tuning to another one"""
    return StubEnv(Fixed(cx), kind, reverse=True, **k)


def tune_anew(cx, obj, env, *a, **k):
    """tune to another environment of the same kind first, then to the given one"""
    obj.tune(earlier(cx, env.kind, **env.given), *a, **k)
    obj.tune(env, *a, **k)
