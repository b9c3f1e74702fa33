"""Converters: how an arbitrary history is produced, and the documented half-bridge behaviour."""
import numpy as np

CVP = "gym_electric_motor.physical_systems.converters."


def cv():
    from gym_electric_motor.physical_systems import converters

    return converters


FIN = {"1qc": ("FiniteOneQuadrantConverter", 2), "2qc": ("FiniteTwoQuadrantConverter", 3), "4qc": ("FiniteFourQuadrantConverter", 4), "b6": ("FiniteB6BridgeConverter", 8)}
CONT = {"1qc": "ContOneQuadrantConverter", "2qc": "ContTwoQuadrantConverter", "4qc": "ContFourQuadrantConverter", "b6": "ContB6BridgeConverter"}
NOUT = {"1qc": 1, "2qc": 1, "4qc": 1, "b6": 3}


def legs(kind, action):
    """transistor state of every half bridge (1 upper, 2 lower, 0 none) for a discrete action"""
    if kind == "2qc":
        return [action]
    if kind == "4qc":  # 0: T2,T4  1: T1,T4  2: T2,T3  3: T1,T3   (T1/T2 left leg, T3/T4 right leg)
        return [{0: 1, 1: 1, 2: 2, 3: 2}[action], {0: 1, 1: 2, 2: 1, 3: 2}[action]]
    if kind == "b6":
        return [1 if action & (4 >> k) else 2 for k in range(3)]
    raise KeyError(kind)


def half_bridge(state, i):
    """output of one half bridge: upper transistor 1, lower 0, none: the diode the current selects"""
    if state == 1:
        return 1
    if state == 2:
        return 0
    return 1 if i < 0 else 0


def leg_currents(kind, i):
    return {"2qc": lambda: [i[0]], "4qc": lambda: [i[0], -i[0]], "b6": lambda: list(i)}[kind]()


def output(kind, states, i):
    v = [half_bridge(s, c) for s, c in zip(states, leg_currents(kind, i))]
    if kind == "2qc":
        return [v[0]]
    if kind == "4qc":
        return [v[0] - v[1]]
    return [x - 0.5 for x in v]


class Timing:
    def __init__(self, cx, interlocking=True, dead=None):
        self.cx = cx
        self.tau = cx.real("tau", gt=0, typ=(1e-5, 1e-3))
        self.t0 = cx.nonneg("t0", typ=(0, 0.1))
        self.il = 0.0
        if interlocking:
            self.il = cx.real("interlocking", lo=0, typ=(0, 1e-4))
            # the converter leaves the dead interval tau/1000 early by design (solver inaccuracy)
            cx.requires(self.il * 1000 < self.tau * 999)


def finite(cx, kind, tm, via_tau_setter=False):
    cls = getattr(cv(), FIN[kind][0])
    if via_tau_setter:
        c = cls(tau=1e-2, interlocking_time=tm.il)
        c.tau = tm.tau
        return c
    return cls(tau=tm.tau, interlocking_time=tm.il)


def prior_step(cx, c, kind, prev, tm, i):
    """one complete step before t0 with action prev: every announced interval is converted"""
    times = c.set_action(prev, tm.t0)
    for t in times:
        c.convert(i, t)
        c.i_sup(i)


def currents(cx, kind, prefix="i", zero_sum=False):
    n = NOUT[kind]
    i = [cx.real(f"{prefix}{k}", typ=(-20, 20)) for k in range(n)]
    if n == 3 and zero_sum:
        i[2] = -i[0] - i[1]
    return i
