"""C26 the dq action wrapper applies the requested voltage at the predicted angle."""
import math

import numpy as np
from gymnasium.spaces import Box

from gym_electric_motor.physical_system_wrappers import CosSinProcessor, DeadTimeProcessor, DqToAbcActionProcessor, FluxObserver, PhysicalSystemWrapper
from gym_electric_motor.physical_systems import electric_motors as em
from vc.engine import contract

from .common import AC, DC, motor
from .envstub import StubSystem

W = "gym_electric_motor.physical_system_wrappers.dq_to_abc_action_processor."
TGT = [W + "DqToAbcActionProcessor." + m for m in ("__init__", "make", "set_physical_system", "reset", "_advance_angle", "_transformation")] + [W + c + ".simulate" for c in ("_ClassicDqToAbcActionProcessor", "_DFIMDqToAbcActionProcessor", "_EESMDqToAbcActionProcessor")]
ASSUME = ["callee contracts of ThreePhaseMotor.t_23 / q_inv: the Clarke and Park transforms, mutually inverse with t_32 / q (property C04)"]
NAMES = {
    "pmsm": ["torque", "omega", "i_sd", "epsilon", "u_sup"],
    "eesm": ["omega", "i_sd", "i_e", "epsilon"],
    "scim": ["i_sd", "psi_angle", "omega", "epsilon"],
    "dfim": ["epsilon", "omega", "i_sd", "psi_abs", "psi_angle"],
}
NACT = {"pmsm": (2, 3), "scim": (2, 3), "eesm": (3, 4), "dfim": (4, 6)}
ANGLE = {"pmsm": "epsilon", "eesm": "epsilon", "scim": "psi_angle", "dfim": "epsilon"}
T = em.ThreePhaseMotor


class Sys(StubSystem):
    pass


def build(cx, kind, dead="none", inner_wrap=False, late=False, **kw):
    m, mp = motor(cx, kind)
    names = NAMES[kind]
    lim = [cx.positive(f"lim{i}", typ=(0.5, 50)) for i in range(len(names))]
    tau = cx.positive("tau", typ=(1e-4, 1e-2))
    s = Sys(cx, [], names, limits=lim, tau=tau, action_space=Box(-1.0, 1.0, shape=(NACT[kind][1],), dtype=np.float64))
    s.electrical_motor = m
    x, delay = s, 0
    if dead == "attr":  # any dead time announced by the inner system
        delay = s.dead_time = cx.int("dead", lo=1, hi=50)
    elif dead != "none":
        delay = int(dead)
        x = DeadTimeProcessor(steps=delay).set_physical_system(x)
    if inner_wrap:
        x = PhysicalSystemWrapper().set_physical_system(x)
    with cx.unchecked():
        if late:
            w = DqToAbcActionProcessor.make(kind.upper(), **kw)
            cx.ensure("set_physical_system returns the wrapper", w.set_physical_system(x) is w)
        else:
            w = DqToAbcActionProcessor.make(kind.upper(), physical_system=x, **kw)
    return w, s, mp, lim, tau, delay


def dq(cx, abc, angle):
    """dq components of phase quantities at an angle"""
    return list(T.q_inv(T.t_23(cx.array(list(abc))), angle))


def check(cx, kind, inner_action, action, state, names, lim, mp, tau, delay, angle_name):
    """inner_action must be the phase action of the dq action, computed from the (normalised) state"""
    at = lambda n: state[names.index(n)] * lim[names.index(n)]
    lead = (0.5 + delay) * tau * at("omega") * mp["p"]
    cx.ensure("length of the inner action", np.shape(inner_action) == (NACT[kind][1],))
    if np.shape(inner_action) != (NACT[kind][1],):
        return
    got, want = list(inner_action), list(action)
    phases = [(got[:3], want[:2], at(angle_name) + lead, "stator")]
    if kind == "dfim":
        phases.append((got[3:], want[2:], at("psi_angle") - (at("epsilon") + lead), "rotor"))
    for abc, ref, ang, what in phases:
        cx.ensure_eqs(f"{what}: dq components at the predicted angle", dq(cx, abc, ang), ref, tol=1e-7)
        cx.ensure_eq(f"{what}: no zero component", abc[0] + abc[1] + abc[2], 0, tol=1e-7)
    if kind == "eesm":
        cx.ensure_eq("excitation action handed through", got[3], want[2])


def simulate(cx, w, kind, tag):
    a = cx.vec(f"act{tag}_", NACT[kind][0], typ=(-1, 1))
    keep = list(a)
    out = w.simulate(a)
    cx.ensure_eqs("the caller's action is untouched", list(a), keep)
    return a, out


@contract("C26", cases=[(k, d, l) for k in NAMES for d in ("none", "attr") for l in (False, True)], targets=TGT, assumes=ASSUME, samples=60, opaque_trig=True)
def histories(cx, kind, dead, late):
    """reset, steps, reset, step: each action is transformed with the latest state"""
    w, s, mp, lim, tau, delay = build(cx, kind, dead, late=late)
    names = NAMES[kind]
    for ep in range(2):
        out = w.reset()
        x = list(s.states[-1])
        cx.ensure_eqs("state of the reset handed through", list(out), x)
        for k in range(3 if ep == 0 else 1):
            a, out = simulate(cx, w, kind, f"{ep}_{k}")
            cx.ensure("exactly one inner step", len(s.actions) == ep * 3 + k + 1)
            check(cx, kind, s.actions[-1], a, x, names, lim, mp, tau, delay, ANGLE[kind])
            x = list(s.states[-1])
            cx.ensure_eqs("state handed through", list(out), x)


@contract("C26", cases=[(k, n, i) for k in NAMES for n in (1, 2) for i in (False, True)], targets=TGT, assumes=ASSUME, samples=30, opaque_trig=True)
def with_dead_time(cx, kind, n, inner_wrap):
    """around a real dead-time wrapper: the action of step k, predicted n + 1/2 steps ahead, reaches the system n steps later"""
    w, s, mp, lim, tau, delay = build(cx, kind, str(n), inner_wrap)
    names = NAMES[kind]
    w.reset()
    hist = []
    for k in range(n + 2):
        x = list(s.states[-1])
        a, _ = simulate(cx, w, kind, k)
        hist.append((a, x))
        if k >= n:
            a0, x0 = hist[k - n]
            check(cx, kind, s.actions[k], a0, x0, names, lim, mp, tau, n, ANGLE[kind])
        else:
            cx.ensure_eqs("dead interval", list(s.actions[k]), [0.0] * NACT[kind][1])


@contract("C26", cases=[("pmsm", "u_sup"), ("scim", "epsilon")], targets=TGT, assumes=ASSUME, samples=30, opaque_trig=True)
def other_angle(cx, kind, name):
    """the configured angle is used"""
    w, s, mp, lim, tau, delay = build(cx, kind, angle_name=name)
    w.reset()
    x = list(s.states[-1])
    a, _ = simulate(cx, w, kind, 0)
    check(cx, kind, s.actions[-1], a, x, NAMES[kind], lim, mp, tau, 0, name)


@contract("C26", cases=list(NAMES), targets=TGT, samples=5)
def announced(cx, kind):
    """action space, names, limits and state space"""
    w, s, mp, lim, tau, delay = build(cx, kind)
    n = NACT[kind][0]
    sp = w.action_space
    cx.ensure("action space: dq box", sp.shape == (n,) and all(sp.low == -1.0) and all(sp.high == 1.0))
    cx.ensure("state names", list(w.state_names) == NAMES[kind])
    cx.ensure_eqs("limits", list(w.limits), lim)
    cx.ensure("state space", w.state_space is s.state_space)
    cx.ensure("inner action space untouched", s.action_space.shape == (NACT[kind][1],))


@contract("C26", cases=[("foo", "name"), ("SynRM", "name")] + [(k, "dc") for k in DC] + [("pmsm", "angle"), ("scim", "angle"), ("dfim", "angle")], targets=TGT, samples=3)
def unsupported(cx, kind, what):
    """unknown motor types, motors without three phases and missing angles are rejected"""
    try:
        if what == "name":
            DqToAbcActionProcessor.make(kind)
        else:
            m, _ = motor(cx, kind)
            s = StubSystem(cx, [], ["omega", "i"])
            s.electrical_motor = m
            DqToAbcActionProcessor.make("PMSM" if what == "dc" else kind.upper(), physical_system=s)
    except (AssertionError, ValueError, KeyError):
        cx.ensure("rejected", True)
        return
    cx.fail("accepted")
