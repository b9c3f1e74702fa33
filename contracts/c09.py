"""C09 voltage supplies."""
import math

import numpy as np

from vc.engine import contract

from .c04 import abs_, trig
from .rng import Rng, with_rng

VP = "gym_electric_motor.physical_systems.voltage_supplies."


def vs():
    from gym_electric_motor.physical_systems import voltage_supplies

    return voltage_supplies


@contract("C09", targets=[VP + "IdealVoltageSupply." + m for m in ("get_voltage", "reset", "__init__")], samples=40)
def ideal(cx):
    u = cx.positive("u_nominal", typ=(1, 600))
    s = vs().IdealVoltageSupply(u_nominal=u)
    cx.ensure_eqs("declared range", list(s.supply_range), [u, u])
    cx.ensure_eq("nominal voltage", s.u_nominal, u)
    for k in range(2):
        cx.ensure_eqs("constant", s.get_voltage(cx.nonneg(f"t{k}"), cx.real(f"i{k}")), [u])
        cx.ensure_eqs("after reset", s.reset(), [u])


def amplitude(cx, u, phases):
    from vc import sym as S

    if cx.symbolic:
        s2, s3 = S.SymReal(S.S2), S.SymReal(S.S3)
    else:
        s2, s3 = math.sqrt(2), math.sqrt(3)
    return u * s2 if phases == 1 else u * s2 / s3


@contract("C09", cases=[(p, c) for p in (1, 3) for c in ("fixed", "random", "default")], targets=[VP + c + m for c in ("AC1PhaseSupply", "AC3PhaseSupply") for m in (".__init__", ".get_voltage", ".reset")], samples=80)
def ac(cx, phases, config):
    u = cx.positive("u_nominal", typ=(1, 600))
    f = cx.positive("frequency", typ=(1, 100))
    rng = Rng(cx)
    cls = with_rng(vs().AC1PhaseSupply if phases == 1 else vs().AC3PhaseSupply, rng)
    par = {"frequency": f}
    if config == "fixed":
        par["phase"] = cx.real("phase", lo=0, lt=6.25)
    if config == "default":
        par, f = None, 50
    before = dict(par) if par is not None else None
    s = cls(u_nominal=u, supply_parameter=par) if par is not None else cls(u_nominal=u)
    amp = amplitude(cx, u, phases)
    cx.ensure_eqs("declared range: peak values", list(s.supply_range), [-amp, amp], scale=abs_(cx, [amp]))
    for episode in range(2):
        r0 = s.reset()
        if config == "fixed":
            phi = before["phase"]
        else:
            cx.ensure("a new phase is drawn in every episode", len(rng.log) >= episode + 1)
            phi = rng.log[-1][1] * 2 * math.pi
        t = cx.nonneg(f"t{episode}", typ=(0, 0.05))
        got = s.get_voltage(t, cx.real(f"i{episode}"))
        cx.ensure("one value per phase", len(got) == phases and len(r0) == phases and s.voltage_len == phases)
        sc = 1e3
        for k in range(phases):
            d = 2 / 3 * math.pi * k
            c, sn = trig(cx, 2 * math.pi * f * t + phi + d)
            cx.ensure_eq("sinusoid of the given amplitude, frequency, phase and displacement", got[k], amp * sn, scale=sc, tol=1e-7)
            # with the two identities below (got = amp sin, sin^2 + cos^2 = 1) the value lies in [-amp, amp]
            cx.ensure_eq("inside the declared range: got^2 + (amp cos)^2 = amp^2", got[k] * got[k] + amp * c * amp * c, amp * amp, scale=1e7)
            if not cx.symbolic:
                cx.ensure_between("inside the declared range", got[k], s.supply_range[0], s.supply_range[1])
            c, sn = trig(cx, phi + d)
            cx.ensure_eq("reset: the value at time 0", r0[k], amp * sn, scale=sc, tol=1e-7)
        if phases == 3:
            cx.ensure_eq("three phases sum to zero", got[0] + got[1] + got[2], 0, scale=sc)
        if before is not None:
            cx.ensure("the user's parameters are not touched", set(par) == set(before) and all(par[k] is before[k] or bool(par[k] == before[k]) for k in before))


@contract("C09", cases=[False, True], targets=[VP + "RCVoltageSupply." + m for m in ("__init__", "system_equation", "get_voltage", "reset")], samples=80)
def rc(cx, defaults):
    u0 = cx.positive("u_nominal", typ=(1, 600))
    par = None if defaults else {"R": cx.positive("R"), "C": cx.positive("C", typ=(1e-3, 1e-1))}
    if par:
        cx.requires(par["R"] * par["C"] >= 1e-4)
    before = dict(par) if par else None
    s = vs().RCVoltageSupply(u_nominal=u0, supply_parameter=par) if par else vs().RCVoltageSupply(u_nominal=u0)
    R, C = (par["R"], par["C"]) if par else (1, 4e-3)
    cx.ensure_eqs("declared range", list(s.supply_range), [0, u0])
    for episode in range(2):
        cx.ensure_eqs("starts at the nominal voltage after a reset", s.reset(), [u0])
        u, t = u0, 0
        for k in range(2):
            dt = cx.nonneg(f"dt{episode}{k}", typ=(0, 1e-3))
            i = cx.real(f"i{episode}{k}", typ=(-20, 20))
            got = s.get_voltage(t + dt, i)
            u = u + dt * (u0 - u - R * i) / (R * C)
            t = t + dt
            cx.ensure_eqs("explicit Euler step of du/dt = (u0 - u - R i)/(RC)", got, [u], scale=1e4)
    if before:
        cx.ensure("the user's parameters are not touched", set(par) == set(before) and all(par[k] is before[k] or bool(par[k] == before[k]) for k in before))


@contract("C09", targets=[VP + "RCVoltageSupply.get_voltage"], samples=60)
def rc_from_any_state(cx):
    """induction over the steps of an episode: from any capacitor voltage and time one more call is one Euler step"""
    u0, R, C = cx.positive("u_nominal", typ=(1, 600)), cx.positive("R"), cx.positive("C", typ=(1e-3, 1e-1))
    cx.requires(R * C >= 1e-4)
    s = vs().RCVoltageSupply(u_nominal=u0, supply_parameter={"R": R, "C": C})
    s.reset()
    u, t, dt, i = cx.real("u", typ=(0, 600)), cx.nonneg("t", typ=(0, 1)), cx.nonneg("dt", typ=(0, 1e-3)), cx.real("i", typ=(-20, 20))
    s._solver.set_initial_value(cx.array([u]), t)
    cx.ensure_eqs("one Euler step", s.get_voltage(t + dt, i), [u + dt * (u0 - u - R * i) / (R * C)], scale=1e4)
