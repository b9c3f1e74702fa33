"""C05 redundant quantities of one returned state agree (simulate and reset of the three-phase systems)."""
import math

from vc.engine import contract

from .c12 import STUBS, UNROLL
from .common import AC
from .simstep import PSP, Step, arr, rot, rot_inv, to_ab, to_abc, trig

T = [PSP + c + m for c in ("SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem", "SquirrelCageInductionMotorSystem", "DoublyFedInductionMotorSystem") for m in (".simulate", ".reset")]


def field_pair(cx, st, x):
    """(stator field angle, rotor frame angle relative to it) as cos/sin pairs"""
    return st.field(x)


def agree(cx, st, x, xu):
    """x: the ode state the currents were taken from, xu: the ode state at whose angles the voltages were applied"""
    p, k = st.phys, st.kind
    sc = st.scale()
    pre = "s" if k in ("scim", "dfim") else ""
    f = st.field(x)
    cx.ensure_eqs("phase currents are the inverse transform of the dq currents", [p[f"i_{pre}{n}"] for n in "abc"], to_abc(cx, rot(f, [p["i_sd"], p["i_sq"]])), scale=sc)
    fu = st.field(xu)
    cx.ensure_eqs("dq voltages are the transform of the phase voltages", [p["u_sd"], p["u_sq"]], rot_inv(fu, to_ab(cx, [p[f"u_{pre}{n}"] for n in "abc"])), scale=sc)
    if k == "dfim":
        el, elu = trig(cx, x[-1]), trig(cx, xu[-1])
        cx.ensure_eqs("rotor phase currents are the inverse transform of the rotor dq currents", [p[f"i_r{n}"] for n in "abc"], to_abc(cx, rot_inv(el, rot(f, [p["i_rd"], p["i_rq"]]))), scale=sc)
        cx.ensure_eqs("rotor dq voltages are the transform of the rotor phase voltages", [p["u_rd"], p["u_rq"]], rot_inv(fu, rot(elu, to_ab(cx, [p[f"u_r{n}"] for n in "abc"]))), scale=sc)
    # angle: in (-pi, pi] and congruent to the integrated angle
    e = p["epsilon"]
    cx.ensure("angle above -pi", e > -math.pi if cx.symbolic else e > -math.pi - 1e-9)
    cx.ensure_le("angle at most pi", e, math.pi)
    cx.ensure_eqs("angle congruent to the integrated angle", list(trig(cx, e)), list(trig(cx, x[-1])), tol=1e-7)
    if k in ("pmsm", "synrm", "eesm"):
        cx.ensure_eqs("phase currents at the reported angle", [p[f"i_{n}"] for n in "abc"], to_abc(cx, rot(trig(cx, e), [p["i_sd"], p["i_sq"]])), scale=sc, tol=1e-7)
    # torque at the reported currents
    mp = st.mp
    if k in ("pmsm", "synrm"):
        psi = mp.get("psi_p", 0)
        t = 1.5 * mp["p"] * (psi + (mp["l_d"] - mp["l_q"]) * p["i_sd"]) * p["i_sq"]
        cx.ensure_eq("torque at the reported currents", p["torque"], t, scale=sc)
    elif k == "eesm":
        cx.ensure_eq("torque at the reported currents", p["torque"], st.m.torque(cx.array([p["i_sd"], p["i_sq"], p["i_e"], e])), scale=sc)
    else:
        cx.ensure_eq("torque at the currents and fluxes", p["torque"], 1.5 * mp["p"] * mp["l_m"] / (mp["l_m"] + mp["l_sigr"]) * (x[3] * x[2] - x[4] * x[1]), scale=sc)
        f2 = rot(f, [p["i_sd"], p["i_sq"]])
        cx.ensure_eq("torque at the reported currents and the fluxes", p["torque"], 1.5 * mp["p"] * mp["l_m"] / (mp["l_m"] + mp["l_sigr"]) * (x[3] * f2[1] - x[4] * f2[0]), scale=sc)


@contract("C05", cases=[(k, n) for k in AC for n in (1, 2, 3)], targets=T[::2], samples=40, assumes=[UNROLL, STUBS])
def after_step(cx, kind, n):
    st = Step(cx, kind).simulate(n, object())
    if len(st.xs) != n + 1:
        return cx.fail("one integration per switching interval")
    agree(cx, st, st.xs[-1], st.xs[-2])


@contract("C05", cases=list(AC), targets=T[1::2], samples=60, assumes=[STUBS])
def after_reset(cx, kind):
    st = Step(cx, kind).reset()
    agree(cx, st, st.xs[0], st.xs[0])
