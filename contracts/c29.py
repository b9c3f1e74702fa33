"""C29 operating points: torque reference to current reference."""
import numpy as np

import gem_controllers as gc

from vc.engine import contract

from .c27 import eid, names_of
from .common import MOTORS
from .gcstub import ACK, DCK, MOTOR_ID, HavocOps, RecordingCurrentController, StubEnv, tune_anew, state

OPS = "gem_controllers.stages.operation_point_selection."
FILE = {"perm": "permex_dc_ops.PermExDc", "series": "series_dc_ops.SeriesDc", "shunt": "shunt_dc_ops.ShuntDc", "extex": "extex_dc_ttc.ExtExDc"}


def controller(cx, kind, env, m, ops=None):
    cc = RecordingCurrentController()
    with cx.unchecked():
        c = gc.TorqueController(env, eid(kind, "TC"), current_controller=cc, torque_to_current_stage=ops)
    tune_anew(cx, c, env, eid(kind, "TC"), **({} if m is None else {"current_safety_margin": m}))
    c.reset()
    return c, cc


def torque_of(cx, kind, env, cur):
    """the real torque equation of the real motor"""
    mo = env.physical_system.electrical_motor
    return mo.torque(cx.array(list(cur)))


@contract("C29", cases=[(k, m, lo) for k in DCK for m in (False, True) for lo in (-1.0, 0.0)], targets=[OPS + f + "OperationPointSelection." + m for f in FILE.values() for m in ("_select_operating_point", "tune")] + ["gem_controllers.torque_controller.TorqueController." + f for f in ("control", "torque_control", "tune")], samples=120)
def dc_torque(cx, kind, with_margin, low):
    """torque of the real motor at the selected current == demanded torque, when possible within the limits"""
    cn = names_of(kind, "TC")
    env = StubEnv(cx, kind, low={n: low for n in cn})
    m = cx.real("margin", lo=0, lt=1, typ=(0, 0.8)) if with_margin else None
    f = 1 - (0.2 if m is None else m)
    c, cc = controller(cx, kind, env, m)
    mp = env.mp
    for rnd in range(2 if kind == "series" else 1):
        T = cx.real(f"T{rnd}", typ=(-5, 5), special=[0.0])
        x = state(cx, env, f"x{rnd}_", typ=(-3, 3))
        w = x[env.idx("omega")]
        c.control(x, cx.array([T]))
        got = cc.refs[rnd][1]
        cx.ensure("one reference per current", len(got) == len(cn))
        hi = [env.lim[n] * f for n in cn]
        for k, n in enumerate(cn):
            cx.ensure_between(f"permitted current {n}", got[k], low * hi[k], hi[k])
        if kind == "perm":
            t = torque_of(cx, kind, env, [got[0]])
            need = T / mp["psi_e"]
            u = (env.lim["u"] - mp["psi_e"] * abs(w)) / mp["r_a"]
            inside = low * hi[0] <= need and need <= hi[0]
            if w > 0:
                reach = need <= u
                if inside and not reach and u >= low * hi[0]:
                    cx.ensure_eq("limited by the available voltage", got[0], u)
            else:
                reach = need >= -u
                if inside and not reach and -u <= hi[0] and -u >= low * hi[0]:
                    cx.ensure_eq("limited by the available voltage", got[0], -u)
            if inside and reach:
                cx.ensure_eq("exactly the demanded torque", t, T)
        elif kind == "series":
            t = torque_of(cx, kind, env, [got[0]])
            if T <= 0:
                cx.ensure_eq("no current for a torque a series machine cannot produce", got[0], 0)
            elif T <= mp["l_e_prime"] * hi[0] * hi[0]:
                cx.ensure_eq("exactly the demanded torque", t, T)
            else:
                cx.ensure_eq("the permitted current otherwise", got[0], hi[0])
        elif kind == "shunt":
            ie = x[env.idx("i_e")]
            ie_hi = env.lim["i_e"] * f
            t = torque_of(cx, kind, env, [got[0], ie])
            if ie > ie_hi:
                cx.ensure_eq("lower the armature current when the excitation current is too high", got[0], low * hi[0])
            elif ie < -ie_hi:
                cx.ensure_eq("raise the armature current when the excitation current is too low", got[0], hi[0])
            elif abs(ie) >= 1e-4:
                reachable(cx, T, t, got[0], mp["l_e_prime"] * ie, low * hi[0], hi[0])
        else:
            ie = x[env.idx("i_e")]
            t = torque_of(cx, kind, env, [got[0], ie])
            if abs(ie) >= 1e-4:
                reachable(cx, T, t, got[0], mp["l_e_prime"] * ie, low * hi[0], hi[0])
            ie_ref = got[1]
            # minimal ohmic losses: r_a i_a^2 == r_e i_e^2 with l' i_a i_e == |T|
            q = ie_ref * ie_ref * mp["l_e_prime"]
            if ie_ref < hi[1]:
                cx.ensure_eq("loss-optimal excitation", q * q * mp["r_e"], T * T * mp["r_a"])


def reachable(cx, T, t, cur, factor, lo, hi):
    """armature current for torque T == factor * current; factor has any sign, clipped otherwise"""
    need = T / factor
    if lo <= need and need <= hi:
        cx.ensure_eq("exactly the demanded torque", t, T)
    else:
        cx.ensure_eq("the permitted current otherwise", cur, hi if need > hi else lo)


@contract("C29", cases=[(k,) for k in ("extex", "shunt")], targets=[OPS + FILE[k] + "OperationPointSelection._select_operating_point" for k in ("extex", "shunt")])
def dc_bounded(cx, kind):
    """no division by a vanishing excitation current: the selected current stays bounded by |T| / (l' 1e-4)"""
    env = StubEnv(cx, kind)
    ops = gc.stages.torque_to_current_function[MOTOR_ID[kind]]()
    tune_anew(cx, ops, env, eid(kind, "TC"), 0.2)
    T = cx.real("T", typ=(-5, 5))
    ie = cx.real("ie", typ=(-1, 1), special=[0.0, 1e-5, -1e-5])
    if kind == "shunt":
        cx.requires(abs(ie) <= env.lim["i_e"] * 0.8)
    x = state(cx, env, i_e=ie)
    r = ops(x, cx.array([T]))
    bound = abs(T) / env.mp["l_e_prime"] / 1e-4
    cx.ensure_between("bounded armature current", r[0], -bound - 1e-9, bound + 1e-9)
    if ie > 0:
        cx.ensure_le("torque in the demanded direction", 0, r[0] * T)
    if ie < 0:
        cx.ensure_le("torque in the demanded direction", r[0] * T, 0)


@contract("C29", targets=[OPS + "extex_dc_ttc.ExtExDcOperationPointSelection._select_operating_point"])
def extex_steady_state(cx):
    """once the excitation current has reached its reference, the pair of references realises the torque"""
    env = StubEnv(cx, "extex")
    ops = gc.stages.torque_to_current_function["ExtExDc"]()
    tune_anew(cx, ops, env, eid("extex", "TC"), 0.2)
    T = cx.real("T", typ=(-5, 5))
    r = ops(state(cx, env, "x0_"), cx.array([T]))
    cx.requires(r[1] >= 1e-4)
    r2 = ops(state(cx, env, "x1_", i_e=r[1]), cx.array([T]))
    cx.ensure_eq("excitation reference does not depend on the state", r2[1], r[1])
    cx.ensure_eq("torque in steady state", torque_of(cx, "extex", env, [r2[0], r2[1]]), T)


@contract("C29", cases=[(k, m) for k in ACK for m in (False, True)], targets=["gem_controllers.torque_controller.TorqueController." + f for f in ("control", "torque_control", "tune")])
def ac_permitted(cx, kind, with_margin):
    """whatever operating point is selected: the current vector given to the current controller is a permitted one"""
    cn = names_of(kind, "TC")
    env = StubEnv(cx, kind)
    m = cx.real("margin", lo=0, lt=1, typ=(0, 0.8)) if with_margin else None
    f = 1 - (0.2 if m is None else m)
    ops = HavocOps(cx, len(cn))
    c, cc = controller(cx, kind, env, m, ops)
    c.control(state(cx, env), cx.array([cx.real("T", typ=(-5, 5))]))
    got = cc.refs[0][1]
    v2 = sum((got[k] / env.lim[cn[k]]) * (got[k] / env.lim[cn[k]]) for k in range(2))
    cx.ensure_le("length of the stator current vector", v2, f * f, tol=1e-9)
    if kind == "eesm":
        cx.ensure_between("excitation current", got[2], -env.lim[cn[2]] * f, env.lim[cn[2]] * f)
    # the direction of the selected operating point is kept (same sign of the q current)
    cx.ensure_le("direction of the torque producing current", 0, got[1] * ops.out[1], tol=1e-9)


# ------------------------------------------------------------------ modulation controller of the field oriented selections
@contract("C29", cases=ACK, targets=[OPS + "foc_operation_point_selection.FieldOrientedControllerOperationPointSelection." + f for f in ("modulation_control", "tune", "reset")])
def modulation(cx, kind):
    """available flux: voltage-limited flux of the present speed plus a correction between psi_low and psi_high, from any integrator content"""
    from gem_controllers.stages.operation_point_selection.foc_operation_point_selection import FieldOrientedControllerOperationPointSelection as FOC

    env = StubEnv(cx, kind)
    o = FOC()
    tune_anew(cx, o, env, eid(kind, "TC"), 0.2)
    o.i_gain = cx.positive("i_gain", typ=(0.1, 10))
    o.k_ = cx.positive("k_mod", typ=(0.5, 1))
    o.psi_high = cx.positive("psi_high", typ=(0.1, 1))
    o.psi_low = -cx.positive("psi_low", typ=(0.1, 1))
    o.integrated_reset = 0.01 * o.psi_low
    o.integrated = cx.real("mem", typ=(-1, 1))
    o.limited = cx.bool("limited")
    x = state(cx, env)
    w = x[env.idx("omega")]
    cx.requires(abs(w) >= 0.001)
    psi = o.modulation_control(x)
    ua = env.lim["u_sa" if kind == "scim" else "u_a"]
    base = ua / (abs(w) * env.mp["p"])
    cx.ensure_between("available flux", psi, base + o.psi_low, base + o.psi_high)
    o.reset()
    cx.ensure_eq("reset of the integrator", o.integrated, o.integrated_reset)


# ------------------------------------------------------------------ look-up tables (bounded: concrete machines, sampled states and references)
_TUNED = {}


def tuned_selection(kind, how=None):
    """selection tuned for the default machine of the registered environment (once per process)"""
    if (kind, how) not in _TUNED:
        import gym_electric_motor as gem
        from gym_electric_motor.physical_system_wrappers import FluxObserver

        i = f"Cont-TC-{MOTOR_ID[kind]}-v0"
        env = gem.make(i, **(dict(physical_system_wrappers=(FluxObserver(),)) if kind == "scim" else {})).unwrapped
        ops = gc.stages.torque_to_current_function[MOTOR_ID[kind]](**({} if how is None else {"torque_control": how}))
        ops.tune(env, i, 0.2)
        ops.reset()
        _TUNED[kind, how] = env, ops
    return _TUNED[kind, how]


@contract("C29", cases=[(k, None) for k in ACK] + [("pmsm", "analytical"), ("synrm", "analytical"), ("pmsm", "interpolate"), ("synrm", "interpolate")], mode="bounded", samples=800, targets=[OPS + f for f in ("pmsm_ops.PMSMOperationPointSelection", "scim_ops.SCIMOperationPointSelection", "eesm_ops.EESMOperationPointSelection")])
def ac_operating_points(cx, kind, how):
    """default machines, margin 0.2: finite currents within the permitted current, torque in the demanded direction, a flux the
    available voltage admits; where the voltage does not limit the flux, the demanded torque up to the resolution of the tables"""
    if cx.symbolic:
        return
    env, ops = tuned_selection(kind, how)
    names, mo, mp = list(env.state_names), env.physical_system.electrical_motor, env.physical_system.electrical_motor.motor_parameter
    lim = dict(zip(names, env.limits))
    # the correction of the flux integrates with the inverse stator time constant (winding 25 % above the given resistance)
    l_st = mp["l_m"] + mp["l_sigs"] if kind == "scim" else mp["l_q"]
    cx.ensure_eq("gain of the flux correction", ops.i_gain, 1.25 * mp["r_s"] / l_st * (ops.alpha - 1) / ops.alpha**2)
    slow = cx.bool("slow")
    t = cx.real("T", -1.2, 1.2, typ=(-1.2, 1.2), special=[0.0, 1.0, -1.0])
    w, ud, uq = cx.real("w", -1, 1, typ=(-1, 1), special=[0.0]), cx.real("ud", -1, 1, typ=(-1, 1)), cx.real("uq", -1, 1, typ=(-1, 1))
    s = np.zeros(len(names))
    put = lambda n, v: s.__setitem__(names.index(n), v * lim[n])
    put("omega", 0.05 * w if slow else w)
    put("u_sd", 0.1 * ud if slow else ud)
    put("u_sq", 0.1 * uq if slow else uq)
    T = t * lim["torque"]
    if kind == "scim":
        psi = s[names.index("psi_abs")] = cx.real("psi", 0.05, 1, typ=(0.05, 1)) * ops.psi_max
    ops.reset()
    out = None
    available, law = [], type(ops).modulation_control
    ops.modulation_control = lambda st: (available.append(law(ops, st)), available[-1])[1]
    for _ in range(3):  # the modulation controller has memory
        out = np.array(ops(s.copy(), np.array([T])), dtype=float)
        cx.ensure("finite current references", bool(np.isfinite(out).all()))
    if kind != "scim" and available and available[-1] > 0:
        X = mp["l_m"] * out[2] if kind == "eesm" else (mp["psi_p"] if kind == "pmsm" else 0)
        flux = np.hypot(X + mp["l_d"] * out[0], mp["l_q"] * out[1])
        if how != "interpolate":
            cx.ensure_le("flux within the available flux", flux, available[-1] * 1.06 + 0.06 * (ops.psi_max if kind == "eesm" else 0) + 1e-9)
    f = 0.8
    cx.ensure_le("permitted stator current", np.hypot(out[0] / lim["i_sd"], out[1] / lim["i_sq"]), f, tol=1e-6)
    if kind == "eesm":
        cx.ensure_between("permitted excitation current", out[2], -f * lim["i_e"], f * lim["i_e"], tol=1e-6)
    if kind == "scim":
        l_r = mp["l_m"] + mp["l_sigr"]
        got = 1.5 * mp["p"] * mp["l_m"] / l_r * psi * out[1]
    else:
        got = float(mo.torque(np.append(out, 0.0)))
    cx.ensure_le("torque not against the demanded direction", -1e-9, got * T)
    if (kind, how) == ("pmsm", "interpolate"):  # the table mixes the branches of its grid: up to a quarter more
        cx.ensure_le("bounded torque", abs(got), abs(T) + 0.25 * lim["torque"])
        return
    cx.ensure_le("not more than the demanded torque", abs(got), abs(T) + 0.025 * lim["torque"])
    if kind == "scim":
        free = np.hypot(out[0], out[1]) < f * min(lim["i_sd"], lim["i_sq"]) * (1 - 1e-6) and abs(T) < 0.3 * lim["torque"] and slow
        if free:
            cx.ensure_between("the demanded torque", got - T, -0.025 * lim["torque"], 0.025 * lim["torque"])
    elif slow and abs(T) < 0.5 * lim["torque"]:
        cx.ensure_between("the demanded torque", got - T, -0.025 * lim["torque"], 0.025 * lim["torque"])
from . import foc  # noqa: E402,F401  laws of the field oriented selections
