"""C27 clipping and output stages of the control package."""
import numpy as np
from gymnasium.spaces import Box, Discrete, MultiDiscrete

import gem_controllers as gc
from gem_controllers.stages.clipping_stages import AbsoluteClippingStage, CombinedClippingStage, SquaredClippingStage

from vc.engine import contract

from .common import real_converter
from .gcstub import ACK, DCK, MOTOR_ID, HavocBase, HavocOps, RecordingCurrentController, StubEnv, tune_anew, n_cur, n_volt, state

CS = "gem_controllers.stages.clipping_stages."
names_of = lambda kind, task: {"CC": gc.parameter_reader.voltages[MOTOR_ID[kind]], "TC": gc.parameter_reader.currents[MOTOR_ID[kind]], "SC": ["torque"]}[task]
eid = lambda kind, task="CC", action="Cont": f"{action}-{task}-{MOTOR_ID[kind]}-v0"


def margin_of(cx, with_margin):
    return cx.real("margin", lo=0, lt=1, typ=(0, 0.8)) if with_margin else None


def tuned(cx, stage, env, kind, task, m):
    tune_anew(cx, stage, env, eid(kind, task), **({} if m is None else {"margin": m}))
    return stage


def clip_report(cx, stage, ref, out):
    for k in range(len(out)):
        cx.ensure_eq(f"reported difference {k}", stage.clipping_difference[k], ref[k] - out[k])


@contract("C27", cases=[(k, t, m, lo) for k in DCK for t in ("CC", "TC", "SC") for m in (False, True) for lo in (-1.0, 0.0)], targets=[CS + "absolute_clipping_stage.AbsoluteClippingStage.__call__", CS + "absolute_clipping_stage.AbsoluteClippingStage.tune", CS + "clipping_stage.ClippingStage.clipped"])
def absolute(cx, kind, task, with_margin, low):
    names = names_of(kind, task)
    env = StubEnv(cx, kind, low={n: low for n in names})
    m = margin_of(cx, with_margin)
    st = tuned(cx, AbsoluteClippingStage(task), env, kind, task, m)
    f = 1 - (m or 0)
    for rnd in range(2):  # a second call does not depend on the first one
        ref = cx.array([cx.real(f"ref{rnd}_{k}", typ=(-30, 30)) for k in range(len(names))])
        given = [v for v in ref]
        out = st(state(cx, env, f"x{rnd}_"), ref)
        for k, n in enumerate(names):
            hi = env.lim[n] * f
            cx.ensure_between(f"within the permitted range: {n}", out[k], low * hi, hi)
            inside = low * hi <= given[k] and given[k] <= hi
            if inside:
                cx.ensure_eq("admissible references are untouched", out[k], given[k])
                cx.ensure("not reported as clipped", not st.clipped[k])
            else:
                cx.ensure_eq("clipped to the nearest admissible value", out[k], hi if given[k] > hi else low * hi)
                cx.ensure("reported as clipped", st.clipped[k])
            cx.ensure_eq(f"reported difference {n}", st.clipping_difference[k], given[k] - out[k])
    st.reset()
    for k in range(len(names)):
        cx.ensure_eq("no difference is reported after a reset", st.clipping_difference[k], 0)


def vector_clip(cx, out, ref, lims, f, st, idx):
    """the components idx of out are ref scaled to the permitted relative length f"""
    r2 = sum((ref[k] / lims[k]) * (ref[k] / lims[k]) for k in idx)
    o2 = sum((out[k] / lims[k]) * (out[k] / lims[k]) for k in idx)
    cx.ensure_le("vector length within the permitted limit", o2, f * f, tol=1e-9)
    if r2 <= f * f:
        if r2 < f * f or cx.symbolic:
            for k in idx:
                cx.ensure_eq("admissible references are untouched", out[k], ref[k])
                cx.ensure_eq("no difference is reported for admissible references", st.clipping_difference[k], 0)
    else:
        # at the limit, in the direction of the reference
        cx.ensure_eq("clipped references use the whole permitted length", o2, f * f)
        i, j = idx[0], idx[1]
        cx.ensure_eq("the direction is kept", out[i] * ref[j], out[j] * ref[i])
        cx.ensure_le("the orientation is kept", 0, sum(out[k] * ref[k] for k in idx), tol=1e-9)
    for k in idx:
        cx.ensure_eq(f"reported difference {k}", st.clipping_difference[k], ref[k] - out[k])


@contract("C27", cases=[(k, t, m) for k in ("pmsm", "synrm", "scim") for t in ("CC", "TC") for m in (False, True)], targets=[CS + "squared_clipping_stage.SquaredClippingStage.__call__", CS + "squared_clipping_stage.SquaredClippingStage.tune"])
def squared(cx, kind, task, with_margin):
    names = names_of(kind, task)
    env = StubEnv(cx, kind)
    m = margin_of(cx, with_margin)
    st = tuned(cx, SquaredClippingStage(task), env, kind, task, m)
    ref = cx.array([cx.real(f"ref{k}", typ=(-30, 30)) for k in range(2)])
    given = [v for v in ref]
    out = st(state(cx, env), ref)
    vector_clip(cx, out, given, [env.lim[n] for n in names], 1 - (m or 0), st, [0, 1])
    st.reset()
    for k in range(2):
        cx.ensure_eq("no difference is reported after a reset", st.clipping_difference[k], 0)


@contract("C27", cases=[(t, m, lo) for t in ("CC", "TC") for m in (False, True) for lo in (-1.0, 0.0)], targets=[CS + "combined_clipping_stage.CombinedClippingStage.__call__", CS + "combined_clipping_stage.CombinedClippingStage.tune"])
def combined(cx, task, with_margin, low):
    kind = "eesm"
    names = names_of(kind, task)
    env = StubEnv(cx, kind, low={names[2]: low})
    m = margin_of(cx, with_margin)
    st = tuned(cx, CombinedClippingStage(task), env, kind, task, m)
    ref = cx.array([cx.real(f"ref{k}", typ=(-30, 30)) for k in range(3)])
    given = [v for v in ref]
    out = st(state(cx, env), ref)
    f = 1 - (m or 0)
    vector_clip(cx, out, given, [env.lim[n] for n in names], f, st, [0, 1])
    hi = env.lim[names[2]] * f
    cx.ensure_between("within the permitted range: excitation", out[2], low * hi, hi)
    if low * hi <= given[2] and given[2] <= hi:
        cx.ensure_eq("admissible excitation is untouched", out[2], given[2])
    cx.ensure_eq("reported difference excitation", st.clipping_difference[2], given[2] - out[2])
    st.reset()
    for k in range(3):
        cx.ensure_eq("no difference is reported after a reset", st.clipping_difference[k], 0)


# ------------------------------------------------------------------ cascades: what leaves a controller is permitted, whatever its parts return
PC = ["gem_controllers.pi_current_controller.PICurrentController." + f for f in ("__init__", "tune", "current_control", "control")]
OUT = ["gem_controllers.stages.cont_output_stage.ContOutputStage.__call__", "gem_controllers.stages.cont_output_stage.ContOutputStage.tune"]
CONT = {"1qc": "ContOneQuadrantConverter", "2qc": "ContTwoQuadrantConverter", "4qc": "ContFourQuadrantConverter"}


def cont_dc(cx, names):
    from gym_electric_motor.physical_systems import converters as cv

    with cx.unchecked():
        cs = [getattr(cv, CONT[n])() for n in names]
        return cs[0] if len(cs) == 1 else cv.ContMultiConverter(cs)


@contract("C27", cases=[(k, c) for k in ("perm", "series", "shunt") for c in CONT] + [("extex", c + "+" + d) for c in CONT for d in CONT], targets=PC + OUT, samples=30)
def dc_action(cx, kind, convs):
    """current controller and continuous output stage: a valid element of the converter's action space"""
    conv = cont_dc(cx, convs.split("+"))
    vn = names_of(kind, "CC")
    env = StubEnv(cx, kind, low={n: float(lo) for n, lo in zip(vn, np.atleast_1d(conv.voltages.low))}, converter=conv, action_space=conv.action_space)
    with cx.unchecked():
        c = gc.PICurrentController(env, eid(kind), base_current_controller="P", decoupling=False)
    tune_anew(cx, c, env, eid(kind))
    c.current_base_controller = HavocBase(cx, n_volt(kind), "CC")
    u = c.control(state(cx, env), cx.array([cx.real(f"ref{k}", typ=(-30, 30)) for k in range(n_cur(kind))]))
    o = gc.stages.ContOutputStage()
    tune_anew(cx, o, env, eid(kind))
    a = o(None, u)
    lo, hi = np.atleast_1d(conv.action_space.low), np.atleast_1d(conv.action_space.high)
    cx.ensure("one action per converter input", len(a) == len(lo))
    for k in range(len(lo)):
        cx.ensure_between(f"action {k} is an element of the action space", a[k], float(lo[k]), float(hi[k]), tol=1e-9)
        # not only valid, but the requested voltage
        cx.ensure_eq(f"action {k} requests the voltage reference", a[k] * env.lim[vn[k]], u[k])


@contract("C27", targets=[])
def square_bound(cx):
    """lemma used by ac_action: a component is not longer than the vector"""
    x, y = cx.real("x", typ=(-0.7, 0.7)), cx.real("y", typ=(-0.7, 0.7))
    cx.requires(x * x + y * y <= 1)
    cx.ensure_between("component", x, -1, 1)


@contract("C27", cases=ACK, targets=PC + OUT + ["gem_controllers.stages.abc_transformation.AbcTransformation.__call__"], samples=60)
def ac_action(cx, kind):
    """the transformed voltages of the three-phase machines: valid phase actions"""
    s = "s" if kind == "scim" else ""
    ph = [f"u_{s}{k}" for k in "abc"]
    env = StubEnv(cx, kind, same_limits=[["u_sd", "u_sq"] + ph] + ([["u_e", "u_sup"]] if kind == "eesm" else []))
    with cx.unchecked():
        c = gc.PICurrentController(env, eid(kind), base_current_controller="P", decoupling=False)
    tune_anew(cx, c, env, eid(kind))
    c.current_base_controller = HavocBase(cx, n_volt(kind), "CC")
    eps = cx.angle("eps")
    x = state(cx, env, **{"psi_angle" if kind == "scim" else "epsilon": eps})
    u = c.control(x, cx.array([cx.real(f"ref{k}", typ=(-30, 30)) for k in range(n_cur(kind))]))
    o = gc.stages.ContOutputStage()
    tune_anew(cx, o, env, eid(kind))
    a = o(None, u)
    cx.ensure("one action per converter input", len(a) == (4 if kind == "eesm" else 3))
    lim, v = env.lim["u_sd"], c.current_base_controller.out
    length = (v[0] / lim) * (v[0] / lim) + (v[1] / lim) * (v[1] / lim)
    permitted = length if length <= 1 else 1
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        # Clarke/Park keep the length of the space vector: a_k^2 + ((a_i - a_j)/sqrt 3)^2 == |u_dq|^2, with square_bound: |a_k| <= 1
        cx.ensure_eq(f"length of the space vector, phase {k}", a[k] * a[k] + (a[i] - a[j]) * (a[i] - a[j]) / 3, permitted)
        if not cx.symbolic:
            cx.ensure_between(f"phase action {k} is an element of the action space", a[k], -1, 1, tol=1e-9)
    if kind == "eesm":
        cx.ensure_between("excitation action", a[3], -1, 1, tol=1e-9)


@contract("C27", cases=[(k, m, lo) for k in DCK + ACK for m in (False, True) for lo in ((-1.0, 0.0) if k in DCK else (-1.0,))], targets=["gem_controllers.torque_controller.TorqueController." + f for f in ("__init__", "tune", "torque_control", "control")])
def torque_controller(cx, kind, with_margin, low):
    """whatever the operation point selection returns: the current controller receives a permitted current reference"""
    cn = names_of(kind, "TC")
    env = StubEnv(cx, kind, low={n: low for n in cn})
    m = margin_of(cx, with_margin)
    cc, ops = RecordingCurrentController(), HavocOps(cx, len(cn))
    with cx.unchecked():
        c = gc.TorqueController(env, eid(kind, "TC"), current_controller=cc, torque_to_current_stage=ops)
    tune_anew(cx, c, env, eid(kind, "TC"), **({} if m is None else {"current_safety_margin": m}))
    f = 1 - (m if m is not None else 0.2)
    x = state(cx, env)
    T = cx.array([cx.real("T", typ=(-30, 30))])
    r = c.control(x, T)
    cx.ensure("the voltage of the current controller is returned", isinstance(r, str) and r == "voltage")
    cx.ensure("one operating point per step, from the state and the torque reference", len(ops.calls) == 1 and ops.calls[0][0] is x and ops.calls[0][1] is T)
    cx.ensure("one current reference per step", len(cc.refs) == 1 and cc.refs[0][0] is x)
    got = cc.refs[0][1]
    for k in range(len(cn)):
        cx.ensure_eq("the reported current reference is the one used", c.current_reference[k], got[k])
    if kind in DCK or kind == "eesm":
        for k in range(len(cn)) if kind in DCK else [2]:
            cx.ensure_between(f"permitted current {cn[k]}", got[k], low * env.lim[cn[k]] * f, env.lim[cn[k]] * f)
            if low * env.lim[cn[k]] * f <= ops.out[k] and ops.out[k] <= env.lim[cn[k]] * f:
                cx.ensure_eq("permitted operating points are used unchanged", got[k], ops.out[k])
    if kind in ACK:
        sq = lambda v: sum((v[k] / env.lim[cn[k]]) * (v[k] / env.lim[cn[k]]) for k in range(2))
        cx.ensure_le("length of the current vector within the permitted current", sq(got), f * f, tol=1e-9)
        if sq(ops.out) < f * f:
            for k in range(2):
                cx.ensure_eq("permitted operating points are used unchanged", got[k], ops.out[k])


class _Torque(gc.TorqueController):
    """torque controller contract: records its reference"""

    def __init__(self):
        super().__init__(clipping_stage=None)
        self.refs = []

    t_n = property(lambda self: np.array([1e-3]))
    references = property(lambda self: dict())

    def tune(self, *a, **k):
        pass

    def control(self, state, reference):
        self.refs.append((state, reference))
        return "voltage"

    def reset(self):
        pass


@contract("C27", cases=[(k, lo) for k in ("perm", "pmsm") for lo in (-1.0, 0.0)], targets=["gem_controllers.pi_speed_controller.PISpeedController." + f for f in ("__init__", "tune", "speed_control", "control")])
def speed_controller(cx, kind, low):
    env = StubEnv(cx, kind, low={"torque": low})
    tc = _Torque()
    with cx.unchecked():
        c = gc.PISpeedController(env, eid(kind, "SC"), torque_controller=tc, base_speed_controller="P")
    tune_anew(cx, c, env, eid(kind, "SC"))
    base = HavocBase(cx, 1, "SC")
    c.speed_control_stage = base
    x, w = state(cx, env), cx.array([cx.real("w", typ=(-30, 30))])
    r = c.control(x, w)
    cx.ensure("the voltage of the inner controller is returned", isinstance(r, str) and r == "voltage")
    cx.ensure("one torque reference per step", len(tc.refs) == 1 and tc.refs[0][0] is x)
    L = env.lim["torque"]
    got = tc.refs[0][1][0]
    cx.ensure_between("permitted torque", got, low * L, L)
    if low * L <= base.out[0] and base.out[0] <= L:
        cx.ensure_eq("permitted torque references are used unchanged", got, base.out[0])
    cx.ensure_eq("the reported torque reference is the one used", c.torque_reference[0], got)


# ------------------------------------------------------------------ discrete output stage
FIN = {"1qc": ("FiniteOneQuadrantConverter", 0.0), "2qc": ("FiniteTwoQuadrantConverter", 0.0), "4qc": ("FiniteFourQuadrantConverter", -1.0)}


def fin_dc(cx, names):
    from gym_electric_motor.physical_systems import converters as cv

    with cx.unchecked():
        cs = [getattr(cv, FIN[n][0])(tau=1e-3) for n in names]
        return cs[0] if len(cs) == 1 else cv.FiniteMultiConverter(cs, tau=1e-3)


@contract("C27", cases=[(k, c) for k in ("perm", "series", "shunt") for c in FIN] + [("extex", c + "+" + d) for c in FIN for d in FIN], targets=["gem_controllers.stages.disc_output_stage.DiscOutputStage." + f for f in ("__call__", "to_action", "to_discrete", "to_multi_discrete", "tune", "_get_actions")], samples=30)
def discrete_action(cx, kind, convs):
    """a valid action of the converter; large references switch to the voltage in their direction"""
    conv = fin_dc(cx, convs.split("+"))
    cn = convs.split("+")
    vn = names_of(kind, "CC")
    low = {n: FIN[c][1] for n, c in zip(vn, cn)}
    env = StubEnv(cx, kind, low=low, converter=conv, action_space=conv.action_space)
    o = gc.stages.DiscOutputStage()
    tune_anew(cx, o, env, eid(kind, action="Finite"))
    ref = cx.array([cx.real(f"ref{k}", typ=(-30, 30)) for k in range(len(vn))])
    for k, n in enumerate(vn):
        cx.requires(ref[k] >= low[n] * env.lim[n])
        cx.requires(ref[k] <= env.lim[n])
    a = o(None, ref)
    al = [a] if len(vn) == 1 else list(a)
    cx.ensure("one action per converter", len(al) == len(vn))
    for k, n in enumerate(vn):
        act, lim = al[k], env.lim[n]
        count = {"1qc": 2, "2qc": 3, "4qc": 4}[cn[k]]
        cx.ensure("element of the action space", act >= 0 and act <= count - 1 and act == int(act))
        act = int(act)
        # the ideal converter voltage the action stands for (c06), current flowing in the respective direction
        volt = {"1qc": {0: 0, 1: 1}, "2qc": {0: None, 1: 1, 2: 0}, "4qc": {0: 0, 1: 1, 2: -1, 3: 0}}[cn[k]][act]
        if ref[k] == lim:
            cx.ensure("the highest reference switches to the highest voltage", volt == 1)
        if ref[k] == low[n] * lim and low[n] < 0:
            cx.ensure("the lowest reference switches to the lowest voltage", volt == -1)
        if ref[k] == 0:
            cx.ensure("no voltage for a zero reference", volt != 1 and volt != -1)
        if ref[k] > 0:
            cx.ensure("never a voltage against the reference (positive)", volt != -1)
        if ref[k] < 0:
            cx.ensure("never a voltage against the reference (negative)", volt != 1)
