"""C28 control laws of the control package (base controllers, anti-windup, feed-forward, input stage, transformation, tuning)."""
import numpy as np

import gem_controllers as gc
from gem_controllers.stages import base_controllers as bc

from vc.engine import contract

from .c27 import RecordingCurrentController, _Torque, cont_dc, eid, names_of
from .common import NSTATE
from .gcstub import ACK, DCK, MOTOR_ID, HavocBase, HavocOps, StubEnv, tune_anew, earlier, n_cur, n_volt, state

BC = "gem_controllers.stages.base_controllers."
CLS = {"P": bc.PController, "I": bc.IController, "PI": bc.PIController, "PID": bc.PIDController}
MOD = {"P": "p_controller", "I": "i_controller", "PI": "pi_controller", "PID": "pid_controller", "ThreePoint": "three_point_controller"}


def reals(cx, prefix, n, typ=(-20, 20)):
    return cx.array([cx.real(f"{prefix}{k}", typ=typ) for k in range(n)])


def manual(cx, which, n, idx):
    """a base controller with arbitrary gains and arbitrary memory; returns it with its gains and integrator"""
    c = CLS[which]("CC")
    c.state_indices = idx
    g = {}
    if "P" in which:
        g["p"] = reals(cx, "p", n, (-3, 3))
        c.p_gain = g["p"]
    if "I" in which:
        g["i"] = cx.array([cx.nonneg(f"i{k}", typ=(0, 3)) for k in range(n)])
        c.i_gain = g["i"]
        c.tau = cx.positive("tau", typ=(1e-3, 0.1))
        g["tau"] = c.tau
    if "D" in which:
        g["d"] = reals(cx, "d", n, (-3, 3))
        c.d_gain = g["d"]
    return c, g


IDX = {1: [2], 2: [3, 1], 3: [0, 3, 2]}


@contract("C28", cases=[(w, n) for w in CLS for n in (1, 2, 3)], targets=[BC + f"{MOD[w]}.{w}Controller.control" for w in CLS] + [BC + "pid_controller.PIDController.reset", BC + "i_controller.IController.reset"])
def law(cx, which, n):
    """one step from arbitrary memory (integrator content, last control error)"""
    idx = IDX[n]
    c, g = manual(cx, which, n, idx)
    if which != "P":
        c.reset()
    last = [0] * n
    if which == "PID":  # an arbitrary last error: the previous step had an arbitrary state and reference
        x0, r0 = reals(cx, "x0_", 4), reals(cx, "r0_", n)
        c(x0, r0)
        last = [r0[k] - x0[idx[k]] for k in range(n)]
    if "I" in which:
        mem = reals(cx, "m", n)
        c.integrator = mem
    x, r = reals(cx, "x", 4), reals(cx, "r", n)
    xs, rs = [v for v in x], [v for v in r]
    out = c(x, r)
    cx.ensure("one output per controlled state", len(out) == n)
    for k in range(n):
        e = rs[k] - xs[idx[k]]
        want = 0
        if "P" in which:
            want = want + g["p"][k] * e
        if "I" in which:
            want = want + g["i"][k] * mem[k]
            cx.ensure_eq(f"the control law does not integrate {k}", c.integrator[k], mem[k])
        if "D" in which:
            want = want + g["d"][k] * (e - last[k]) / g["tau"]
        cx.ensure_eq(f"control law {k}", out[k], want)
    cx.ensure_eqs("the state is not modified", [v for v in x], xs)
    cx.ensure_eqs("the reference is not modified", [v for v in r], rs)
    if which != "P":
        c.reset()
        out = c(x, r)
        for k in range(n):
            e = rs[k] - xs[idx[k]]
            want = (g["p"][k] * e if "P" in which else 0) + (g["d"][k] * e / g["tau"] if "D" in which else 0)
            cx.ensure_eq(f"control law after a reset {k}", out[k], want)


@contract("C28", cases=[(w, n) for w in ("I", "PI", "PID") for n in (1, 2)], targets=[BC + "i_controller.IController.integrate"])
def integrate(cx, which, n):
    idx = IDX[n]
    c, g = manual(cx, which, n, idx)
    c.reset()
    mem = reals(cx, "m", n)
    c.integrator = mem
    ms = [v for v in mem]
    s, r = reals(cx, "s", n), reals(cx, "r", n)
    c.integrate(s, r)
    for k in range(n):
        cx.ensure_eq(f"step size times control error {k}", c.integrator[k] - ms[k], g["tau"] * (r[k] - s[k]))


@contract("C28", cases=[1, 2, 3], targets=[BC + "i_controller.IController.i_gain"])
def gain_not_negative(cx, n):
    c = bc.IController("CC")
    g = reals(cx, "g", n, (-2, 2))
    gs = [v for v in g]
    c.i_gain = g
    for k in range(n):
        cx.ensure_eq(f"gain {k}", c.i_gain[k], gs[k] if gs[k] > 0 else 0)


@contract("C28", cases=[1, 2, 3], targets=[BC + "three_point_controller.ThreePointController.__call__"])
def three_point(cx, n):
    c = bc.ThreePointController("CC")
    idx = IDX[n]
    c.referenced_state_indices = idx
    c.hysteresis = h = cx.array([cx.nonneg(f"h{k}", typ=(0, 5)) for k in range(n)])
    c.high_action, c.low_action, c.idle_action = reals(cx, "hi", n), reals(cx, "lo", n), reals(cx, "idle", n)
    x, r = reals(cx, "x", 4), reals(cx, "r", n)
    out = c(x, r)
    for k in range(n):
        s = x[idx[k]]
        if s < r[k] - h[k]:
            cx.ensure_eq(f"below the band {k}", out[k], c.high_action[k])
        elif s > r[k] + h[k]:
            cx.ensure_eq(f"above the band {k}", out[k], c.low_action[k])
        else:
            cx.ensure_eq(f"within the band {k}", out[k], c.idle_action[k])


@contract("C28", cases=[(k, t) for k in DCK + ACK for t in ("CC", "SC", "TC")], targets=["gem_controllers.stages.anti_windup.AntiWindup.__call__", "gem_controllers.stages.anti_windup.AntiWindup.tune"])
def anti_windup(cx, kind, task):
    names = {"CC": gc.parameter_reader.currents[MOTOR_ID[kind]], "SC": ["omega"], "TC": ["torque"]}[task]
    env = StubEnv(cx, kind)
    a = gc.stages.AntiWindup(task)
    tune_anew(cx, a, env, eid(kind, task))
    n = len(names)
    x, r = state(cx, env), reals(cx, "r", n)
    d = cx.array([cx.real(f"d{k}", typ=(-2, 2), special=[0.0]) for k in range(n)])
    out = a(x, r, d)
    for k, nm in enumerate(names):
        if d[k] == 0:
            cx.ensure_eq(f"not clipped: step size times control error {nm}", out[k], env.physical_system.tau * (r[k] - x[env.idx(nm)]))
        else:
            cx.ensure_eq(f"clipped: frozen {nm}", out[k], 0)


# ------------------------------------------------------------------ cascade: integrators of the current and the speed controller
PIC = "gem_controllers.pi_current_controller.PICurrentController."
PIS = "gem_controllers.pi_speed_controller.PISpeedController."


def current_controller(cx, kind, base, low, decoupling=True, task="CC", tune=True, env=None, **kw):
    vn = names_of(kind, "CC")
    if env is None:
        env = StubEnv(cx, kind, low={n: low for n in vn} if kind in DCK else {}, **kw)
    with cx.unchecked():
        c = gc.PICurrentController(env, eid(kind, task), base_current_controller=base, decoupling=decoupling)
    if tune:
        tune_anew(cx, c, env, eid(kind, task))
        c.reset()
    return env, c


def base_law(cx, c, env, kind, mem, x, r, last, tau):
    """PI(D) voltage before feed-forward, from the (separately verified) tuned gains"""
    cn = gc.parameter_reader.currents[MOTOR_ID[kind]]
    b = c.current_base_controller
    out = []
    for k, nm in enumerate(cn):
        e = r[k] - x[env.idx(nm)]
        u = b.p_gain[k] * e + b.i_gain[k] * mem[k]
        if hasattr(b, "d_gain"):
            u = u + b.d_gain[k] * (e - last[k]) / tau
        out.append(u)
    return out


@contract("C28", cases=[(k, b, lo) for k in DCK for b in ("PI", "PID") for lo in (-1.0, 0.0)], targets=[PIC + "current_control", PIC + "control", PIC + "tune", PIC + "reset"])
def dc_current_control(cx, kind, base, low):
    """the voltage, and the integrators, of one control step from arbitrary memory"""
    env, c = current_controller(cx, kind, base, low)
    n, vn, cn = n_cur(kind), names_of(kind, "CC"), gc.parameter_reader.currents[MOTOR_ID[kind]]
    mem = reals(cx, "m", n)
    ms = [v for v in mem]
    c.current_base_controller.integrator = mem
    x, r = state(cx, env), reals(cx, "r", n)
    tau = env.physical_system.tau
    raw = base_law(cx, c, env, kind, ms, x, r, [0] * n, tau)
    with_ff = c.emf_feedforward(x, cx.array(raw))
    out = c.control(x, r)
    for k in range(n):
        hi = env.lim[vn[k]]
        e = r[k] - x[env.idx(cn[k])]
        if low * hi <= with_ff[k] and with_ff[k] <= hi:
            cx.ensure_eq(f"voltage {vn[k]}", out[k], with_ff[k])
            cx.ensure_eq(f"not clipped: integrator {k} changes by step size times control error", c.current_base_controller.integrator[k], ms[k] + tau * e)
        else:
            cx.ensure_eq(f"voltage {vn[k]} at its limit", out[k], hi if with_ff[k] > hi else low * hi)
            cx.ensure_eq(f"clipped: integrator {k} is frozen", c.current_base_controller.integrator[k], ms[k])


@contract("C28", cases=[(k, b) for k in ACK for b in ("PI", "PID")], targets=[PIC + "current_control", PIC + "control", PIC + "tune", PIC + "reset"], samples=60)
def ac_current_control(cx, kind, base):
    env, c = current_controller(cx, kind, base, -1.0)
    n, vn, cn = n_cur(kind), names_of(kind, "CC"), gc.parameter_reader.currents[MOTOR_ID[kind]]
    mem = reals(cx, "m", n)
    ms = [v for v in mem]
    c.current_base_controller.integrator = mem
    eps = cx.angle("eps")
    x = state(cx, env, **{"psi_angle" if kind == "scim" else "epsilon": eps}, **({"psi_abs": cx.real("psi_abs", gt=2e-4, typ=(0.01, 2))} if kind == "scim" else {}))
    r = reals(cx, "r", n)
    tau = env.physical_system.tau
    raw = base_law(cx, c, env, kind, ms, x, r, [0] * n, tau)
    v = c.emf_feedforward(x, cx.array(raw))
    if cx.symbolic:
        # any voltage: the base controller and the feed-forward have their own contracts
        v = reals(cx, "v", n)
        c.current_base_controller.control = lambda *a: None
        c.emf_feedforward = HavocFF(v)
    out = c.control(x, r)
    r2 = sum((v[k] / env.lim[vn[k]]) * (v[k] / env.lim[vn[k]]) for k in range(2))
    for k in range(n):
        e = r[k] - x[env.idx(cn[k])]
        integ = c.current_base_controller.integrator[k]
        if k < 2:
            if r2 <= 1:
                cx.ensure_eq(f"not clipped: integrator {k} changes by step size times control error", integ, ms[k] + tau * e)
            elif v[k] != 0:
                cx.ensure_eq(f"clipped: integrator {k} is frozen", integ, ms[k])
        else:
            hi = env.lim[vn[k]]
            if -hi <= v[k] and v[k] <= hi:
                cx.ensure_eq("not clipped: integrator of the excitation changes by step size times control error", integ, ms[k] + tau * e)
            else:
                cx.ensure_eq("clipped: integrator of the excitation is frozen", integ, ms[k])


class HavocFF(gc.stages.EMFFeedforward):
    """feed-forward contract: any voltage"""

    def __init__(self, out):
        super().__init__()
        self.out = out

    def __call__(self, state, reference):
        return self.out


@contract("C28", cases=[(k, b, d) for k in DCK + ACK for b in ("P", "PI", "PID", "ThreePoint") for d in (True, False) if not (b == "ThreePoint" and (d or k == "eesm"))], targets=[PIC + "reset", PIC + "stages", PIC + "control"], samples=20)
def current_controller_reset(cx, kind, base, decoupling):
    """after a reset a controller behaves as a new one, whatever happened before; also without decoupling stage"""
    env, c = current_controller(cx, kind, base, -1.0, decoupling)
    _, fresh = current_controller(cx, kind, base, -1.0, decoupling, env=env)
    n = n_cur(kind)
    if base in ("PI", "PID"):
        c.current_base_controller.integrator = reals(cx, "m", n)
    ang = "psi_angle" if kind == "scim" else "epsilon"
    given = lambda k: ({ang: cx.angle(f"eps{k}")} if kind in ACK else {})
    x0, r0 = state(cx, env, "x0_", **given(0)), reals(cx, "r0_", n)
    c.current_base_controller(x0, r0)
    c.reset()
    x, r = state(cx, env, "x_", **given(1)), reals(cx, "r", n)
    ra, rb = c.current_base_controller(x, r), fresh.current_base_controller(x, r)
    cx.ensure_eqs("voltage of the base controller after a reset as for a new controller", [v for v in ra], [v for v in rb])
    if base in ("PI", "PID"):
        cx.ensure_eqs("empty integrators after a reset", [v for v in c.current_base_controller.integrator], [0] * n)
    if kind in DCK and base != "ThreePoint":
        c.reset()
        fresh.reset()
        for i in range(2):
            x, r = state(cx, env, f"y{i}_"), reals(cx, f"q{i}", n)
            if i == 0:
                cx.ensure_eqs("voltage after a reset as for a new controller", [v for v in c.control(x, r)], [v for v in fresh.control(x, r)])


@contract("C28", cases=[(b, lo) for b in ("PI", "PID", "P", "ThreePoint") for lo in (-1.0, 0.0)], targets=[PIS + "speed_control", PIS + "control", PIS + "tune", PIS + "reset"])
def speed_control(cx, base, low):
    kind = "perm"
    env = StubEnv(cx, kind, low={"torque": low})
    tc = _Torque()
    with cx.unchecked():
        c = gc.PISpeedController(env, eid(kind, "SC"), torque_controller=tc, base_speed_controller=base)
    tune_anew(cx, c, env, eid(kind, "SC"))
    c.reset()
    b = c.speed_control_stage
    tau, hi = env.physical_system.tau, env.lim["torque"]
    x, r = state(cx, env), reals(cx, "r", 1)
    e = r[0] - x[env.idx("omega")]
    if base == "ThreePoint":
        h = b.hysteresis[0]
        cx.ensure_le("hysteresis", 0, h)
        want = hi if x[env.idx("omega")] + h < r[0] else (low * hi if x[env.idx("omega")] - h > r[0] else 0)
    else:
        want = b.p_gain[0] * e
        if base != "P":
            mem = reals(cx, "m", 1)
            m0 = mem[0]
            b.integrator = mem
            want = want + b.i_gain[0] * m0
        if base == "PID":
            want = want + b.d_gain[0] * e / tau
    out = c.control(x, r)
    cx.ensure("the voltage of the inner controller is returned", isinstance(out, str) and out == "voltage")
    T = tc.refs[0][1][0]
    if low * hi <= want and want <= hi:
        cx.ensure_eq("torque reference", T, want)
        if base in ("PI", "PID"):
            cx.ensure_eq("not clipped: the integrator changes by step size times control error", b.integrator[0], m0 + tau * e)
    else:
        cx.ensure_eq("torque reference at its limit", T, hi if want > hi else low * hi)
        if base in ("PI", "PID"):
            cx.ensure_eq("clipped: the integrator is frozen", b.integrator[0], m0)
    if base in ("PI", "PID"):
        c.reset()
        cx.ensure_eq("empty integrator after a reset", b.integrator[0], 0)
        c.control(x, r)
        want = b.p_gain[0] * e + (b.d_gain[0] * e / tau if base == "PID" else 0)
        if low * hi <= want and want <= hi:
            cx.ensure_eq("torque reference after a reset", tc.refs[1][1][0], want)


# ------------------------------------------------------------------ input stage and adapter
@contract("C28", cases=[(k, r) for k in DCK + ACK for r in (("omega",), ("torque", "omega"), ("omega", "torque"))], targets=["gem_controllers.stages.input_stage.InputStage.__call__", "gem_controllers.stages.input_stage.InputStage.tune"])
def input_stage(cx, kind, refs):
    env = StubEnv(cx, kind, references=list(refs))
    s = gc.stages.InputStage()
    tune_anew(cx, s, env, eid(kind))
    x, r = state(cx, env, typ=(-1, 1)), reals(cx, "r", len(refs), (-1, 1))
    xs = [v for v in x]
    out = s(x, r)
    for k, n in enumerate(env.state_names):
        cx.ensure_eq(f"physical state {n}", x[k], xs[k] * env.lim[n])
    for k, n in enumerate(refs):
        cx.ensure_eq(f"physical reference {n}", out[k], r[k] * env.lim[n])


class _Inner(gc.GemController):
    def __init__(self, out):
        super().__init__()
        self.out, self.calls, self.resets = out, [], 0

    references = property(lambda self: dict())
    referenced_states = property(lambda self: np.array([]))
    maximum_reference = property(lambda self: dict())
    should_plot = False

    def control(self, state, reference):
        self.calls.append(([v for v in state], [v for v in reference]))
        state[0] = 0 * state[0]  # a controller may overwrite its own copy
        reference[0] = 0 * reference[0]
        return self.out

    def reset(self):
        self.resets += 1


@contract("C28", cases=DCK + ACK, targets=["gem_controllers.gem_adapter.GymElectricMotorAdapter." + f for f in ("control", "tune", "reset")])
def adapter(cx, kind):
    ac = kind in ACK
    env = StubEnv(cx, kind, references=["omega", "torque"], action_space=None)
    n = len(gc.parameter_reader.get_output_voltages(MOTOR_ID[kind], "Cont"))
    u = reals(cx, "v", n)
    inner = _Inner(u)
    with cx.unchecked():
        g = gc.GymElectricMotorAdapter(env, eid(kind), inner)
    g.should_plot = False
    tune_anew(cx, g, env, eid(kind))
    for rnd in range(2):  # the conversion does not accumulate from step to step
        x, r = state(cx, env, f"x{rnd}_", typ=(-1, 1)), reals(cx, f"r{rnd}_", 2, (-1, 1))
        xs, rs = [v for v in x], [v for v in r]
        a = g.control(x, r)
        cx.ensure_eqs("observation of the caller untouched", [v for v in x], xs)
        cx.ensure_eqs("reference of the caller untouched", [v for v in r], rs)
        cx.ensure("one control step per action", len(inner.calls) == rnd + 1)
        gs, gr = inner.calls[rnd]
        for k, nm in enumerate(env.state_names):
            cx.ensure_eq(f"physical state {nm}", gs[k], xs[k] * env.lim[nm])
        cx.ensure_eq("physical reference omega", gr[0], rs[0] * env.lim["omega"])
        cx.ensure_eq("physical reference torque", gr[1], rs[1] * env.lim["torque"])
        names = gc.parameter_reader.get_output_voltages(MOTOR_ID[kind], "Cont")
        for k, nm in enumerate(names):
            cx.ensure_eq(f"normalised action {nm}", a[k] * env.lim[nm], u[k])
    g.reset()
    cx.ensure("the controller is reset", inner.resets == 1)


# ------------------------------------------------------------------ feed-forward: linear, decoupled current dynamics in the real motor model
FF = "gem_controllers.stages.emf_feedforward"


@contract("C28", cases=["perm", "series", "shunt", "extex", "pmsm", "synrm"], targets=[FF + ".EMFFeedforward.__call__", FF + ".EMFFeedforward.tune", "gem_controllers.parameter_reader"])
def feedforward(cx, kind):
    """with the compensated voltage the real electrical ODE reduces to L di/dt = u_ref - R i"""
    env = StubEnv(cx, kind)
    mp, mo = env.mp, env.physical_system.electrical_motor
    f = gc.stages.EMFFeedforward()
    f.tune(earlier(cx, kind), eid(kind))  # an earlier tuning to another environment leaves nothing behind
    f.tune(env, eid(kind))
    x = state(cx, env)
    v = reals(cx, "v", n_volt(kind))
    cn = {"perm": ["i"], "series": ["i"], "shunt": ["i_a", "i_e"], "extex": ["i_a", "i_e"], "pmsm": ["i_sd", "i_sq"], "synrm": ["i_sd", "i_sq"]}[kind]
    i = [x[env.idx(n)] for n in cn]
    w = x[env.idx("omega")]
    u = f(x, v)
    ms = cx.array(i + ([cx.real("eps", typ=(-3, 3))] if kind in ACK else []))
    d = mo.electrical_ode(ms, u, w)
    L = {"perm": ["l_a"], "series": [("l_a", "l_e")], "shunt": ["l_a"], "extex": ["l_a", "l_e"], "pmsm": ["l_d", "l_q"], "synrm": ["l_d", "l_q"]}[kind]
    R = {"perm": ["r_a"], "series": [("r_a", "r_e")], "shunt": ["r_a"], "extex": ["r_a", "r_e"], "pmsm": ["r_s", "r_s"], "synrm": ["r_s", "r_s"]}[kind]
    val = lambda n: mp[n] if isinstance(n, str) else mp[n[0]] + mp[n[1]]
    for k in range(len(L)):
        cx.ensure_eq(f"decoupled dynamics of {cn[k]}", d[k] * val(L[k]), v[k] - val(R[k]) * i[k])


@contract("C28", cases=["flux", "no flux"], targets=[FF + "_ind.EMFFeedforwardInd.__call__", FF + "_ind.EMFFeedforwardInd.tune", "gem_controllers.parameter_reader"], samples=60)
def feedforward_scim(cx, flux):
    """rotor flux frame: sigma l_s d i/dt = u_ref - (r_s + r_r l_m^2/l_r^2) i for both components, at any flux angle
    (without flux: in the frame rotating with the rotor)"""
    env = StubEnv(cx, "scim")
    mp, mo = env.mp, env.physical_system.electrical_motor
    f = gc.stages.EMFFeedforwardInd()
    f.tune(earlier(cx, "scim"), eid("scim"))
    f.tune(env, eid("scim"))
    psi = cx.real("psi", gt=1e-4, typ=(0.01, 2)) if flux == "flux" else 0.0
    x = state(cx, env, psi_abs=psi)
    v = reals(cx, "v", 2)
    i_d, i_q, w = (x[env.idx(n)] for n in ("i_sd", "i_sq", "omega"))
    ud, uq = f(x, v)
    phi = cx.angle("phi")
    c, s = np.cos(phi), np.sin(phi)
    rot = lambda d, q: (c * d - s * q, s * d + c * q)
    ia, ib = rot(i_d, i_q)
    ua, ub = rot(ud, uq)
    D = mo.electrical_ode(cx.array([ia, ib, c * psi, s * psi, cx.real("eps", typ=(-3, 3))]), cx.array([ua, ub]), w)
    inv = lambda a, b: (c * a + s * b, -s * a + c * b)
    dpd, dpq = inv(D[2], D[3])
    ws = dpq / psi if flux == "flux" else w * mp["p"]  # speed of the rotor flux
    did, diq = inv(D[0], D[1])
    did, diq = did + ws * i_q, diq - ws * i_d  # currents as seen from the rotating frame
    l_m, l_r = mp["l_m"], mp["l_m"] + mp["l_sigr"]
    lsig = ((mp["l_m"] + mp["l_sigs"]) * l_r - l_m * l_m) / l_r
    req = mp["r_s"] + mp["r_r"] * l_m * l_m / (l_r * l_r)
    cx.ensure_eq("decoupled dynamics of i_sd", did * lsig, v[0] - req * i_d)
    cx.ensure_eq("decoupled dynamics of i_sq", diq * lsig, v[1] - req * i_q)


@contract("C28", targets=[FF + "_eesm.EMFFeedforwardEESM.__call__", FF + "_eesm.EMFFeedforwardEESM.tune"])
def feedforward_eesm(cx):
    env = StubEnv(cx, "eesm")
    mp, mo = env.mp, env.physical_system.electrical_motor
    f = gc.stages.EMFFeedforwardEESM()
    f.tune(earlier(cx, "eesm"), eid("eesm"))
    f.tune(env, eid("eesm"))
    for rnd in range(2):
        x = state(cx, env, f"x{rnd}_")
        v = reals(cx, f"v{rnd}_", 3)
        i_d, i_q, i_e, w = (x[env.idx(n)] for n in ("i_sd", "i_sq", "i_e", "omega"))
        u = f(x, v)
        d = mo.electrical_ode(cx.array([i_d, i_q, i_e, cx.real(f"eps{rnd}", typ=(-3, 3))]), u, w)
        cx.ensure_eq("decoupled dynamics of i_sq", d[1] * mp["l_q"], v[1] - mp["r_s"] * i_q)
        # d axis and excitation: the implemented (approximate) mutual compensation
        we = w * mp["p"]
        a0 = v[0] - we * mp["l_q"] * i_q - mp["l_m"] * mp["r_e"] / mp["l_e"] * i_e
        a2 = v[2] + we * mp["l_m"] * mp["l_q"] / mp["l_d"] * i_q - mp["l_m"] * mp["r_s"] / mp["l_d"] * i_d
        cx.ensure_eq("compensated d voltage", u[0], a0 + mp["l_m"] / mp["l_e"] * a2)
        cx.ensure_eq("compensated excitation voltage", u[2], a2 + mp["l_m"] / mp["l_d"] * a0)


# ------------------------------------------------------------------ coordinate transformation at the output
@contract("C28", cases=[(k, dt) for k in ACK for dt in (None, 0, 1, 2, 5)], targets=["gem_controllers.stages.abc_transformation.AbcTransformation." + f for f in ("__call__", "_angle_advance", "tune")])
def abc_transformation(cx, kind, dead_time):
    """the phase voltages are the dq reference at the angle the rotor (flux) has in the middle of the interval the action is applied in"""
    env = StubEnv(cx, kind, dead_time=dead_time)
    t = gc.stages.AbcTransformation()
    t.tune(earlier(cx, kind, dead_time=3), eid(kind))
    t.tune(env, eid(kind))
    eps = cx.angle("eps")
    x = state(cx, env, **{"psi_angle" if kind == "scim" else "epsilon": eps})
    v = reals(cx, "v", n_volt(kind))
    vs = [w for w in v]
    out = t(x, v)
    mo = env.physical_system.electrical_motor
    adv = eps + (0.5 + (dead_time or 0)) * env.physical_system.tau * env.mp["p"] * x[env.idx("omega")]
    c, s = np.cos(adv), np.sin(adv)
    al = 2 / 3 * (out[0] - (out[1] + out[2]) / 2)
    be = (out[1] - out[2]) / np.sqrt(3)
    cx.ensure_eq("no zero sequence voltage", out[0] + out[1] + out[2], 0)
    cx.ensure_eq("direct component", c * al + s * be, vs[0])
    cx.ensure_eq("quadrature component", c * be - s * al, vs[1])
    if kind == "eesm":
        cx.ensure_eq("excitation voltage is passed through", out[3], vs[2])


# ------------------------------------------------------------------ tuning (symmetrical optimum)
@contract("C28", cases=[(k, b, d) for k in DCK + ACK for b in ("P", "PI", "PID") for d in (True, False)], targets=[BC + "p_controller.PController._tune_current_controller", BC + "pi_controller.PIController._tune_current_controller", BC + "pid_controller.PIDController._tune_current_controller", "gem_controllers.parameter_reader"])
def tuning_current(cx, kind, base, default_a):
    env, c = current_controller(cx, kind, base, -1.0, tune=False)
    a = 4 if default_a else cx.real("a", gt=1, typ=(1.5, 8))
    tune_anew(cx, c, env, eid(kind), **({} if default_a else {"a": a}))
    b, mp, tau = c.current_base_controller, env.mp, env.physical_system.tau
    lr = lambda: (mp["l_sigr"] + mp["l_m"]) / mp["r_r"]
    L = {"perm": lambda: [mp["l_a"]], "series": lambda: [mp["l_a"] + mp["l_e"]], "shunt": lambda: [mp["l_a"]], "extex": lambda: [mp["l_a"], mp["l_e"]],
         "pmsm": lambda: [mp["l_d"], mp["l_q"]], "synrm": lambda: [mp["l_d"], mp["l_q"]], "eesm": lambda: [mp["l_d"], mp["l_q"], mp["l_e"]], "scim": lambda: [lr(), lr()]}[kind]()
    for k in range(len(L)):
        cx.ensure_eq(f"p gain {k}", b.p_gain[k] * tau * a, L[k])
        if base != "P":
            cx.ensure_eq(f"i gain {k}", b.i_gain[k] * tau * a * a, b.p_gain[k])
            cx.ensure_eq(f"time constant {k}", c.t_n[k], tau * a * a)
        if base == "PID":
            cx.ensure_eq(f"d gain {k}", b.d_gain[k], b.p_gain[k] * tau)
    if base != "P":
        cx.ensure_eq("step size", b.tau, tau)


@contract("C28", cases=["P", "PI", "PID"], targets=[PIS + "tune", BC + "p_controller.PController._tune_speed_controller", BC + "pi_controller.PIController._tune_speed_controller", BC + "pid_controller.PIDController._tune_speed_controller"])
def tuning_speed(cx, base):
    env = StubEnv(cx, "perm")
    t1, t2 = cx.positive("t1", typ=(1e-4, 1e-2)), cx.positive("t2", typ=(1e-4, 1e-2))

    class T(_Torque):
        t_n = property(lambda self: cx.array([t1, t2]))

    with cx.unchecked():
        c = gc.PISpeedController(env, eid("perm", "SC"), torque_controller=T(), base_speed_controller=base)
    a = cx.real("a", gt=1, typ=(1.5, 8))
    tune_anew(cx, c, env, eid("perm", "SC"), a=a)
    t_n = t1 if t1 < t2 else t2
    b, j, tau = c.speed_control_stage, env.physical_system.mechanical_load.j_total, env.physical_system.tau
    cx.ensure_eq("p gain", b.p_gain[0] * a * t_n, j)
    if base != "P":
        cx.ensure_eq("i gain", b.i_gain[0] * a * t_n, b.p_gain[0])
        cx.ensure_eq("step size", b.tau, tau)
    if base == "PID":
        cx.ensure_eq("d gain", b.d_gain[0], b.p_gain[0] * tau)


@contract("C28", cases=[(k, "CC") for k in DCK + ACK] + [("extex", "SC"), ("pmsm", "SC")], targets=[BC + "three_point_controller.ThreePointController." + f for f in ("tune", "_tune_current_controller", "_tune_speed_controller")])
def tuning_three_point(cx, kind, task):
    """a tuned three-point controller controls the states of its task by name, with the extreme admissible values of its output"""
    ins = gc.parameter_reader.currents[MOTOR_ID[kind]] if task == "CC" else ["omega"]
    outs = gc.parameter_reader.voltages[MOTOR_ID[kind]] if task == "CC" else ["torque"]
    env = StubEnv(cx, kind, low={n: (0.0 if k % 2 == 0 and kind in DCK else -1.0) for k, n in enumerate(outs)})
    c = bc.ThreePointController(task)
    tune_anew(cx, c, env, eid(kind, task))
    lo, hi = [env.low[n] * env.lim[n] for n in outs], [env.lim[n] for n in outs]
    rng = c.action_range
    cx.ensure_eqs("output range: the announced one", list(rng[0]) + list(rng[1]), lo + hi)
    x, r = state(cx, env), reals(cx, "r", len(ins))
    out = c(x, r)
    for k, n in enumerate(ins):
        s, h = x[env.idx(n)], (hi[k] - lo[k]) / 100
        if s < r[k] - h:
            cx.ensure_eq(f"too low: highest output {outs[k]}", out[k], hi[k])
        elif s > r[k] + h:
            cx.ensure_eq(f"too high: lowest output {outs[k]}", out[k], lo[k])
        else:
            cx.ensure_eq(f"within one percent of the range: no output {outs[k]}", out[k], 0)
