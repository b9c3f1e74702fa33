"""C29, field oriented operating points: the laws of the selections of three-phase machines over arbitrary tables, the analytic
solution of flux and torque equation, the modulation controller."""
import contextlib
from unittest import mock

import numpy as np

import gem_controllers as gc
from gem_controllers.stages.operation_point_selection import eesm_ops, pmsm_ops, scim_ops
from gem_controllers.stages.operation_point_selection.foc_operation_point_selection import FieldOrientedControllerOperationPointSelection as FOC

from vc.engine import contract

from .c27 import eid
from .common import motor_params
from .gcstub import ACK, MOTOR_ID, StubEnv, tune_anew, state

OPS = "gem_controllers.stages.operation_point_selection."
N = 2  # entries per table axis


def nearest(cx, x, lo, hi, n):
    """index of the grid value nearest to x on the grid of n values between lo and hi (values half way between two are left out)"""
    pos = (x - lo) / (hi - lo) * (n - 1)
    for k in range(n - 1):
        cx.requires(pos != k + 0.5)
        if pos < k + 0.5:
            return k
    return n - 1


class _Machine:
    """a machine with arbitrary positive parameters"""

    def __init__(self, cx, kind):
        names = {"scim": ("l_m", "l_sigr", "l_sigs", "r_s", "r_r"), "synrm": ("l_d", "l_q", "r_s"), "eesm": ("l_d", "l_q", "l_m", "l_e", "r_s", "r_e")}[kind]
        self.motor_parameter = {n: cx.positive(n, typ=(0.1, 3)) for n in names}
        self.motor_parameter["p"] = cx.int("p", lo=1, hi=8)


def table(cx, name, r, c, typ=(-3, 3)):
    return cx.array([[cx.real(f"{name}{i}{j}", typ=typ) for j in range(c)] for i in range(r)])


def demand(cx, sign, hi):
    """any torque reference of one sign"""
    return cx.real("T", gt=0, typ=(0.01, hi)) if sign == "torque" else cx.real("T", hi=0, typ=(-hi, 0), special=[0.0])


def sgn(x):
    return 1 if x > 0 else (-1 if x < 0 else 0)


class _Flux:
    """modulation controller contract: any available flux"""

    def __init__(self, cx, kind, x, typ=(0.05, 3.0), lo=None):
        self.x, self.calls = x, 0
        self.psi = cx.real("psi_available", lo=lo, typ=typ)

    def __call__(self, state):
        self.calls += 1
        self.ok = state is self.x
        return self.psi


# ------------------------------------------------------------------ modulation controller
@contract("C29", name="modulation_law", cases=ACK, targets=[OPS + "foc_operation_point_selection.FieldOrientedControllerOperationPointSelection." + f for f in ("modulation_control", "tune", "reset")])
def modulation_law(cx, kind):
    """integral controller of the modulation level a = 2 |u_dq| / u_dc towards k a_max, from any memory"""
    env = StubEnv(cx, kind)
    o = FOC(max_modulation_level=1.1, modulation_damping=1.25)
    tune_anew(cx, o, env, eid(kind, "TC"), 0.2)
    cx.ensure_eq("distance of the time constants from the damping", o.alpha * (1.25 - 0.75), 1.25, tol=1e-9)
    cx.ensure_eqs("permitted currents", [o.i_sd_limit, o.i_sq_limit], [env.lim["i_sd"] * 0.8, env.lim["i_sq"] * 0.8])
    gain, k = cx.positive("gain", typ=(0.1, 10)), cx.positive("k_mod", typ=(0.5, 1))
    amax = cx.positive("a_max", typ=(0.5, 1.5))
    hi, lo = cx.positive("psi_high", typ=(0.01, 1)), -cx.positive("psi_low", typ=(0.01, 1))
    rst, mem, was = 0.01 * lo, cx.real("mem", typ=(-1, 1)), cx.bool("limited")
    o.i_gain, o.k_, o.a_max, o.psi_high, o.psi_low, o.integrated_reset, o.integrated, o.limited = gain, k, amax, hi, lo, rst, mem, was
    x = state(cx, env)
    w = abs(x[env.idx("omega")])
    cx.requires(w >= 0.001)
    ud, uq = x[env.idx("u_sd")], x[env.idx("u_sq")]
    psi = o.modulation_control(x)
    lim = env.lim["u_sa" if kind == "scim" else "u_a"]
    udc = np.sqrt(3) * lim
    a = cx.real("a_level", lo=0) if cx.symbolic else 2 * np.sqrt(ud * ud + uq * uq) / udc
    if cx.symbolic:
        cx.requires(a * a * 3 * lim * lim == 4 * (ud * ud + uq * uq))
    e = (k * amax - a) * env.physical_system.tau
    i0 = rst if a > 1.1 * amax else mem
    delta = gain * udc / (2 * w * env.mp["p"]) * (e + i0)
    base = lim / (w * env.mp["p"])
    if lo <= delta and delta <= hi:
        cx.ensure_eq("flux of the voltage plus the correction", psi, base + delta)
        cx.ensure_eq("integrated while not limited", o.integrated, (rst if was else i0) + e)
        cx.ensure("not limited", not o.limited)
    else:
        cx.ensure_eq("correction limited", psi, base + (hi if delta > hi else lo))
        cx.ensure_eq("no integration while limited", o.integrated, i0)
        cx.ensure("limited", bool(o.limited))


# ------------------------------------------------------------------ analytic solution of flux and torque equation
@contextlib.contextmanager
def root_finder(cx, seen):
    """contract of numpy.roots: every returned number is a root of the polynomial (the last one is taken to be real)"""
    if cx.symbolic:
        def hook(coefs):
            c = list(np.asarray(coefs).view(np.ndarray).reshape(-1))
            r = cx.fresh_real("root")
            v = 0
            for q in c:
                v = v * r + q
            cx.requires(v == 0)
            seen.append(r)
            out = np.empty(len(c) - 1, dtype=object)
            for i in range(len(c) - 1):
                out[i] = cx.fresh_real("other")
            out[-1] = r
            return out

        cx.np_roots = hook
        yield
        cx.np_roots = None
        return
    real = np.roots

    def hook(p):
        r = real(p)
        seen.append(r[-1])
        return r

    with mock.patch.object(np, "roots", hook):
        yield


@contract("C29", name="analytic_solution", cases=["pmsm", "synrm", "eesm"], targets=[OPS + "pmsm_ops.PMSMOperationPointSelection.solve_analytical", OPS + "eesm_ops.EESMOperationPointSelection.solve_analytical", OPS + "eesm_ops.EESMOperationPointSelection.tune"], samples=200)
def analytic_solution(cx, kind):
    """any torque, flux (and excitation current): a real root of the solved polynomial is a current that has this flux and torque"""
    env = StubEnv(cx, kind)
    mp = env.mp
    ld, lq, p = mp["l_d"], mp["l_q"], mp["p"]
    if kind == "eesm":
        class Ops(eesm_ops.EESMOperationPointSelection):
            def _calculate_luts(self):
                pass

        o = Ops()
        tune_anew(cx, o, env, eid(kind, "TC"), 0.2)
        ie = cx.real("ie", gt=0, typ=(0.1, 5))
        X = mp["l_m"] * ie
    else:
        o = pmsm_ops.PMSMOperationPointSelection()
        FOC.tune(o, env, eid(kind, "TC"), 0.2)
        X = mp["psi_p"] if kind == "pmsm" else 0
        o.l_d, o.l_q, o.psi_p = ld, lq, X
    if cx.symbolic:
        T, psi = cx.real("T"), cx.real("psi", gt=0)
    else:  # the flux and torque of a motoring or generating current in the field weakening quadrant
        d0, q0 = -cx.real("d0", 0, 1, typ=(0, 1)), cx.real("q0", -1, 1, typ=(-1, 1))
        T = 1.5 * p * (X + (ld - lq) * d0) * q0
        psi = np.sqrt((X + ld * d0) ** 2 + (lq * q0) ** 2)
    if kind == "synrm":
        cx.requires(ld != lq)
    cx.requires(T != 0)
    seen = []
    with root_finder(cx, seen):
        d, q = o.solve_analytical(T, psi, *([ie] if kind == "eesm" else []))
    if not cx.symbolic:
        if seen and abs(np.imag(seen[-1])) > 1e-7:
            return
        cx.requires(abs(X + (ld - lq) * d) > 1e-2)
        tol = 1e-5
    else:
        cx.requires(X + (ld - lq) * d != 0)
        tol = None
    cx.ensure_eq("torque of the solution", 1.5 * p * (X + (ld - lq) * d) * q, T, tol=tol)
    f2 = (X + ld * d) * (X + ld * d) + lq * lq * q * q
    if cx.symbolic:
        # times the (non-zero) square of the torque producing flux
        z = X + (ld - lq) * d
        cx.ensure_eq("flux of the solution", f2 * z * z, psi * psi * z * z)
    else:
        cx.ensure_eq("flux of the solution", f2, psi * psi, tol=tol)


# ------------------------------------------------------------------ induction machine
class _FluxController:
    """flux controller contract: any current"""

    def __init__(self, cx):
        self.out, self.calls, self.integrations, self.resets = cx.real("fc", typ=(-30, 30)), [], [], 0
        self.arr = cx.array([self.out])

    def __call__(self, state, reference):
        self.calls.append((state[0], reference[0]))
        return self.arr

    def integrate(self, state, reference):
        self.integrations.append((state[0], reference[0]))

    def tune(self, env, env_id, *a, **k):
        self.tuned = a

    def reset(self):
        self.resets += 1


@contract("C29", name="scim_selection", cases=["torque", "no or negative torque"], targets=[OPS + "scim_ops.SCIMOperationPointSelection." + f for f in ("_select_operating_point", "_get_psi_opt", "_get_t_max", "reset")], samples=400, merge=True)
def scim_selection(cx, sign):
    """any tables, any available flux, any output of the flux controller"""
    env = StubEnv(cx, "scim", motor_=_Machine(cx, "scim"))
    fc = _FluxController(cx)

    o = scim_ops.SCIMOperationPointSelection(psi_controller=fc)
    FOC.tune(o, env, eid("scim", "TC"), 0.2)
    mp = env.mp
    lm, lr, p = mp["l_m"], mp["l_m"] + mp["l_sigr"], mp["p"]
    tl = env.lim["torque"]
    o.psi_abs_idx = env.idx("psi_abs")
    o.l_m, o.l_r, o.t_minimum, o.t_maximum, o.t_count, o.psi_count = lm, lr, -tl, tl, N, N
    o.psi_max = cx.positive("psi_max", typ=(0.5, 3))
    opt = [cx.real(f"opt{k}", lo=0, typ=(0, 3)) for k in range(N)]
    tmax = [cx.real(f"tm{k}", lo=0, typ=(0, 10)) for k in range(N)]  # tmax[k]: maximum torque at the flux k / (N-1) psi_max
    o.psi_opt_t = cx.array([[-tl, tl], opt, [0.0] * N, [0.0] * N])
    o.t_max_psi = cx.array([tmax[::-1] + [-t for t in tmax]] + [[0.0] * (2 * N)] * 3)
    T = demand(cx, sign, 30)
    x = state(cx, env, typ=(-3, 3))
    psi = x[env.idx("psi_abs")]
    cx.requires(psi >= 0.001)
    o.modulation_control = fl = _Flux(cx, "scim", x)
    out = o._select_operating_point(x, cx.array([T]))
    cx.ensure("one use of the modulation controller with the state", fl.calls == 1 and fl.ok)
    k = nearest(cx, T, -tl, tl, N)
    ref = opt[k] if opt[k] <= fl.psi else fl.psi
    cx.ensure("one use of the flux controller", len(fc.calls) == 1)
    cx.ensure_eq("the flux controller gets the flux", fc.calls[0][0], psi)
    cx.ensure_eq("flux reference: loss-optimal flux of the torque, limited to the available flux", fc.calls[0][1], ref)
    lim = 0.8 * env.lim["i_sd"]
    limq = 0.8 * env.lim["i_sq"]
    d = lim if fc.out > lim else (-lim if fc.out < -lim else fc.out)
    cx.ensure_eq("flux current: limited output of the flux controller", out[0], d)
    free = bool(fc.out <= lim) and bool(fc.out >= -lim)
    cx.ensure("the flux controller integrates exactly while its output is permitted", len(fc.integrations) == (1 if free else 0))
    if fc.integrations:
        cx.ensure_eqs("integrated flux deviation", list(fc.integrations[0]), [psi, ref])
    j = nearest(cx, ref, 0, o.psi_max, N)
    Tl = T if abs(T) <= tmax[j] else (tmax[j] if T > 0 else -tmax[j])
    need = Tl * 2 / 3 / p * lr / lm / psi
    q = limq if need > limq else (-limq if need < -limq else need)
    if q * q + d * d <= lim * lim:
        cx.ensure_eq("torque current: the limited torque at the present flux", out[1], q)
    else:
        cx.ensure_le("shortened to the permitted current", out[0] * out[0] + out[1] * out[1], lim * lim, tol=1e-9)
        cx.ensure_eq("all of the permitted current", out[0] * out[0] + out[1] * out[1], lim * lim, tol=1e-9)
    cx.ensure_le("direction of the torque", 0, out[1] * T, tol=1e-12)
    got = 1.5 * p * lm / lr * psi * out[1]
    cx.ensure_le("not more torque than demanded", got * sgn(T), abs(T), tol=1e-9)
    o.reset()
    cx.ensure("the flux controller is reset", fc.resets == 1)


@contract("C29", name="scim_tables", targets=[OPS + "scim_ops.SCIMOperationPointSelection." + f for f in ("_psi_opt", "_t_max")], samples=200)
def scim_tables(cx):
    """tables of 3 torques x 4 currents / 3 fluxes, any machine: each entry is the flux current of least losses among the grid currents"""
    env = StubEnv(cx, "scim", motor_=_Machine(cx, "scim"))
    o = scim_ops.SCIMOperationPointSelection(psi_controller=_FluxController(cx))
    FOC.tune(o, env, eid("scim", "TC"), 0.2)
    mp = env.mp
    lm, lr, ls, p, rs, rr = mp["l_m"], mp["l_m"] + mp["l_sigr"], mp["l_m"] + mp["l_sigs"], mp["p"], mp["r_s"], mp["r_r"]
    tl = env.lim["torque"]
    o.l_m, o.l_r, o.l_s, o.r_s, o.r_r = lm, lr, ls, rs, rr
    o.t_minimum, o.t_maximum, o.t_count, o.psi_count, o.i_sd_count = -tl, tl, 3, 3, 4
    tab = o._psi_opt()
    grid = [env.lim["i_sd"] * k / 3 for k in range(1, 4)]
    loss = lambda d, t: rs * d * d + (rs + rr * lm * lm / lr / lr) * (t / (1.5 * p * lm * lm / lr * d)) * (t / (1.5 * p * lm * lm / lr * d))
    cx.ensure_eqs("torques", list(tab[0]), [-tl, 0, tl])
    cx.ensure_eq("no flux without torque", tab[1][1], 0)
    for c, t in ((0, -tl), (2, tl)):
        d, q = tab[2][c], tab[3][c]
        cx.ensure_eq("flux of the flux current", tab[1][c], lm * d)
        cx.ensure_eq("torque of the currents", 1.5 * p * lm * lm / lr * d * q, t)
        cx.ensure_some("a current of the grid", [lambda g=g: d == g if cx.symbolic else abs(d - g) < 1e-9 for g in grid])
        got = rs * d * d + (rs + rr * lm * lm / lr / lr) * q * q
        for g in grid:
            cx.ensure_le("least losses", got, loss(g, t), tol=1e-9)
    # maximum torque per flux: voltage limit at nominal speed
    o.psi_max = cx.positive("psi_max", typ=(0.5, 3))
    un, wn = o.nominal_value[env.idx("u_sd")], o.nominal_value[env.idx("omega")]
    r2 = un * un / (wn * wn * ls * ls)
    cx.requires(r2 > o.psi_max * o.psi_max / lm / lm)
    tm = o._t_max()
    for k in range(3):
        psi = o.psi_max * (2 - k) / 2
        cx.ensure_eq("flux levels from the maximum to none", tm[1][k], psi)
        cx.ensure_le("maximum torque", 0, tm[0][k])
        cx.ensure_eq("maximum torque: stator flux current at the voltage limit", tm[0][k] * tm[0][k], (1.5 * p * lm / lr * psi) * (1.5 * p * lm / lr * psi) * (r2 - psi * psi / lm / lm), tol=1e-7)
        cx.ensure_eq("symmetric table", tm[0][5 - k], -tm[0][k])
        cx.ensure_eq("symmetric fluxes", tm[1][5 - k], psi)


# ------------------------------------------------------------------ synchronous machines
@contract("C29", name="pmsm_selection", cases=[(m, inv, s) for m in ("online", "analytical, torques", "analytical, fluxes") for inv in (1, -1) for s in ("torque", "no or negative torque")], targets=[OPS + "pmsm_ops.PMSMOperationPointSelection." + f for f in ("_select_operating_point", "_get_i_d_q", "_get_psi_idx_mtpf", "_get_t_idx_mtpc", "_get_psi_idx", "_get_t_idx")], samples=300, merge=True)
def pmsm_selection(cx, mode, inv, sign):
    """any tables, any available flux: the point of demanded torque and flux, between maximum torque per current and per flux"""
    kind = "synrm"
    env = StubEnv(cx, kind, motor_=_Machine(cx, kind))
    args = []
    a, b = cx.real("sol_d", typ=(-3, 1)), cx.real("sol_q", typ=(-3, 3))

    class Ops(pmsm_ops.PMSMOperationPointSelection):
        def solve_analytical(self, torque, psi):
            args.append((torque, psi))
            return a, b

    o = Ops(torque_control=mode.split(",")[0])
    FOC.tune(o, env, eid(kind, "TC"), 0.2)
    mp = env.mp
    o.l_d, o.l_q, o.psi_p, o.invert = mp["l_d"], mp["l_q"], cx.nonneg("psi_p", typ=(0, 1)), inv
    NT, NP = (N if mode != "analytical, fluxes" else 1), (N if mode != "analytical, torques" else 1)
    o.t_count, o.psi_count = NT, NP
    mt = o.max_torque = cx.positive("max_torque", typ=(1, 10))
    grid = [-mt, mt]
    cd, cq, cpsi = ([cx.real(f"{n}{k}", typ=(-3, 3)) for k in range(NT)] for n in ("cd", "cq", "cpsi"))
    o.mtpc = cx.array([[grid[k], cd[k], cq[k], cpsi[k]] for k in range(NT)])
    pm = o.psi_max_mtpf = cx.positive("psi_max_mtpf", typ=(0.5, 3))
    ft = [cx.real(f"ft{k}", lo=0, typ=(0, 8)) for k in range(N)]
    fd, fq = ([cx.real(f"{n}{k}", typ=(-3, 3)) for k in range(N)] for n in ("fd", "fq"))
    up = [[pm * k / (N - 1), ft[k], fd[k], fq[k]] for k in range(N)]
    o.mtpf = cx.array([[r[0], -r[1], r[2], -r[3]] for r in up[::-1]] + up)
    T = demand(cx, sign, 12)
    x = state(cx, env)
    o.modulation_control = fl = _Flux(cx, kind, x)
    if mode != "online":
        o.t_min, o.t_max = -cx.positive("t_low", typ=(1, 8)), cx.positive("t_high", typ=(1, 8))
        o.psi_min = cx.positive("psi_lowest", typ=(0.1, 1))
        o.psi_max = o.psi_min + cx.positive("psi_span", typ=(0.5, 2))
        o.i_d_inter, o.i_q_inter = table(cx, "id", NT, NP), table(cx, "iq", NT, NP)
    out = o._select_operating_point(x, cx.array([T]))
    cx.ensure("one use of the modulation controller with the state", fl.calls == 1 and fl.ok)
    k = nearest(cx, T, -mt, mt, NT)
    psi = cpsi[k] if cpsi[k] <= fl.psi else fl.psi
    j = nearest(cx, psi, 0, pm, N)
    Tl = T if abs(T) <= ft[j] else (ft[j] if T > 0 else -ft[j])
    if mode == "online":
        cx.ensure("one solution", len(args) == 1)
        cx.ensure_eq("solved for the torque within the maximum torque of the flux", args[0][0], Tl)
        cx.ensure_eq("solved for the flux of the torque, limited to the available flux", args[0][1], psi)
        d, q = a, b
    else:
        r, c = nearest(cx, Tl, o.t_min, o.t_max, NT), nearest(cx, psi, o.psi_min, o.psi_max, NP)
        d, q = o.i_d_inter[r, c], o.i_q_inter[r, c]
        cx.requires(d != fd[j])
    if d > cd[k]:
        d = cd[k]
        if mode == "online":
            q = cq[k]
        else:
            q = inv * sgn(T if bool(ft[j] > 0) else 0) * abs(cq[k])
    if d < fd[j]:
        d = fd[j]
        q = inv * sgn(T if bool(ft[j] > 0) else 0) * abs(fq[j])
    cx.ensure_eq("flux current", out[0], d)
    cx.ensure_eq("torque current", out[1], q)


@contract("C29", name="eesm_selection", targets=[OPS + "eesm_ops.EESMOperationPointSelection." + f for f in ("_select_operating_point", "_get_psi_idx", "_get_t_idx")], samples=300, merge=True)
def eesm_selection(cx):
    """any tables, any available flux"""
    env = StubEnv(cx, "eesm", motor_=_Machine(cx, "eesm"))
    o = eesm_ops.EESMOperationPointSelection()
    FOC.tune(o, env, eid("eesm", "TC"), 0.2)
    tm, pm = cx.positive("t_max", typ=(1, 10)), cx.positive("psi_max", typ=(0.5, 3))
    o.t_max, o.psi_max, o.t_grid_count, o.psi_grid_count = tm, pm, N, N
    calls = {"opt": [], "max": []}
    vo, vm = cx.real("psi_optimal", lo=0, typ=(0, 3)), cx.real("t_at_flux", lo=0, typ=(0, 10))
    o.psi_opt = lambda t: (calls["opt"].append(t), vo)[1]
    o.t_max_psi = lambda psi: (calls["max"].append(psi), vm)[1]
    o.i_d_inter, o.i_q_inter, o.i_e_inter = table(cx, "id", N, N), table(cx, "iq", N, N), table(cx, "ie", N, N)
    T = cx.real("T", typ=(-15, 15), special=[0.0])
    x = state(cx, env)
    o.modulation_control = fl = _Flux(cx, "eesm", x, lo=0)
    out = o._select_operating_point(x, cx.array([T]))
    cx.ensure("one use of the modulation controller with the state", fl.calls == 1 and fl.ok)
    t = tm if abs(T) > tm else abs(T)
    cx.ensure("optimal flux looked up once, maximum torque looked up once", len(calls["opt"]) == 1 and len(calls["max"]) == 1)
    cx.ensure_eq("optimal flux of the demanded torque", calls["opt"][0], t)
    psi = vo if vo <= fl.psi else fl.psi
    cx.ensure_eq("flux limited to the available flux", calls["max"][0], psi)
    tc = t if t <= vm else vm
    r, c = nearest(cx, tc, 0, tm, N), nearest(cx, psi, 0, pm, N)
    cx.ensure_eqs("currents of torque and flux", list(out), [o.i_d_inter[r, c], sgn(T) * o.i_q_inter[r, c], o.i_e_inter[r, c]])


# ------------------------------------------------------------------ table indices, any table length
@contract("C29", name="table_index", cases=["pmsm torque", "pmsm flux", "pmsm mtpc", "eesm torque", "eesm flux", "scim torque", "scim flux"], targets=[OPS + "pmsm_ops.PMSMOperationPointSelection." + f for f in ("_get_t_idx", "_get_psi_idx", "_get_t_idx_mtpc")] + [OPS + "eesm_ops.EESMOperationPointSelection." + f for f in ("_get_t_idx", "_get_psi_idx")] + [OPS + "scim_ops.SCIMOperationPointSelection." + f for f in ("_get_psi_opt", "_get_t_max")], samples=200, merge=True)
def table_index(cx, what):
    """the entry nearest to the (limited) value, for tables of any length"""
    n = cx.int("n", lo=2, typ=(2, 300))
    kind, q = what.split()
    hi = cx.positive("hi", typ=(0.5, 20))
    o = {"pmsm": pmsm_ops.PMSMOperationPointSelection, "eesm": eesm_ops.EESMOperationPointSelection, "scim": scim_ops.SCIMOperationPointSelection}[kind]()
    v = cx.real("v", typ=(-30, 30))
    lo = 0
    if what == "pmsm torque":
        lo = -cx.positive("lo", typ=(0.5, 20))
        o.t_min, o.t_max, o.t_count = lo, hi, n
        k = o._get_t_idx(cx.array([v]))
    elif what == "pmsm flux":
        lo = -hi + cx.positive("lo", typ=(0.1, 0.9)) * hi
        cx.requires(lo < hi)
        o.psi_min, o.psi_max, o.psi_count = lo, hi, n
        k = o._get_psi_idx(v)
    elif what == "pmsm mtpc":
        lo = -hi
        o.max_torque, o.t_count = hi, n
        k = o._get_t_idx_mtpc(cx.array([v]))
    elif what == "eesm torque":
        o.t_max, o.t_grid_count = hi, n
        k = o._get_t_idx(v)
    elif what == "eesm flux":
        o.psi_max, o.psi_grid_count = hi, n
        k = o._get_psi_idx(v)
    elif what == "scim torque":
        lo = -hi
        o.t_minimum, o.t_maximum, o.t_count = lo, hi, n
        k = o._get_psi_opt(v)
    else:
        o.psi_max, o.psi_count = hi, n
        k = o._get_t_max(v)
    x = hi if v > hi else (lo if v < lo else v)
    cx.ensure_between("an entry of the table", k, 0, n - 1)
    # |grid value - limited value| <= half the distance of the grid values
    d = (k * (hi - lo) - (x - lo) * (n - 1)) * 2
    cx.ensure_between("nearest entry", d, -(hi - lo), hi - lo, tol=1e-6)


# ------------------------------------------------------------------ tables of the synchronous machines (bounded: sampled machines)
@contract("C29", name="synchronous_tables", cases=["pmsm", "surface", "synrm"], mode="bounded", samples=60, targets=[OPS + "pmsm_ops.PMSMOperationPointSelection." + f for f in ("tune", "_get_mtpc_lookup_table", "_get_mtpf_lookup_table")])
def synchronous_tables(cx, case):
    """sampled machines, limits and margins: the rows of the tables satisfy torque and flux equation, no sampled current of the same
    torque is smaller, no sampled permitted current of the same flux gives more torque"""
    if cx.symbolic:
        return
    kind = "synrm" if case == "synrm" else "pmsm"
    par = motor_params(cx, kind)
    if case == "surface":
        par["l_q"] = par["l_d"]
    env = StubEnv(cx, kind, par)
    lim = cx.positive("i_lim", typ=(5, 50))
    for n in ("i_sd", "i_sq"):
        env.limits[env.idx(n)] = lim
    env.limits[env.idx("torque")] = cx.positive("t_lim", typ=(1, 60))
    margin = cx.choice("margin", [0.1, 0.2, 0.5])
    mp = env.mp
    cx.requires(mp["l_d"] < mp["l_q"] * 0.999 if case == "pmsm" else case == "surface" or abs(mp["l_d"] - mp["l_q"]) > 1e-3 * mp["l_d"])  # i_d <= 0 is optimal for such machines
    o = pmsm_ops.PMSMOperationPointSelection()
    tune_anew(cx, o, env, eid(kind, "TC"), margin)
    ld, lq, p, X = mp["l_d"], mp["l_q"], mp["p"], (mp["psi_p"] if kind == "pmsm" else 0)
    torque = lambda d, q: 1.5 * p * (X + (ld - lq) * d) * q
    flux = lambda d, q: np.hypot(X + ld * d, lq * q)
    t, d, q, psi = o.mtpc.T
    top = np.max(np.abs(t)) + 1e-12
    cx.ensure("torques over the range of the machine", bool(np.all(np.diff(t) > 0)) and bool(np.isclose(t[0], -t[-1])) and t[-1] >= env.limits[env.idx("torque")] - 1e-9)
    cx.ensure("flux of the current of each torque", bool(np.allclose(psi, flux(d, q), rtol=1e-6, atol=1e-9)))
    cx.ensure("currents of each torque", bool(np.all(np.abs(torque(d, q) - t) <= 1e-3 * top)))
    cx.ensure("current against the magnet flux", bool(np.all(d <= 1e-9)))
    amp, alt = np.hypot(d, q), -np.linspace(0, 1, 41)[1:-1] * 2.5 * lim
    for k in range(0, len(t), 10):
        z = X + (ld - lq) * alt
        ok = np.abs(z) > 1e-9
        other = np.hypot(alt[ok], t[k] / (1.5 * p * z[ok]))
        best = np.min(other) if ok.any() else np.inf
        if best <= 2.4 * lim and amp[k] <= 2.4 * lim:
            cx.ensure("no smaller current of the same torque", bool(amp[k] <= best * 1.01 + 0.02 * lim), info=f"{amp[k]} {best}")
    f = 1 - margin
    ps, tf, df, qf = o.mtpf.T
    use = np.abs(tf) > 1e-9
    cx.ensure("permitted currents of maximum torque per flux", bool(np.all(np.hypot(df[use], qf[use]) <= lim * f * (1 + 1e-6))))
    cx.ensure("torque of maximum torque per flux", bool(np.all(np.abs(np.abs(torque(df, qf)) - np.abs(tf))[use] <= 1e-6 * top + 1e-6 * np.max(np.abs(tf)))))
    cx.ensure("flux of maximum torque per flux not above its level", bool(np.all(flux(df, qf)[use] <= ps[use] * (1 + 1e-6) + 1e-9)))
    half = len(ps) // 2
    cx.ensure("symmetric table", len(ps) == 2 * half and bool(np.allclose(tf[:half][::-1], -tf[half:])) and bool(np.allclose(df[:half][::-1], df[half:])) and bool(np.allclose(ps[:half][::-1], ps[half:])))
    if X > 0:
        dd = -np.linspace(0, 1, 60) * lim * f
        for k in range(half, 2 * half, 10):
            r = ps[k] ** 2 - (X + ld * dd) ** 2
            qq = np.sqrt(np.maximum(r, 0)) / lq
            ok = (r >= 0) & (np.hypot(dd, qq) <= lim * f)
            if ok.any():
                cx.ensure("no more torque at the same flux", bool(abs(tf[k]) >= np.max(torque(dd[ok], qq[ok])) * 0.98 - 0.02 * top), info=f"{tf[k]}")
    # end to end at standstill (no flux limit)
    reach = np.max(np.abs(tf))
    T = cx.real("part", -0.8, 0.8, typ=(-0.8, 0.8)) * min(reach, top)
    x = np.zeros(len(env.state_names))
    o.reset()
    out = np.array(o(x, np.array([T])), dtype=float)
    cx.ensure("the demanded torque at standstill", bool(abs(torque(*out) - T) <= 0.03 * max(top, reach)), info=f"{T} {torque(*out)} {top} {reach}")
