"""C01 motor equations: the residual of every documented voltage equation is zero for all inputs."""
from vc.engine import contract

from .common import AC, DC, MOTORS, motor, motor_state, motor_voltage, obs

EMP = "gym_electric_motor.physical_systems.electric_motors."


def equations(kind, mp, x, u, w, d, T):
    """documented equations as (name, left, right)"""
    g = mp
    if kind == "perm":
        (i,), (u0,), (di,) = x, u, d
        return [("armature", u0, g["r_a"] * i + g["l_a"] * di + g["psi_e"] * w), ("torque", T, g["psi_e"] * i)]
    if kind == "extex":
        (ia, ie), (ua, ue), (dia, die) = x, u, d
        return [("armature", ua, g["r_a"] * ia + g["l_a"] * dia + g["l_e_prime"] * ie * w), ("excitation", ue, g["r_e"] * ie + g["l_e"] * die), ("torque", T, g["l_e_prime"] * ia * ie)]
    if kind == "series":
        (i,), (u0,), (di,) = x, u, d
        return [("circuit", u0, (g["r_a"] + g["r_e"]) * i + (g["l_a"] + g["l_e"]) * di + g["l_e_prime"] * i * w), ("torque", T, g["l_e_prime"] * i * i)]
    if kind == "shunt":
        (ia, ie), (u0,), (dia, die) = x, u, d
        return [("armature", u0, g["r_a"] * ia + g["l_a"] * dia + g["l_e_prime"] * ie * w), ("excitation", u0, g["r_e"] * ie + g["l_e"] * die), ("torque", T, g["l_e_prime"] * ia * ie)]
    if kind in ("pmsm", "synrm"):
        (i_d, i_q, _), (ud, uq), (did, diq, de) = x, u, d
        psi = g.get("psi_p", 0)
        we = g["p"] * w
        return [("d-axis", ud, g["r_s"] * i_d + g["l_d"] * did - we * g["l_q"] * i_q),
                ("q-axis", uq, g["r_s"] * i_q + g["l_q"] * diq + we * (g["l_d"] * i_d + psi)),
                ("angle", de, we), ("torque", T * 2, 3 * g["p"] * (psi + (g["l_d"] - g["l_q"]) * i_d) * i_q)]
    if kind == "eesm":
        (i_d, i_q, ie, _), (ud, uq, ue), (did, diq, die, de) = x, u, d
        we = g["p"] * w
        return [("d-axis", ud, g["r_s"] * i_d + g["l_d"] * did + g["l_m"] * die - we * g["l_q"] * i_q),
                ("q-axis", uq, g["r_s"] * i_q + g["l_q"] * diq + we * (g["l_d"] * i_d + g["l_m"] * ie)),
                ("excitation", ue * 2, 2 * g["r_e"] * ie + 2 * g["l_e"] * die + 3 * g["l_m"] * did),
                ("angle", de, we), ("torque", T * 2, 3 * g["p"] * (g["l_m"] * ie + (g["l_d"] - g["l_q"]) * i_d) * i_q)]
    # induction machines, stator-fixed frame
    (ia, ib, pa, pb, _), (dia, dib, dpa, dpb, de) = x, d
    us = u[:2]
    ur = u[2:] if kind == "dfim" else (0, 0)
    ls, lr, lm = g["l_m"] + g["l_sigs"], g["l_m"] + g["l_sigr"], g["l_m"]
    we = g["p"] * w
    # rotor currents from the rotor flux: psi_r = l_r i_r + l_m i_s
    return [
        ("rotor-alpha", ur[0] * lr, g["r_r"] * (pa - lm * ia) + lr * dpa + lr * we * pb),
        ("rotor-beta", ur[1] * lr, g["r_r"] * (pb - lm * ib) + lr * dpb - lr * we * pa),
        # stator flux psi_s = l_s i_s + l_m i_r = (l_s - l_m^2/l_r) i_s + l_m/l_r psi_r
        ("stator-alpha", us[0] * lr, g["r_s"] * ia * lr + (ls * lr - lm * lm) * dia + lm * dpa),
        ("stator-beta", us[1] * lr, g["r_s"] * ib * lr + (ls * lr - lm * lm) * dib + lm * dpb),
        ("angle", de, we),
        ("torque", 2 * T * lr, 3 * g["p"] * lm * (pa * ib - pb * ia)),
    ]


@contract("C01", cases=list(DC) + list(AC), targets=[EMP + "<class>.electrical_ode", EMP + "<class>.torque", EMP + "<class>._update_model", EMP + "<class>.__init__"], samples=60)
def motor_equations(cx, kind):
    m, mp = motor(cx, kind)
    x = motor_state(cx, kind)
    u, ul = motor_voltage(cx, kind)
    w = cx.real("w")
    d = obs(cx, m, kind, x, u, w)
    cx.ensure("state length", len(d) == len(x))
    T = m.torque(x)
    for name, a, b in equations(kind, mp, list(x), ul, w, d, T):
        cx.ensure_eq(name, a, b, tol=1e-7)


@contract("C01", cases=list(DC) + list(AC), targets=[EMP + "<class>.electrical_ode", EMP + "<class>.torque", EMP + "<class>._update_model", EMP + "<class>.__init__"], samples=60)
def whole_number_parameters(cx, kind):
    """the same equations hold when every parameter is given as a whole number"""
    mp = {n: cx.int(n, lo=1, typ=(1, 5)) for n in MOTORS[kind][1]}
    if kind == "eesm":
        cx.requires(mp["l_d"] * mp["l_e"] * 2 != mp["l_m"] * mp["l_m"] * 3)
    m, mp = motor(cx, kind, mp)
    x = motor_state(cx, kind)
    u, ul = motor_voltage(cx, kind)
    w = cx.real("w")
    d = obs(cx, m, kind, x, u, w)
    for name, a, b in equations(kind, mp, list(x), ul, w, d, m.torque(x)):
        cx.ensure_eq(name, a, b, tol=1e-7)


@contract("C01", cases=list(DC) + list(AC), targets=[EMP + "<class>.electrical_ode", EMP + "<class>.torque"], samples=10)
def evaluation_is_pure(cx, kind):
    """history independence: other evaluations in between do not change the result, arguments are not modified"""
    m, mp = motor(cx, kind)
    m2, _ = motor(cx, kind, {n: cx.positive("other_" + n, typ=(0.5, 3.0)) for n in mp} if kind != "eesm" else mp)
    x, y = motor_state(cx, kind), motor_state(cx, kind, "y")
    u, ul = motor_voltage(cx, kind)
    v, _ = motor_voltage(cx, kind, "v")
    w = cx.real("w")
    x0 = list(x)
    d1, t1 = obs(cx, m, kind, x, u, w), m.torque(x)
    obs(cx, m2, kind, y, v, w + 1), m2.torque(y)
    obs(cx, m, kind, y, v, w - 1), m.torque(y)
    d2, t2 = obs(cx, m, kind, x, u, w), m.torque(x)
    cx.ensure_eqs("same derivative", d1, d2)
    cx.ensure_eq("same torque", t1, t2)
    cx.ensure_eqs("state argument untouched", list(x), x0)


@contract("C01", cases=list(DC) + list(AC), targets=[EMP + "<class>.i_in"], samples=20)
def input_currents(cx, kind):
    """i_in: the currents flowing into the motor's terminals"""
    m, mp = motor(cx, kind)
    x = motor_state(cx, kind)
    i = [v for v in m.i_in(x)]
    want = {"perm": [x[0]], "series": [x[0]], "extex": list(x), "shunt": [x[0] + x[1] if len(x) > 1 else 0]}.get(kind)
    if want is None:
        want = list(x[:3]) if kind == "eesm" else list(x[:2])
    cx.ensure_eqs("i_in", i, want)
