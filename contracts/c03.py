"""C03 energy balance: electrical input power = losses + d/dt magnetic energy + mechanical power, as an identity."""
from vc.engine import contract

from .common import AC, DC, motor, motor_state, motor_voltage, obs

EMP = "gym_electric_motor.physical_systems.electric_motors."


@contract("C03", cases=list(DC) + list(AC), targets=[EMP + "<class>.electrical_ode", EMP + "<class>.torque", EMP + "<class>.i_in"], samples=60)
def power_balance(cx, kind):
    m, g = motor(cx, kind)
    x = motor_state(cx, kind)
    u, ul = motor_voltage(cx, kind)
    w = cx.real("w")
    d = obs(cx, m, kind, x, u, w)
    T = m.torque(x)
    i = [v for v in m.i_in(x)]
    p_mech = T * w
    if kind in DC:
        p_el = sum((a * b for a, b in zip(ul, i)), 0)
        if kind == "perm":
            loss, dW = g["r_a"] * x[0] * x[0], g["l_a"] * x[0] * d[0]
        elif kind == "series":
            loss, dW = (g["r_a"] + g["r_e"]) * x[0] * x[0], (g["l_a"] + g["l_e"]) * x[0] * d[0]
        else:
            loss = g["r_a"] * x[0] * x[0] + g["r_e"] * x[1] * x[1]
            dW = g["l_a"] * x[0] * d[0] + g["l_e"] * x[1] * d[1]
        cx.ensure_eq("power balance", p_el, loss + dW + p_mech, tol=1e-6, scale=abs_scale(cx, p_el, loss, dW, p_mech))
        return
    if kind in ("pmsm", "synrm", "eesm"):
        h = 3
        p_el2 = h * (ul[0] * i[0] + ul[1] * i[1]) + (2 * ul[2] * i[2] if kind == "eesm" else 0)
        loss2 = h * g["r_s"] * (x[0] * x[0] + x[1] * x[1])
        dW2 = h * (g["l_d"] * x[0] * d[0] + g["l_q"] * x[1] * d[1])
        if kind == "eesm":
            loss2 = loss2 + 2 * g["r_e"] * x[2] * x[2]
            dW2 = dW2 + h * g["l_m"] * (x[0] * d[2] + x[2] * d[0]) + 2 * g["l_e"] * x[2] * d[2]
        cx.ensure_eq("power balance", p_el2, loss2 + dW2 + 2 * p_mech, tol=1e-6, scale=abs_scale(cx, p_el2, loss2, dW2, p_mech))
        return
    # induction machines: i_r = (psi_r - l_m i_s)/l_r ; everything multiplied by l_r^2 * 2/3
    lm, ls, lr = g["l_m"], g["l_m"] + g["l_sigs"], g["l_m"] + g["l_sigr"]
    ia, ib, pa, pb, _ = list(x)
    dia, dib, dpa, dpb, _ = d
    ra, rb = (pa - lm * ia) / lr, (pb - lm * ib) / lr
    dra, drb = (dpa - lm * dia) / lr, (dpb - lm * dib) / lr
    ur = ul[2:] if kind == "dfim" else [0, 0]
    p_el = 3 * (ul[0] * ia + ul[1] * ib + ur[0] * ra + ur[1] * rb)
    loss = 3 * (g["r_s"] * (ia * ia + ib * ib) + g["r_r"] * (ra * ra + rb * rb))
    # W = 3/2 (l_s |i_s|^2/2 + l_m i_s.i_r + l_r |i_r|^2/2)
    dW = 3 * (ls * (ia * dia + ib * dib) + lm * (ia * dra + ib * drb + ra * dia + rb * dib) + lr * (ra * dra + rb * drb))
    cx.ensure_eq("power balance", p_el, loss + dW + 2 * p_mech, tol=1e-6, scale=abs_scale(cx, p_el, loss, dW, p_mech))


def abs_scale(cx, *v):
    return 0.0 if cx.symbolic else max(abs(float(x)) for x in v)
