"""C04 coordinate transformations: inverse pairs, amplitude invariance, rotation matrix, zero sum, same transformation everywhere."""
import math

import numpy as np

from vc import shim
from vc.engine import contract

from .common import AC, RecordingSolver, motor, real_converter, system_class

EMP = "gym_electric_motor.physical_systems.electric_motors."
PSP = "gym_electric_motor.physical_systems.physical_systems."


def trig(cx, e):
    if cx.symbolic:
        return e.cos(), e.sin()
    return math.cos(e), math.sin(e)


def built_system(cx, kind):
    from gym_electric_motor.physical_systems.mechanical_loads import ConstantSpeedLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    with cx.unchecked():
        m, _ = motor(cx, kind)
        return system_class(kind)(converter=real_converter(kind), motor=m, load=ConstantSpeedLoad(omega_fixed=1.0), supply=IdealVoltageSupply(100.0), ode_solver=RecordingSolver(), tau=1e-4), m


@contract("C04", cases=["pmsm", "scim"], targets=[EMP + "ThreePhaseMotor." + n for n in ("t_23", "t_32", "q", "q_inv", "q_me", "q_inv_me")], samples=80)
def motor_transformations(cx, kind):
    m, mp = motor(cx, kind)
    ab = cx.vec("ab", 2)
    abc = cx.vec("abc", 3)
    e = cx.angle("eps")
    a, b = ab[0], ab[1]
    s3 = shim_sqrt3(cx)
    # alpha-beta -> abc: amplitude invariant, zero sum, projections at 120 degrees
    r = m.t_32(ab)
    cx.ensure_eqs("t_32", r, [a, (-a + s3 * b) / 2, (-a - s3 * b) / 2])
    cx.ensure_eq("t_32 zero sum", r[0] + r[1] + r[2], 0, scale=abs_(cx, r))
    cx.ensure_eqs("t_23(t_32)", m.t_23(r), [a, b])
    # abc -> alpha-beta ignores common mode and is the left inverse of t_32 on zero-sum vectors
    s = m.t_23(abc)
    cx.ensure_eqs("t_23", s, [(2 * abc[0] - abc[1] - abc[2]) / 3, (abc[1] - abc[2]) / s3], scale=abs_(cx, abc))
    z = (abc[0] + abc[1] + abc[2]) / 3
    cx.ensure_eqs("t_32(t_23) removes the common mode", m.t_32(s), [v - z for v in abc], scale=abs_(cx, abc))
    # rotations
    c_, s_ = trig(cx, e)
    dq = m.q_inv(ab, e)
    cx.ensure_eqs("q is the rotation matrix", m.q(ab, e), [c_ * a - s_ * b, s_ * a + c_ * b])
    cx.ensure_eqs("q_inv is the transposed rotation", dq, [c_ * a + s_ * b, -s_ * a + c_ * b])
    cx.ensure_eqs("q(q_inv)", m.q(dq, e), [a, b])
    cx.ensure_eqs("q_inv(q)", m.q_inv(m.q(ab, e), e), [a, b])
    cx.ensure_eq("rotation preserves length", dq[0] * dq[0] + dq[1] * dq[1], a * a + b * b)
    p = mp["p"]
    cx.ensure_eqs("q_me uses the electrical angle", m.q_me(ab, e), m.q(ab, p * e))
    cx.ensure_eqs("q_inv_me uses the electrical angle", m.q_inv_me(ab, e), m.q_inv(ab, p * e))
    cx.ensure_eqs("arguments untouched", [ab[0], ab[1]], [a, b])


def shim_sqrt3(cx):
    if cx.symbolic:
        from vc import sym as S

        return S.SymReal(S.S3)
    return math.sqrt(3)


def abs_(cx, v):
    return 0.0 if cx.symbolic else max(abs(float(x)) for x in v)


@contract("C04", cases=list(AC), targets=[PSP + "ThreePhaseMotorSystem." + n for n in ("abc_to_alphabeta_space", "alphabeta_to_abc_space", "abc_to_dq_space", "dq_to_abc_space", "alphabeta_to_dq_space", "dq_to_alphabeta_space")], samples=60)
def system_transformations(cx, kind):
    s, m = built_system(cx, kind)
    s3 = shim_sqrt3(cx)
    dq, abc = cx.vec("dq", 2), cx.vec("abc", 3)
    e, n = cx.angle("eps"), cx.real("eps_normed", lo=-1, hi=1)
    sc = max(abs_(cx, dq), abs_(cx, abc)) if not cx.symbolic else 0
    z = (abc[0] + abc[1] + abc[2]) / 3
    zs = [v - z for v in abc]

    def same(name, x, y):
        cx.ensure_eqs(name, x, y, scale=sc)

    cx_abc = s.dq_to_abc_space(dq, e)
    c_, s_ = trig(cx, e)
    al, be = c_ * dq[0] - s_ * dq[1], s_ * dq[0] + c_ * dq[1]
    same("dq->abc is the documented rotation and projection", cx_abc, [al, (-al + s3 * be) / 2, (-al - s3 * be) / 2])
    cx.ensure_eq("dq->abc zero sum", cx_abc[0] + cx_abc[1] + cx_abc[2], 0, scale=sc)
    same("abc->dq inverts dq->abc", s.abc_to_dq_space(cx_abc, e), dq)
    same("dq->abc inverts abc->dq up to the common mode", s.dq_to_abc_space(s.abc_to_dq_space(abc, e), e), zs)
    same("alphabeta->dq inverts dq->alphabeta", s.alphabeta_to_dq_space(s.dq_to_alphabeta_space(dq, e), e), dq)
    same("dq->alphabeta", s.dq_to_alphabeta_space(dq, e), [al, be])
    same("abc->alphabeta", s.abc_to_alphabeta_space(abc), [(2 * abc[0] - abc[1] - abc[2]) / 3, (abc[1] - abc[2]) / s3])
    same("alphabeta->abc inverts abc->alphabeta up to the common mode", s.alphabeta_to_abc_space(s.abc_to_alphabeta_space(abc)), zs)
    same("abc->dq ignores the common mode", s.abc_to_dq_space([v - z for v in abc], e), s.abc_to_dq_space(abc, e))
    same("abc->dq = alphabeta->dq after abc->alphabeta", s.abc_to_dq_space(abc, e), s.alphabeta_to_dq_space(s.abc_to_alphabeta_space(abc), e))
    same("motor: same transformation (abc->dq)", s.abc_to_dq_space(abc, e), m.q_inv(m.t_23(abc), e))
    same("motor: same transformation (dq->abc)", cx_abc, m.t_32(m.q(dq, e)))
    pi = math.pi
    same("normed angle dq->abc", s.dq_to_abc_space(dq, n, normed_epsilon=True), s.dq_to_abc_space(dq, n * pi))
    same("normed angle abc->dq", s.abc_to_dq_space(abc, n, normed_epsilon=True), s.abc_to_dq_space(abc, n * pi))
    same("normed angle alphabeta->dq", s.alphabeta_to_dq_space(dq, n, normed_epsilon=True), s.alphabeta_to_dq_space(dq, n * pi))
    same("normed angle dq->alphabeta", s.dq_to_alphabeta_space(dq, n, normed_epsilon=True), s.dq_to_alphabeta_space(dq, n * pi))
    # amplitude invariance at angle 0: a balanced vector keeps its amplitude (alpha = phase a)
    same("amplitude invariance", s.dq_to_abc_space(dq, 0.0)[0], dq[0])


@contract("C04", targets=[EMP + "ThreePhaseMotor.q"], samples=40)
def rotation_is_linear_and_additive(cx):
    from gym_electric_motor.physical_systems.electric_motors import ThreePhaseMotor as T

    x, y = cx.vec("x", 2), cx.vec("y", 2)
    k = cx.real("k")
    e, f = cx.angle("eps"), cx.angle("phi")
    sx = [x[0] + k * y[0], x[1] + k * y[1]]
    cx.ensure_eqs("linear", T.q(sx, e), [a + k * b for a, b in zip(T.q(x, e), T.q(y, e))], scale=abs_(cx, sx))
    cx.ensure_eqs("rotations compose", T.q(T.q(x, e), f), T.q(x, e + f), scale=abs_(cx, x))
    cx.ensure_eqs("angle 0 is the identity", T.q(x, 0.0), x)
    t = cx.vec("t", 3)
    t2 = cx.vec("t2_", 3)
    cx.ensure_eqs("t_23 linear", T.t_23(cx.array([a + k * b for a, b in zip(t, t2)])), [a + k * b for a, b in zip(T.t_23(t), T.t_23(t2))], scale=100.0)
