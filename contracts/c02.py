"""C02 jacobians equal the symbolic derivative of the executed right-hand side (central differences in the concrete reading)."""
import numpy as np

from vc.engine import contract

from .common import AC, DC, MOTORS, RecordingSolver, motor, motor_state, motor_voltage, obs, poly_load, real_converter, system_class

EMP = "gym_electric_motor.physical_systems.electric_motors."
PS = "gym_electric_motor.physical_systems."


@contract("C02", cases=list(DC) + list(AC), targets=[EMP + "<class>.electrical_jacobian", EMP + "<class>.electrical_ode", EMP + "<class>.torque"], samples=40)
def motor_jacobian(cx, kind):
    m, mp = motor(cx, kind)
    if not m.HAS_JACOBIAN:
        cx.ensure("no jacobian announced", kind == "extex")
        return
    x = motor_state(cx, kind)
    u, _ = motor_voltage(cx, kind)
    w = cx.real("w")
    J = m.electrical_jacobian(x, u, w)
    cx.ensure("three matrices", len(J) == 3)
    cx.ensure_derivatives("d ode/d state", lambda y: obs(cx, m, kind, y, u, w), list(x), J[0])
    jw = np.asarray(J[1], dtype=object)
    cx.ensure("d ode/d omega shape", jw.size == len(x))
    cx.ensure_derivatives("d ode/d omega", lambda y: obs(cx, m, kind, x, u, y[0]), [w], jw.reshape(-1, 1))
    jt = np.asarray(J[2], dtype=object)
    cx.ensure("d torque/d state shape", jt.size == len(x))
    cx.ensure_derivatives("d torque/d state", lambda y: [m.torque(y)], list(x), jt.reshape(1, -1))


def _smooth(cx, w, lp, jrot):
    """stay away from the two kinks of the static load (standstill, end of the linear region)"""
    j = lp["j_load"] + jrot
    lim = lp["a"] * 1e-3
    cx.requires(w != 0)
    cx.requires(abs(w) * j != lim)
    if not cx.symbolic:
        cx.sample_requires(abs(abs(w) * j - lim) > 1e-2 * j and abs(w) > 1e-2)


@contract("C02", cases=[False, True], targets=[PS + "mechanical_loads.PolynomialStaticLoad.mechanical_jacobian", PS + "mechanical_loads.PolynomialStaticLoad.mechanical_ode"], samples=80)
def poly_load_jacobian(cx, with_rotor):
    load, lp = poly_load(cx)
    jr = cx.positive("j_rotor") if with_rotor else 0
    if with_rotor:
        load.set_j_rotor(jr)
    w, T, t = cx.real("w", typ=(-5, 5)), cx.real("T"), cx.real("t", lo=0)
    _smooth(cx, w, lp, jr)
    J = load.mechanical_jacobian(t, cx.array([w]), T)
    f = lambda y, T_: [v for v in np.asarray(load.mechanical_ode(t, cx.array([y]), T_), dtype=object).reshape(-1)]
    cx.ensure_derivatives("d load/d omega", lambda y: f(y[0], T), [w], J[0])
    cx.ensure_derivatives("d load/d torque", lambda y: f(w, y[0]), [T], np.asarray(J[1], dtype=object).reshape(-1, 1))


@contract("C02", targets=[PS + "mechanical_loads.ConstantSpeedLoad.mechanical_jacobian"], samples=20)
def constant_speed_jacobian(cx):
    from gym_electric_motor.physical_systems.mechanical_loads import ConstantSpeedLoad

    load = ConstantSpeedLoad(omega_fixed=cx.real("w0"))
    load.set_j_rotor(cx.positive("j"))
    w, T, t = cx.real("w"), cx.real("T"), cx.real("t", lo=0)
    J = load.mechanical_jacobian(t, cx.array([w]), T)
    f = lambda y, T_: [v for v in np.asarray(load.mechanical_ode(t, cx.array([y]), T_), dtype=object).reshape(-1)]
    cx.ensure_derivatives("d load/d omega", lambda y: f(y[0], T), [w], J[0])
    cx.ensure_derivatives("d load/d torque", lambda y: f(w, y[0]), [T], np.asarray(J[1], dtype=object).reshape(-1, 1))


@contract("C02", cases=[(k, l) for k in list(DC) + list(AC) for l in ("poly", "const")], targets=[PS + "physical_systems.SCMLSystem._system_jacobian", PS + "physical_systems.SCMLSystem._system_equation"], samples=25)
def system_jacobian(cx, kind, loadkind):
    """the jacobian handed to the solver is the derivative of the equation handed to the solver"""
    from gym_electric_motor.physical_systems.mechanical_loads import ConstantSpeedLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    m, mp = motor(cx, kind)
    lp = None
    if loadkind == "poly":
        load, lp = poly_load(cx)
    else:
        load = ConstantSpeedLoad(omega_fixed=0.0)
    solver = RecordingSolver()
    with cx.unchecked():
        system_class(kind)(converter=real_converter(kind), motor=m, load=load, supply=IdealVoltageSupply(u_nominal=100.0), ode_solver=solver, tau=1e-4)
    w = cx.real("w", typ=(-5, 5))
    if lp is not None:
        _smooth(cx, w, lp, mp["j_rotor"])
    t = cx.real("t", lo=0)
    x = motor_state(cx, kind)
    u, _ = motor_voltage(cx, kind)
    full = [w] + list(x)
    if solver.jac is None:
        cx.ensure("jacobian is only missing when the motor offers none", not m.HAS_JACOBIAN)
        return
    f = lambda y: [v for v in np.array(solver.f(t, cx.array(list(y)), u), dtype=object).reshape(-1)]
    J = solver.jac(t, cx.array(full), u)
    cx.ensure_derivatives("d system/d state", f, full, J)


@contract("C02", cases=[(k, m, l, c) for k in ("series", "pmsm", "eesm", "scim", "dfim") for m in (True, False) for l in (True, False) for c in (None, True, False)], targets=[PS + "physical_systems.SCMLSystem.__init__"], samples=2)
def jacobian_offered(cx, kind, motor_has, load_has, calc):
    """the solver gets the jacobian exactly when it is not switched off and both parts can be differentiated"""
    import warnings

    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    with cx.unchecked(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m, load, solver = MOTORS[kind][0](), PolynomialStaticLoad(), RecordingSolver()
        m.HAS_JACOBIAN, load.HAS_JACOBIAN = motor_has, load_has
        system_class(kind)(converter=real_converter(kind), motor=m, load=load, supply=IdealVoltageSupply(u_nominal=100.0), ode_solver=solver, tau=1e-4, calc_jacobian=calc)
    cx.ensure("a system equation", solver.f is not None)
    cx.ensure("a jacobian exactly when possible and wanted", (solver.jac is not None) == (motor_has and load_has and calc is not False))
