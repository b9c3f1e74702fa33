"""Shared helpers: real /repo components built with symbolic or concrete parameters."""
import math

import numpy as np

import gym_electric_motor  # noqa
from gym_electric_motor.physical_systems import electric_motors as em

DC = {
    "perm": (em.DcPermanentlyExcitedMotor, ["r_a", "l_a", "psi_e", "j_rotor"]),
    "extex": (em.DcExternallyExcitedMotor, ["r_a", "r_e", "l_a", "l_e_prime", "l_e", "j_rotor"]),
    "series": (em.DcSeriesMotor, ["r_a", "r_e", "l_a", "l_e_prime", "l_e", "j_rotor"]),
    "shunt": (em.DcShuntMotor, ["r_a", "r_e", "l_a", "l_e_prime", "l_e", "j_rotor"]),
}
AC = {
    "pmsm": (em.PermanentMagnetSynchronousMotor, ["p", "l_d", "l_q", "r_s", "psi_p", "j_rotor"]),
    "synrm": (em.SynchronousReluctanceMotor, ["p", "l_d", "l_q", "r_s", "j_rotor"]),
    "eesm": (em.ExternallyExcitedSynchronousMotor, ["p", "l_d", "l_q", "l_m", "l_e", "r_s", "r_e", "k", "j_rotor"]),
    "scim": (em.SquirrelCageInductionMotor, ["p", "l_m", "l_sigs", "l_sigr", "r_s", "r_r", "j_rotor"]),
    "dfim": (em.DoublyFedInductionMotor, ["p", "l_m", "l_sigs", "l_sigr", "r_s", "r_r", "j_rotor"]),
}
MOTORS = {**DC, **AC}
NSTATE = {"perm": 1, "extex": 2, "series": 1, "shunt": 2, "pmsm": 3, "synrm": 3, "eesm": 4, "scim": 5, "dfim": 5}


def motor_params(cx, kind, prefix=""):
    cls, names = MOTORS[kind]
    mp = {n: cx.positive(prefix + n, typ=(0.05, 3.0)) for n in names}
    if kind == "eesm":
        # the leakage factor sigma must not vanish (the model divides by it)
        cx.requires(mp["l_d"] * mp["l_e"] * 2 != mp["l_m"] * mp["l_m"] * 3)
        cx.sample_requires(abs(mp["l_d"] * mp["l_e"] * 2 - mp["l_m"] * mp["l_m"] * 3) > 0.1)
    return mp


def motor(cx, kind, mp=None, **kw):
    """a real motor object with arbitrary positive parameters"""
    cls, names = MOTORS[kind]
    mp = motor_params(cx, kind) if mp is None else mp
    with cx.unchecked():
        m = cls(motor_parameter=dict(mp), **kw)
    return m, mp


def motor_state(cx, kind, prefix="x"):
    n = NSTATE[kind]
    xs = [cx.real(f"{prefix}{i}") for i in range(n)]
    if kind in AC:
        xs[-1] = cx.angle(f"{prefix}eps") if False else xs[-1]
    return cx.array(xs)


def motor_voltage(cx, kind, prefix="u"):
    if kind == "dfim":
        us = [cx.real(f"{prefix}s0"), cx.real(f"{prefix}s1"), cx.real(f"{prefix}r0"), cx.real(f"{prefix}r1")]
        a = np.empty((2, 2), dtype=object if cx.symbolic else float)
        a[0, 0], a[0, 1], a[1, 0], a[1, 1] = us
        if cx.symbolic:
            from vc.shim import SArr

            a = a.view(SArr)
        return a, us
    n = {"perm": 1, "extex": 2, "series": 1, "shunt": 1, "pmsm": 2, "synrm": 2, "eesm": 3, "scim": 2}[kind]
    us = [cx.real(f"{prefix}{i}") for i in range(n)]
    return cx.array(us), us


def obs(cx, motor_, kind, x, u, w):
    d = motor_.electrical_ode(x, u, w)
    return [v for v in np.asarray(d, dtype=object).reshape(-1)]


# ------------------------------------------------------------------ stubs that stand for components (abstract contracts)
class RecordingSolver:
    """OdeSolver contract: remembers system equation / jacobian / parameters; integrate() is left abstract"""

    def __init__(self):
        self.f = self.jac = None
        self.params = None
        self.t = 0
        self.y = None
        self.log = []

    def set_system_equation(self, system_equation, jac=None):
        self.f, self.jac = system_equation, jac

    def set_initial_value(self, initial_value, t=0):
        self.y, self.t = initial_value, t
        self.log.append(("init", initial_value, t))

    def set_f_params(self, *args):
        self.params = args


def real_converter(kind, **kw):
    """a real converter that fits the motor kind (continuous)"""
    from gym_electric_motor.physical_systems import converters as cv

    if kind in ("perm", "series", "shunt"):
        return cv.ContFourQuadrantConverter(**kw)
    if kind == "extex":
        return cv.ContMultiConverter((cv.ContFourQuadrantConverter(**kw), cv.ContFourQuadrantConverter(**kw)))
    if kind in ("pmsm", "synrm", "scim"):
        return cv.ContB6BridgeConverter(**kw)
    if kind == "eesm":
        return cv.ContMultiConverter((cv.ContB6BridgeConverter(**kw), cv.ContFourQuadrantConverter(**kw)))
    if kind == "dfim":
        return cv.ContMultiConverter((cv.ContB6BridgeConverter(**kw), cv.ContB6BridgeConverter(**kw)))
    raise KeyError(kind)


def system_class(kind):
    from gym_electric_motor.physical_systems import physical_systems as ps

    if kind in DC:
        return ps.DcMotorSystem
    return {"pmsm": ps.SynchronousMotorSystem, "synrm": ps.SynchronousMotorSystem, "eesm": ps.ExternallyExcitedSynchronousMotorSystem, "scim": ps.SquirrelCageInductionMotorSystem, "dfim": ps.DoublyFedInductionMotorSystem}[kind]


def poly_load(cx, prefix="ld_"):
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad

    lp = dict(a=cx.nonneg(prefix + "a", typ=(0, 2.0)), b=cx.nonneg(prefix + "b", typ=(0, 1.0)), c=cx.nonneg(prefix + "c", typ=(0, 1.0)), j_load=cx.positive(prefix + "j", typ=(0.01, 2.0)))
    with cx.unchecked():
        return PolynomialStaticLoad(load_parameter=dict(lp)), lp


class patched:
    """replaces attributes of modules for the duration (stubs for external libraries)"""

    def __init__(self, *triples):
        self.triples = triples

    def __enter__(self):
        self.saved = []
        for mod, name, val in self.triples:
            self.saved.append((mod, name, mod.__dict__.get(name, self)))
            setattr(mod, name, val)

    def __exit__(self, *a):
        for mod, name, val in reversed(self.saved):
            if val is self:
                delattr(mod, name)
            else:
                setattr(mod, name, val)
        return False
