"""C31 the announced state space admits exactly the signs the drive can produce."""
import numpy as np

from gym_electric_motor import physical_systems as ps
from gym_electric_motor.physical_systems.mechanical_loads import ConstantSpeedLoad, ExternalSpeedLoad, MechanicalLoad, OrnsteinUhlenbeckLoad, PolynomialStaticLoad
from vc.engine import contract

from .common import AC, DC, MOTORS, motor, real_converter, system_class

G = "gym_electric_motor.physical_systems."
EM = G + "electric_motors."
LOADS = {"poly": PolynomialStaticLoad, "const": lambda: ConstantSpeedLoad(omega_fixed=10.0), "ext": lambda: ExternalSpeedLoad(lambda t: 0.0 * t, tau=1e-3), "ou": OrnsteinUhlenbeckLoad}


class OwnLoad(MechanicalLoad):
    """MechanicalLoad contract: further states announced by the load itself"""

    def __init__(self):
        super().__init__(state_names=["omega", "position", "wear"])
        self._limits = {"position": 7.0, "wear": 2.0}
        self._nominal_values = {"position": 7.0, "wear": 2.0}

    def get_state_space(self, omega_range):
        return {"omega": omega_range[0], "position": -0.5, "wear": 0.25}, {"omega": omega_range[1], "position": 0.75, "wear": 1}

    def mechanical_ode(self, t, mechanical_state, torque):
        return np.zeros(3)


LOADS["own"] = OwnLoad
CONV = {"F1": ps.FiniteOneQuadrantConverter, "F2": ps.FiniteTwoQuadrantConverter, "F4": ps.FiniteFourQuadrantConverter, "C1": ps.ContOneQuadrantConverter, "C2": ps.ContTwoQuadrantConverter, "C4": ps.ContFourQuadrantConverter}
NEG = {"1": (False, False), "2": (False, True), "4": (True, True)}  # number of quadrants: (negative voltage, negative current)
DCT = [EM + f + ".get_state_space" for f in ("dc_motor.DcMotor", "dc_permanently_excited_motor.DcPermanentlyExcitedMotor", "dc_series_motor.DcSeriesMotor", "dc_shunt_motor.DcShuntMotor")] + [G + "physical_systems.DcMotorSystem._build_state_space", G + "mechanical_loads.mechanical_load.MechanicalLoad.get_state_space"]


class Supply(ps.VoltageSupply):
    """VoltageSupply contract: an arbitrary nominal voltage and range"""

    def __init__(self, u, lo, hi):
        super().__init__(u)
        self.supply_range = (lo, hi)

    def reset(self):
        return [self.u_nominal]

    def get_voltage(self, *a, **k):
        return [self.u_nominal]


def pairs():
    for k in ("perm", "series", "shunt"):
        for c in CONV:
            yield k, c, None
    for a in CONV:
        for e in CONV:
            if a[0] == e[0]:
                yield "extex", a, e


def converter(a, e):
    if e is None:
        return CONV[a]()
    return (ps.FiniteMultiConverter if a[0] == "F" else ps.ContMultiConverter)(subconverters=(CONV[a](), CONV[e]()))


def signs(kind, a, e):
    """quantities that can become negative"""
    ua, ia = NEG[a[1]]
    if e is None:
        neg = {"u": ua}
        if kind == "shunt":
            neg.update(i_a=ia, i_e=ia, torque=ia, omega=False)
        else:
            neg.update(i=ia, torque=ia and kind == "perm", omega=ua and kind == "perm")
        return neg
    ue, ie = NEG[e[1]]
    return {"u_a": ua, "u_e": ue, "i_a": ia, "i_e": ie, "torque": ia or ie, "omega": ua or ue}


@contract("C31", cases=[(k, a, e, l, r) for k, a, e in pairs() for l, r in (("poly", "range"), ("const", "fix"), ("ext", "zero"), ("own", "range")) if l == "poly" or e is None or a == e], samples=6, targets=DCT)
def dc(cx, kind, a, e, load, rng):
    """DC drives: an entry may be negative exactly when the converter feeding it (for the torque: feeding one of its currents) works in such a quadrant"""
    u = cx.real("u_nom", gt=10, typ=(20, 400))
    lo, hi = {"range": (cx.real("lo", lo=-500, hi=0), cx.real("hi", gt=0, hi=500)), "fix": (u, u), "zero": (0.0, u)}[rng]
    with cx.unchecked():
        m, _ = motor(cx, kind)
        ld, sup, conv = LOADS[load](), Supply(u, lo, hi), converter(a, e)
    s = system_class(kind)(converter=conv, motor=m, load=ld, supply=sup, ode_solver=ps.EulerSolver())
    neg = signs(kind, a, e)
    names = list(s.state_names)
    further = {"position": (-0.5, 0.75), "wear": (0.25, 1)} if load == "own" else {}
    cx.ensure("all states", sorted(names) == sorted(list(neg) + ["u_sup"] + list(further)))
    low, high = np.asarray(s.state_space.low, dtype=object), np.asarray(s.state_space.high, dtype=object)
    cx.ensure("one interval per state", len(low) == len(high) == len(names))
    for i, n in enumerate(names):
        if n == "u_sup":
            cx.ensure_eq("lowest supply voltage", low[i], 0 if rng == "fix" else lo / u)
            cx.ensure_eq("highest supply voltage", high[i], hi / u)
        elif n in further:
            cx.ensure(f"interval of {n} as announced by the load", (low[i], high[i]) == further[n])
        else:
            cx.ensure_eq(f"lower bound of {n}", low[i], -1 if neg[n] else 0)
            cx.ensure_eq(f"upper bound of {n}", high[i], 1)


@contract("C31", cases=[(k, a, e) for k, a, e in pairs()], samples=40, targets=DCT + [EM + f + ".torque" for f in ("dc_motor.DcMotor", "dc_permanently_excited_motor.DcPermanentlyExcitedMotor", "dc_series_motor.DcSeriesMotor")])
def torque_sign(cx, kind, a, e):
    """a negative torque is announced exactly when some currents inside their announced intervals produce one"""
    with cx.unchecked():
        m, _ = motor(cx, kind)
        conv = converter(a, e)
    low, high = m.get_state_space(conv.currents, conv.voltages)
    cx.ensure("the same names for both bounds", sorted(low) == sorted(high))
    x = []
    for n in m.CURRENTS:
        v = cx.real("x_" + n, lo=-1, hi=1)
        cx.requires(low[n] <= v)
        cx.requires(v <= high[n])
        x.append(v * m.limits[n])
    T = m.torque(x)
    cx.ensure("a torque interval of the announced kind", low["torque"] in (0, -1) and high["torque"] == 1)
    if low["torque"] == 0:
        cx.ensure_le("no negative torque", 0, T, tol=1e-9)
    else:  # announced because some admissible currents give it
        y = [low[n] * m.limits[n] for n in m.CURRENTS]
        z = [(low[n] if i == 0 else high[n]) * m.limits[n] for i, n in enumerate(m.CURRENTS)]
        w = [(high[n] if i == 0 else low[n]) * m.limits[n] for i, n in enumerate(m.CURRENTS)]
        cx.ensure_some("some currents give a negative torque", [lambda c=c: m.torque(c) < 0 for c in (y, z, w)])


def ac_cases():
    for k in AC:
        for l in list(LOADS)[:4]:
            yield k, l


@contract("C31", cases=list(ac_cases()), samples=3, targets=[G + "physical_systems." + c + "._build_state_space" for c in ("SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem", "SquirrelCageInductionMotorSystem", "DoublyFedInductionMotorSystem")])
def ac(cx, kind, load):
    """three-phase drives: every quantity may take both signs, only the supply voltage cannot be negative"""
    u = cx.real("u_nom", gt=10, typ=(20, 400))
    with cx.unchecked():
        m, _ = motor(cx, kind)
        ld, sup, conv = LOADS[load](), Supply(u, u, u), real_converter(kind)
    s = system_class(kind)(converter=conv, motor=m, load=ld, supply=sup, ode_solver=ps.EulerSolver())
    names = list(s.state_names)
    low, high = s.state_space.low, s.state_space.high
    cx.ensure("one interval per state", len(low) == len(high) == len(names))
    for i, n in enumerate(names):
        cx.ensure(f"lower bound of {n}", low[i] == (0 if n == "u_sup" else -1))
        cx.ensure(f"upper bound of {n}", high[i] == 1)


def multi_cases():
    import itertools

    q = list(CONV) + ["FB", "CB"]
    for r in (1, 2, 3):
        for t in itertools.product(q, repeat=r):
            if len({x[0] for x in t}) == 1 and (r < 3 or t[0] == t[2]):
                yield t


@contract("C31", cases=[(t,) for t in multi_cases()], samples=1, targets=[G + "converters.FiniteMultiConverter.__init__", G + "converters.ContMultiConverter.__init__"])
def multi(cx, subs):
    """a multi-converter announces the quadrants of its sub-converters in their order"""
    make = dict(CONV, FB=ps.FiniteB6BridgeConverter, CB=ps.ContB6BridgeConverter)
    cs = [make[c]() for c in subs]
    c = (ps.FiniteMultiConverter if subs[0][0] == "F" else ps.ContMultiConverter)(subconverters=tuple(cs))
    ul, il = [], []
    for k in subs:
        nu, ni = (True, True) if k[1] == "B" else NEG[k[1]]
        w = 3 if k[1] == "B" else 1
        ul += [-1 if nu else 0] * w
        il += [-1 if ni else 0] * w
    for what, sp, want in (("voltages", c.voltages, ul), ("currents", c.currents, il)):
        cx.ensure(f"lower bounds of the {what}", [float(v) for v in sp.low] == want)
        cx.ensure(f"upper bounds of the {what}", [float(v) for v in sp.high] == [1.0] * len(want))
    cx.ensure("as many action parts as sub-converters", len(c.action_space.nvec) == len(subs) if subs[0][0] == "F" else c.action_space.shape == (sum(3 if k[1] == "B" else 1 for k in subs),))
