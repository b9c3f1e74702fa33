"""C13 completion of parameters, limits and nominal values."""
import copy
import math

import numpy as np

from vc.engine import contract

from .common import AC, DC, MOTORS, RecordingSolver, motor_params, patched, real_converter, system_class

EM = "gym_electric_motor.physical_systems.electric_motors."
TG = [EM + c for c in ("electric_motor.ElectricMotor.__init__", "electric_motor.ElectricMotor._update_limits", "dc_motor.DcMotor._update_limits", "three_phase_motor.ThreePhaseMotor._update_limits", "synchronous_motor.SynchronousMotor._update_limits",
                       "induction_motor.InductionMotor.__init__", "squirrel_cage_induction_motor.SquirrelCageInductionMotor._update_limits", "doubly_fed_induction_motor.DoublyFedInductionMotor._update_limits")] + ["gym_electric_motor.utils.update_parameter_dict"]
KEYS = {"perm": ["omega", "torque", "i", "u"], "extex": ["omega", "torque", "i", "i_a", "i_e", "u", "u_a", "u_e"], "series": ["omega", "torque", "i", "u"], "shunt": ["omega", "torque", "i", "i_a", "i_e", "u"],
        "pmsm": ["omega", "torque", "i", "u", "epsilon"], "synrm": ["omega", "torque", "i", "u", "epsilon"], "eesm": ["omega", "torque", "i", "u", "epsilon", "i_e"], "scim": ["omega", "torque", "i", "u", "epsilon"], "dfim": ["omega", "torque", "i", "u", "epsilon"]}
VOLT = {"pmsm": ["u_a", "u_b", "u_c", "u_sd", "u_sq"], "synrm": ["u_a", "u_b", "u_c", "u_sd", "u_sq"], "eesm": ["u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e"],
        "scim": ["u_sa", "u_sb", "u_sc", "u_salpha", "u_sbeta", "u_sd", "u_sq"], "dfim": ["u_sa", "u_sb", "u_sc", "u_salpha", "u_sbeta", "u_sd", "u_sq", "u_ra", "u_rb", "u_rc", "u_rd", "u_rq", "u_ralpha", "u_rbeta"]}
CURR = {k: [n.replace("u_", "i_") for n in v if not (k == "eesm" and n == "u_e")] for k, v in VOLT.items()}


def snapshot(d):
    return {k: v for k, v in d.items()}


def same(cx, d, before):
    return set(d) == set(before) and all(d[k] is before[k] for k in before)


def cases():
    for k in MOTORS:
        for c in ["none", "all"] + KEYS[k]:
            yield (k, c, c)
        yield (k, "all", "none")
        yield (k, "none", "all")
        yield (k, "torque", "i")


def partial(cx, kind, which, prefix):
    keys = KEYS[kind] if which == "all" else [] if which == "none" else [which]
    return {k: cx.positive(prefix + k, typ=(0.5, 50)) for k in keys}


@contract("C13", cases=list(cases()), targets=TG, samples=15, search=300)
def limits(cx, kind, which, which_nom):
    cls = MOTORS[kind][0]
    with cx.unchecked():
        default = cls()  # an instance without arguments: its completed defaults
    lim, nom = partial(cx, kind, which, "lim_"), partial(cx, kind, which_nom, "nom_")
    mp = {n: cx.positive(n, typ=(0.05, 3.0)) for n in MOTORS[kind][1][:2]}
    if kind in ("pmsm", "eesm"):
        mp = {n: v for n, v in mp.items() if n != "l_d"}
    b = [snapshot(d) for d in (lim, nom, mp)]
    before_d = snapshot(cls._default_limits), snapshot(cls._default_nominal_values), snapshot(cls._default_motor_parameter)
    with cx.unchecked():
        m = cls(limit_values=lim, nominal_values=nom, motor_parameter=mp)
    cx.ensure("no dictionary of the user is modified", same(cx, lim, b[0]) and same(cx, nom, b[1]) and same(cx, mp, b[2]))
    cx.ensure("the class defaults are not modified", same(cx, cls._default_limits, before_d[0]) and same(cx, cls._default_nominal_values, before_d[1]) and same(cx, cls._default_motor_parameter, before_d[2]))
    for n, v in cls._default_motor_parameter.items():
        cx.ensure_eq("parameter " + n, m.motor_parameter[n], mp.get(n, v))
    L, N = m.limits, m.nominal_values
    # every quantity given is used unchanged; of the others, defaults that are set (not 0) are used
    for given, got, dflt, what in ((lim, L, cls._default_limits, "limit"), (nom, N, cls._default_nominal_values, "nominal value")):
        for q in KEYS[kind]:
            if q in given:
                cx.ensure_eq(f"given {what} {q}", got[q], given[q])
            elif dflt.get(q, 0) != 0:
                cx.ensure_eq(f"default {what} {q}", got[q], dflt[q])
    if kind in AC:
        for u in VOLT[kind]:
            if u not in KEYS[kind]:
                cx.ensure_eq("voltage limit from the generic entry: " + u, L[u], L["u"] / 2)
                cx.ensure_eq("voltage nominal value from the generic entry: " + u, N[u], N["u"] / 2)
        for i in CURR[kind]:
            if i not in KEYS[kind]:
                cx.ensure_eq("current limit from the generic entry: " + i, L[i], L["i"])
                cx.ensure_eq("current nominal value from the generic entry: " + i, N[i], N["i"])
    for q in L:
        cx.ensure("a nominal value for every limit: " + q, q in N)
        if q not in nom and cls._default_nominal_values.get(q, 0) == 0 and q not in (VOLT.get(kind, []) + CURR.get(kind, [])):
            cx.ensure_eq("missing nominal value is the limit: " + q, N[q], L[q])


@contract("C13", cases=[(k, q) for k in MOTORS for q in ("torque", "omega", "nominal")] + [("perm", "u"), ("series", "u"), ("shunt", "u"), ("extex", "u_a u_e")] + [("perm", "i"), ("series", "i")] + [(k, "i i_a i_e") for k in ("extex", "shunt")], targets=TG, samples=25)
def zero_entries(cx, kind, what):
    """an entry of 0 counts as missing: it is replaced by the physical maximum of the values that are given, a nominal value of 0 by the limit"""
    cls = MOTORS[kind][0]
    mp = motor_params(cx, kind)
    lim = partial(cx, kind, "all", "lim_")
    nom = partial(cx, kind, "all", "nom_")
    zero = (["torque", "i", "omega"] + (["u_a", "u_e"] if kind == "extex" else ["u"]) if kind in DC else ["torque", "omega"]) if what == "nominal" else what.split()
    for q in zero:
        (nom if what == "nominal" else lim)[q] = 0
    with cx.unchecked():
        m = cls(limit_values=dict(lim), nominal_values=dict(nom), motor_parameter=dict(mp))
    L, N = m.limits, m.nominal_values
    for q in KEYS[kind]:
        if q not in zero or what == "nominal":
            cx.ensure_eq("given limit " + q, L[q], lim[q])
        if q not in zero or what != "nominal":
            cx.ensure_eq("given nominal value " + q, N[q], nom[q])
        else:
            cx.ensure_eq("a nominal value of 0 is the limit: " + q, N[q], L[q])
    for q in zero:
        if what != "nominal" and q[0] in "uo":
            cx.ensure_eq("default " + q, L[q], cls._default_limits[q])
    sc = 1.0 if cx.symbolic else abs(float(L["torque"])) + 1
    if what == "torque" and kind in DC:
        cur = {"perm": ["i"], "series": ["i"]}.get(kind, ["i_a", "i_e"])
        i = [lim[c] for c in cur]
        cx.ensure_eq("torque at the current limits", L["torque"], mp["psi_e"] * i[0] if kind == "perm" else mp["l_e_prime"] * i[0] * i[-1], scale=sc)
    if what == "i":
        cx.ensure_eq("locked rotor current at the voltage limit", L["i"] * (mp["r_a"] + (mp["r_e"] if kind == "series" else 0)), lim["u"])
    if what == "i i_a i_e":
        cx.ensure_eq("armature current at the voltage limit", L["i_a"] * mp["r_a"], lim["u"])
        cx.ensure_eq("excitation current at the voltage limit", L["i_e"] * mp["r_e"], lim["u"])


@contract("C13", cases=list(MOTORS), targets=TG + [EM + "electric_motor.ElectricMotor.initialize"], samples=15)
def unaffected_by_initial_limits(cx, kind):
    """limits for initial values and resets do not change the limits and the nominal values"""
    cls = MOTORS[kind][0]
    lim, nom = partial(cx, kind, "all", "lim_"), partial(cx, kind, "all", "nom_")
    extra = {"i_sd": cx.positive("init_i", typ=(0.5, 5))}
    with cx.unchecked():
        a = cls(limit_values=dict(lim), nominal_values=dict(nom))
        m = cls(limit_values=dict(lim), nominal_values=dict(nom), initial_limits=dict(extra)) if kind in ("scim", "dfim") else cls(limit_values=dict(lim), nominal_values=dict(nom))
    for what, x, y in (("limit", m.limits, a.limits), ("nominal value", m.nominal_values, a.nominal_values)):
        cx.ensure(f"{what}s: same quantities", set(x) == set(y))
        for q in y:
            if q in x:
                cx.ensure_eq(f"{what} {q} unaffected by the limits for initial values", x[q], y[q])
    for q in extra if kind in ("scim", "dfim") else ():
        cx.ensure_eq("limit for initial values", m.initial_limits[q], extra[q])
    from .c14 import fixture
    from .rng import Rng

    with cx.unchecked():
        m, load, s = fixture(cx, kind, dict(limit_values=dict(lim), nominal_values=dict(nom), motor_initializer={"random_init": "uniform"}), rng=Rng(cx))
    before = [dict(m.limits), dict(m.nominal_values)]
    for _ in range(2):
        m.reset(state_space=s.state_space, state_positions=s.state_positions, **({"omega": 10.0} if kind in ("scim", "dfim") else {}))
    cx.ensure("a reset changes no limit and no nominal value", same(cx, m.limits, before[0]) and same(cx, m.nominal_values, before[1]))


@contract("C13", cases=["pmsm", "synrm", "scim", "dfim"], targets=[EM + "permanent_magnet_synchronous_motor.PermanentMagnetSynchronousMotor._torque_limit", EM + "synchronous_reluctance_motor.SynchronousReluctanceMotor._torque_limit",
                                                 EM + "externally_excited_synchronous_motor.ExternallyExcitedSynchronousMotor._torque_limit", EM + "induction_motor.InductionMotor._torque_limit", EM + "three_phase_motor.ThreePhaseMotor._update_limits"], samples=60)
def torque_limit(cx, kind):
    """the completed torque limit is the torque at the limit operating point, for all machine parameters"""
    cls = MOTORS[kind][0]
    mp = motor_params(cx, kind)
    i, n = cx.positive("i_lim", typ=(1, 20)), cx.positive("i_nom", typ=(1, 20))
    lim = {"i": i}
    with cx.unchecked():
        m = cls(limit_values=dict(lim), nominal_values={"i": n}, motor_parameter=dict(mp))
    T, p = m.limits["torque"], mp["p"]
    sc = 0.0 if cx.symbolic else abs(float(T)) + 1
    if kind in ("scim", "dfim"):
        cx.ensure_eq("rotor-flux operating point at the current limit (i_d = i_q = i / sqrt 2)", T, 3 * p * mp["l_m"] ** 2 / (mp["l_m"] + mp["l_sigr"]) * i * i / 4, scale=sc)
        return
    dl = mp["l_d"] - mp["l_q"]
    if kind == "synrm":
        cx.ensure_eq("largest reluctance torque at the current limit", T, 3 * p * (dl if dl >= 0 else -dl) * i * i / 4, scale=sc)
        return
    if kind == "pmsm":
        if dl == 0:
            cx.ensure_eq("non-salient machine: all current in q", 2 * T, 3 * p * mp["psi_p"] * i, scale=sc)
            return
        # no point of the circle i_d^2 + i_q^2 = n^2 gives more torque
        from .c04 import trig

        a = cx.angle("phi")
        c, s = trig(cx, a)
        if not cx.symbolic:
            cx.ensure_le("no operating point at the nominal current has a larger torque", 1.5 * p * (mp["psi_p"] + dl * n * c) * n * s, T, tol=1e-9, scale=sc)
        cx.ensure("positive", T > 0 if not cx.symbolic else True)


def recorded(cls):
    """the motor class with its torque evaluations written down"""
    def make(**kw):
        seen = []

        class Recorded(cls):
            def torque(self, currents):
                t = super().torque(currents)
                seen.append((list(currents), t))
                return t

        return Recorded(**kw), seen

    return make


def operating_point(cx, m, seen):
    """the currents of the evaluation that became the limit"""
    T = m.limits["torque"]
    d, t = next(((d, t) for d, t in seen if t is T), seen[-1])
    cx.ensure_eq("the completed limit is the torque of an evaluated operating point", T, t, scale=0.0 if cx.symbolic else abs(float(T)))
    return d


@contract("C13", cases=["pmsm-less", "pmsm-greater"], targets=[EM + "permanent_magnet_synchronous_motor.PermanentMagnetSynchronousMotor._torque_limit"], samples=60)
def pmsm_salient_torque_limit(cx, case):
    """the torque limit is the torque of a point on the circle of the nominal current where the torque is stationary, with positive reluctance torque"""
    cls = MOTORS["pmsm"][0]
    mp = motor_params(cx, "pmsm")
    n = cx.positive("i_nom", typ=(1, 20))
    cx.requires(mp["l_d"] < mp["l_q"] if case == "pmsm-less" else mp["l_d"] > mp["l_q"])
    with cx.unchecked():
        m, seen = recorded(cls)(limit_values={"i": cx.positive("i_lim", typ=(1, 20))}, nominal_values={"i": n}, motor_parameter=dict(mp))
    if not seen:
        return  # the torque is not evaluated through the torque method: nothing is decided here
    d, q = operating_point(cx, m, seen)[:2]
    dl = mp["l_d"] - mp["l_q"]
    cx.ensure_eq("on the circle of the nominal current", d * d + q * q, n * n, scale=1e3)
    cx.ensure_eq("stationary: dT/d(angle) = 0", dl * (q * q - d * d), mp["psi_p"] * d, scale=1e3)
    cx.ensure_le("reluctance torque is not negative", 0, dl * d, tol=1e-9)
    cx.ensure_le("i_q is not negative", 0, q, tol=1e-9)


@contract("C13", cases=["less", "greater", "equal"], targets=[EM + "externally_excited_synchronous_motor.ExternallyExcitedSynchronousMotor._torque_limit"], samples=60)
def eesm_torque_limit(cx, case):
    """the torque limit is the torque at the excitation current limit of a point on the circle of the nominal stator current (round machine: all limit current in q)"""
    cls = MOTORS["eesm"][0]
    mp = motor_params(cx, "eesm")
    if case == "equal":
        mp["l_q"] = mp["l_d"]
    n, i, ie = cx.positive("i_nom", typ=(1, 20)), cx.positive("i_lim", typ=(1, 20)), cx.positive("ie_lim", typ=(1, 20))
    if case != "equal":
        cx.requires(mp["l_d"] < mp["l_q"] if case == "less" else mp["l_d"] > mp["l_q"])
    with cx.unchecked():
        m, seen = recorded(cls)(limit_values={"i": i, "i_e": ie}, nominal_values={"i": n}, motor_parameter=dict(mp))
    if not seen:
        return  # the torque is not evaluated through the torque method: nothing is decided here
    d, q, e = operating_point(cx, m, seen)[:3]
    cx.ensure_eq("excitation current at its limit", e, ie)
    if case == "equal":
        cx.ensure_eqs("round machine", [d, q], [0, i])
        return
    cx.ensure_eq("on the circle of the nominal current", d * d + q * q, n * n, scale=1e3)
    cx.ensure_le("reluctance torque is not negative", 0, (mp["l_d"] - mp["l_q"]) * d, tol=1e-9)
    cx.ensure_le("i_q is not negative", 0, q, tol=1e-9)


@contract("C13", cases=[(k, s) for k in MOTORS for s in ("ideal", "rc", "ac1") if s == "ideal" or k in DC], targets=["gym_electric_motor.physical_systems.physical_systems.SCMLSystem._set_limits", "gym_electric_motor.physical_systems.physical_systems.SCMLSystem._set_nominal_state"], samples=15)
def system_limits(cx, kind, supply):
    """the system's limit is the smaller of motor and load limit; the supply's nominal voltage for the supply state"""
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gym_electric_motor.physical_systems.voltage_supplies import AC1PhaseSupply, IdealVoltageSupply, RCVoltageSupply

    cls = MOTORS[kind][0]
    lim, nom = partial(cx, kind, "all", "lim_"), partial(cx, kind, "all", "nom_")
    us = cx.positive("u_sup", typ=(1, 50))
    wl, wn = cx.positive("load_lim", typ=(0.5, 50)), cx.positive("load_nom", typ=(0.5, 50))
    given = {"omega": wl}
    with cx.unchecked():
        m = cls(limit_values=dict(lim), nominal_values=dict(nom))
        load = PolynomialStaticLoad(limits=given)
        load.nominal_values["omega"] = wn
        s = system_class(kind)(converter=real_converter(kind), motor=m, load=load, supply={"ideal": IdealVoltageSupply, "rc": RCVoltageSupply, "ac1": AC1PhaseSupply}[supply](u_nominal=us), ode_solver=RecordingSolver(), tau=1e-4)
    cx.ensure("the user's load limits are not modified", set(given) == {"omega"} and given["omega"] is wl)
    names = list(s.state_names)
    at = lambda pre: [k for k, n in enumerate(names) if n.startswith(pre) and n != "u_sup"]
    cx.ensure("announced positions of currents, voltages, supply, torque and speed", list(s.CURRENTS_IDX) == at("i_" if kind in AC else "i") and list(s.VOLTAGES_IDX) == at("u")
              and [int(k) for k in np.atleast_1d(s.U_SUP_IDX)] == [names.index("u_sup")] and int(s.TORQUE_IDX) == names.index("torque") and int(s.OMEGA_IDX) == names.index("omega"))
    for k, n in enumerate(names):
        if n == "u_sup":
            cx.ensure_eq("supply limit", s.limits[k], us)
            cx.ensure_eq("supply nominal value", s.nominal_state[k], us)
        elif n == "omega":
            cx.ensure_eq("speed limit: the smaller one", s.limits[k], wl if wl < lim["omega"] else lim["omega"])
            cx.ensure_eq("speed nominal value: the smaller one", s.nominal_state[k], wn if wn < nom["omega"] else nom["omega"])
        else:
            cx.ensure_eq("limit of " + n, s.limits[k], m.limits[n])
            cx.ensure_eq("nominal value of " + n, s.nominal_state[k], m.nominal_values[n])


@contract("C13", cases=["dict", "list", "array", "number"], targets=["gym_electric_motor.utils." + f for f in ("set_state_array", "state_dict_to_state_array", "update_parameter_dict")], samples=20)
def state_arrays(cx, how):
    """given entries land on their names, all others are 0"""
    from gym_electric_motor import utils

    names = ["omega", "torque", "i", "u"]
    v = [cx.real(f"v{k}") for k in range(4)]
    if how == "dict":
        d = {"i": v[0], "omega": v[1]}
        b = dict(d)
        r = utils.set_state_array(d, names)
        cx.ensure_eqs("by name, 0 otherwise", list(r), [v[1], 0, v[0], 0])
        cx.ensure("dictionary not modified", same(cx, d, b))
    elif how == "list":
        r = utils.set_state_array(list(v), names)
        cx.ensure_eqs("list", list(r), v)
    elif how == "array":
        r = utils.set_state_array(cx.array(v), names)
        cx.ensure_eqs("array", list(r), v)
    else:
        if not cx.symbolic:
            r = utils.set_state_array(v[0], names)
            cx.ensure_eqs("number: all entries", list(r), [v[0]] * 4)
    src, upd = {"a": v[0], "b": v[1]}, {"b": v[2]}
    new = utils.update_parameter_dict(src, upd)
    cx.ensure_eqs("update", [new["a"], new["b"]], [v[0], v[2]])
    cx.ensure("source and update are not modified", set(src) == {"a", "b"} and src["b"] is v[1] and set(upd) == {"b"} and upd["b"] is v[2])
    try:
        utils.update_parameter_dict(src, {"c": v[3]})
        cx.fail("unknown keys are refused")
    except KeyError:
        pass
