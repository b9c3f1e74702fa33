"""C12 one step / one reset of the assembled system."""
import numpy as np

from vc.engine import contract

from .common import AC, DC, MOTORS, RecordingSolver, motor, motor_state, motor_voltage, poly_load, real_converter, system_class
from .simstep import PSP, Step, arr, rot_inv, to_abc, trig

SYS = ["DcMotorSystem", "SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem", "SquirrelCageInductionMotorSystem", "DoublyFedInductionMotorSystem"]
UNROLL = "the switching-interval loop of simulate() is executed for 1, 2 and 3 intervals, every interval from an arbitrary solver state; any number: induction by contract any_number_of_intervals of C12"
STUBS = "supply, converter and solver are represented by their contracts (arbitrary return values); the real ones are under contract in C06-C11"


def check_named(cx, st, x, u, us):
    """every entry of the returned state is the quantity its name says (x: ode state, u: terminal voltages, us: supply voltage)"""
    p, k, m = st.phys, st.kind, st.m
    sc = st.scale()
    eq = lambda n, v: cx.ensure_eq("state entry " + n, p[n], v, scale=sc)
    cx.ensure("one entry per name", len(arr(st.state)) == len(st.names))
    eq("omega", x[0])
    eq("torque", m.torque(cx.array(list(x[1:]))))
    eq("u_sup", us)
    i = st.terminal_currents(x)
    if k in DC:
        for n, v in zip(m.CURRENTS, x[1:]):
            eq(n, v)
        for n, v in zip(m.VOLTAGES, u):
            eq(n, v)
        return
    pre = "s" if k in ("scim", "dfim") else ""
    for j, ph in enumerate("abc"):
        eq(f"i_{pre}{ph}", i[j])
        eq(f"u_{pre}{ph}", u[j])
    if k in ("pmsm", "synrm", "eesm"):
        eq("i_sd", x[1])
        eq("i_sq", x[2])
    else:
        d, q = rot_inv(st.field(x), [x[1], x[2]])
        eq("i_sd", d)
        eq("i_sq", q)
    if k == "eesm":
        eq("i_e", x[3])
        eq("u_e", u[3])
    if k == "dfim":
        for j, ph in enumerate("abc"):
            eq(f"i_r{ph}", i[3 + j])
            eq(f"u_r{ph}", u[3 + j])
        d, q = rot_inv(st.field(x), st.i_rotor_ab(x))
        eq("i_rd", d)
        eq("i_rq", q)


@contract("C12", cases=[(k, n) for k in MOTORS for n in (1, 2, 3)], targets=[PSP + c + ".simulate" for c in ["SCMLSystem"] + SYS[1:]], samples=25, assumes=[UNROLL, STUBS])
def simulate(cx, kind, n):
    simulate_body(cx, kind, n)


def simulate_body(cx, kind, n):
    st = Step(cx, kind)
    action = object()
    st.simulate(n, action)
    sc = st.scale()
    log = list(st.log)
    cx.ensure("one set_action per step, before anything else", [e[0] for e in log].count("set_action") == 1 and log[0][0] == "set_action")
    cx.ensure("the converter gets the action", log[0][1] is action)
    cx.ensure_eq("the converter gets the current time", log[0][2], st.t0)
    conv = [(j, e) for j, e in enumerate(log) if e[0] == "convert"]
    isup = [(j, e) for j, e in enumerate(log) if e[0] == "i_sup"]
    sup = [(j, e) for j, e in enumerate(log) if e[0] == "supply"]
    cx.ensure("one conversion, supply current and supply voltage per interval", len(conv) == n and len(isup) == n and len(sup) == n)
    integ = [c for c in st.solver.calls if c[0] == "integrate"]
    par = [c for c in st.solver.calls if c[0] == "params"]
    cx.ensure("parameters set before each integration", [c[0] for c in st.solver.calls] == ["params", "integrate"] * n)
    if not (len(conv) == len(isup) == len(sup) == len(integ) == len(par) == n):
        return
    for j in range(n):
        x = st.xs[j]
        cx.ensure("order in interval: convert, supply current, supply voltage", conv[j][0] < isup[j][0] < sup[j][0])
        i = st.terminal_currents(x)
        cx.ensure_eqs(f"interval {j}: converter sees the terminal currents", conv[j][1][1], i, scale=sc)
        cx.ensure_eqs(f"interval {j}: supply current is drawn at the terminal currents", isup[j][1][1], i, scale=sc)
        cx.ensure_eq(f"interval {j}: converter is asked for the interval that ends at t", conv[j][1][2], st.times[j])
        cx.ensure_eq(f"interval {j}: supply gets the converter's supply current", sup[j][1][2], st.conv.isups[j])
        start = st.t0 if j == 0 else st.times[j - 1]
        cx.ensure_between(f"interval {j}: supply is asked at a time of the step", sup[j][1][1], st.t0, start)
        cx.ensure_eqs(f"interval {j}: motor gets converter output times supply voltage", arr(par[j][1][0]), st.motor_voltage(st.u[j], x), scale=sc)
        cx.ensure(f"interval {j}: exactly one parameter", len(par[j][1]) == 1)
        cx.ensure_eq(f"interval {j}: integration to the interval's end", integ[j][1], st.times[j])
    cx.ensure_eq("time advances by one step", st.s._t, st.t0 + st.tau)
    cx.ensure_eq("public step counter advances by one", st.s.k, st.k0 + 1)
    check_named(cx, st, st.xs[-1], st.u[-1], st.supply.us[-1])


class _Stop(BaseException):
    pass


@contract("C12", cases=list(MOTORS), targets=[PSP + c + ".simulate" for c in ["SCMLSystem"] + SYS[1:]], samples=15, assumes=[STUBS])
def any_number_of_intervals(cx, kind):
    """induction step of the switching-interval loop: after one interval from an arbitrary state everything the loop carries on
    (locals and attributes) is what it would be if the step had begun at the state reached; so interval j of any number of
    intervals behaves as the first one, and the rest of the step as the end of a step of one interval (contract simulate)"""
    if not cx.symbolic:
        n = cx.choice("n", [2, 4, 6, 9])
        return simulate_body(cx, kind, n)
    import sys

    from vc.loopcut import NoInvariant, _set, same

    st = Step(cx, kind)
    s, snaps, marks = st.s, [], {}

    class Loop:
        """the iterable of the loop: arbitrary instants; `stop` ends the run at the head of that iteration"""

        def __init__(self, stop):
            self.stop, self.k = stop, 0

        def __iter__(self):
            return self

        def __next__(self):
            frame = sys._getframe(1)
            me = frame.f_locals.get("self")
            if me is not s:
                raise NoInvariant("the loop is in another function")
            loc = dict(frame.f_locals)
            if self.k in (0, self.stop):
                snaps.append((loc, dict(vars(s))))
            if self.k == 1:  # what exists inside of the body only must not be carried on
                marks["temporaries"] = [v for v in loc if v not in snaps[0][0]]
                _set(frame, {}, marks["temporaries"])
            if self.k == self.stop:
                raise _Stop
            self.k += 1
            t = cx.fresh_real("instant")
            cx.requires(t > st.t0)
            cx.requires(t < st.t0 + st.tau)
            return t

    class Times:
        def __init__(self, stop):
            self.stop = stop

        def __getitem__(self, i):
            if i == slice(None, -1):
                return Loop(self.stop)
            raise NoInvariant("switching times are read in another way")

        def __getattr__(self, name):
            raise NoInvariant("switching times are read in another way")

        def __iter__(self):
            raise NoInvariant("switching times are read in another way")

        __len__ = __iter__

    def until_loop(y, t, stop):
        st.conv.times = Times(stop)
        st.solver.y = y
        snaps.clear()
        try:
            s.simulate(action)
            raise NoInvariant("the loop was not entered")
        except _Stop:
            return snaps[-1]

    action = object()
    st.t0, k0 = cx.nonneg("t0"), cx.int("k0", lo=0)
    st.solver.t = s._t = st.t0
    s._k = k0
    x0 = cx.vec("x", st.n)
    loc, me = until_loop(x0, st.t0, 1)
    x1 = st.solver.y
    if len(st.solver.ys) != 1:  # whether each interval is integrated is decided by contract simulate
        raise NoInvariant("the body of the loop did not run once")
    cx.ensure("one integration in an interval", True)
    loc2, me2 = until_loop(x1, None, 0)
    if not len(st.solver.ys) == len(st.supply.us) == len(st.conv.outs) == 1:
        raise NoInvariant("more than the body of the loop ran")

    def equal(name, a, b):
        if a is b or isinstance(a, (Times, Loop)) or (type(a) is type(b) and isinstance(a, (dict, tuple, list, set)) and len(a) == len(b) == 0):
            return
        try:
            fa, fb = arr(a), arr(b)
            if len(fa) == len(fb) and all(x is y or (not isinstance(x, (str, dict)) and x is not None) for x, y in zip(fa, fb)):
                if not same(cx, fa, fb):
                    raise NoInvariant(f"{name}: carried over from the interval before")
                cx.ensure_eqs(name, fa, fb)
                return
        except (TypeError, ValueError):
            pass
        raise NoInvariant(f"{name} is not comparable: {type(a)} {type(b)}")

    for k in loc2:
        if k in loc:
            equal("carried value is a function of the state reached", loc[k], loc2[k])
        else:
            raise NoInvariant(f"{k} is deleted in the loop")
    for k in me2:
        equal("carried attribute is a function of the state reached", me[k], me2[k])
    # a second interval does not read what only the first one's body has set
    try:
        until_loop(x0, None, 2)
    except UnboundLocalError:
        raise NoInvariant("a temporary of the body is carried on")
    if len(snaps) != 2:
        raise NoInvariant("the loop was not cut")


@contract("C12", cases=["pmsm", "synrm", "scim"], targets=[PSP + "SynchronousMotorSystem.simulate", PSP + "SquirrelCageInductionMotorSystem.simulate"], samples=25, assumes=[STUBS])
def simulate_dq_actions(cx, kind):
    """dq control space: the converter gets the phase voltages of the dq action at the present field angle"""
    st = Step(cx, kind, control="dq")
    a = [cx.real("ad", lo=-1, hi=1), cx.real("aq", lo=-1, hi=1)]
    st.simulate(1, cx.array(a))
    from .simstep import rot

    cx.ensure_eqs("dq action at the field angle", arr(st.log[0][1]), to_abc(cx, rot(st.field(st.xs[0]), a)), scale=2)


@contract("C12", cases=list(MOTORS), targets=[PSP + c + ".reset" for c in ["SCMLSystem"] + SYS[1:]], samples=30, assumes=[STUBS])
def reset(cx, kind):
    st = Step(cx, kind).reset()
    x = st.xs[0]
    names = [e[0] for e in st.log]
    cx.ensure("supply and converter are reset exactly once", names.count("reset") == 1 and names.count("supply_reset") == 1 and len(names) == 2)
    init = [e for e in st.solver.log if e[0] == "init"]
    cx.ensure("solver gets one initial value", len(init) == 1)
    if init:
        cx.ensure_eqs("solver starts at the reset state", arr(init[0][1]), x)
        cx.ensure_eq("solver starts at time 0", init[0][2], 0)
    cx.ensure_eq("time 0", st.s._t, 0)
    cx.ensure_eq("step counter 0", st.s.k, 0)
    check_named(cx, st, x, st.u[0], st.supply.us[-1])
    for n, v in st.dq_voltages(st.u[0], x).items():
        cx.ensure_eq("state entry " + n, st.phys[n], v, scale=st.scale())


@contract("C12", cases=list(MOTORS), targets=[PSP + "SCMLSystem._system_equation"], samples=30)
def system_equation(cx, kind):
    """the equation handed to the solver is the concatenation of load and motor equations, coupled by speed and torque; evaluations are independent of each other"""
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    m, mp = motor(cx, kind)
    load, lp = poly_load(cx)
    solver = RecordingSolver()
    with cx.unchecked():
        system_class(kind)(converter=real_converter(kind), motor=m, load=load, supply=IdealVoltageSupply(u_nominal=100.0), ode_solver=solver, tau=1e-4)
    got, want = [], []
    for j in range(2):
        w = cx.real(f"w{j}", typ=(-5, 5))
        t = cx.real(f"t{j}", lo=0)
        x = motor_state(cx, kind, f"x{j}_")
        u, _ = motor_voltage(cx, kind, f"u{j}_")
        got.append(solver.f(t, cx.array([w] + list(x)), u))
        tq = m.torque(x)
        want.append(arr(load.mechanical_ode(t, cx.array([w]), tq)) + arr(m.electrical_ode(x, u, w)))
    sc = 0.0
    for j in range(2):  # the first result is read after the second evaluation
        cx.ensure_eqs(f"evaluation {j}: load and motor equations", arr(got[j]), want[j])


def stub_load(cx, names, log):
    from gym_electric_motor.physical_systems.mechanical_loads import MechanicalLoad

    class StubLoad(MechanicalLoad):
        HAS_JACOBIAN = True

        def mechanical_ode(self, t, mechanical_state, torque):
            k = len([e for e in log if e[0] == "ode"])
            out = [cx.real(f"dm{k}_{j}") for j in range(len(names))]
            log.append(("ode", t, arr(mechanical_state), torque, out))
            return cx.array(out)

    return StubLoad(state_names=names)


@contract("C12", cases=[(k, n) for k in MOTORS for n in (1, 2)], targets=[PSP + "SCMLSystem._system_equation"], samples=20, assumes=["the load is represented by its contract (arbitrary derivatives); the real ones are under contract in C10"])
def system_equation_any_load(cx, kind, n):
    """for any load: it is asked at the time and state of the evaluation, wherever the solver evaluates"""
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    m, mp = motor(cx, kind)
    solver, log = RecordingSolver(), []
    with cx.unchecked():
        load = stub_load(cx, ["omega", "phi"][:n], log)
        s = system_class(kind)(converter=real_converter(kind), motor=m, load=load, supply=IdealVoltageSupply(u_nominal=100.0), ode_solver=solver, tau=1e-4)
    s._t = cx.nonneg("t_sys", typ=(0, 1))
    s._k = cx.int("k_sys", lo=0)
    for j in range(2):
        t = cx.nonneg(f"t{j}", typ=(0, 1))
        mech = [cx.real(f"w{j}_{q}", typ=(-5, 5)) for q in range(n)]
        x = motor_state(cx, kind, f"x{j}_")
        u, _ = motor_voltage(cx, kind, f"u{j}_")
        k0 = len(log)
        got = arr(solver.f(t, cx.array(mech + list(x)), u))
        cx.ensure("the load is asked once", len(log) == k0 + 1)
        _, lt, ls, ltq, out = log[-1]
        cx.ensure_eq("load: time of the evaluation", lt, t)
        cx.ensure_eqs("load: state of the evaluation", ls, mech)
        cx.ensure_eq("load: torque of the motor", ltq, m.torque(x))
        cx.ensure_eqs("derivatives: load, then motor", got, out + arr(m.electrical_ode(x, u, mech[0])))
