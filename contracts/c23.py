"""C23 environments are isolated from each other and from their arguments.

Every component kind is driven through an observer: a generator that resets and uses the component and yields everything a user
can see of it.  `isolate` runs it on a default component alone, builds a component with special (arbitrary) arguments, uses both
interleaved, builds a third one with defaults afterwards, and demands equal observations throughout."""
import itertools
import sys
import warnings

import numpy as np
from gymnasium.spaces import Box

import gym_electric_motor as gem
from vc.engine import contract

from .c17 import env_ids
from .c19 import CLS, SAW, cls_of, signal_stub
from .common import AC, DC, MOTORS, RecordingSolver, motor_params, motor_state, motor_voltage, real_converter, system_class
from .envstub import StubReference, StubReward, StubSystem
from .rng import Rng, with_rng

G = "gym_electric_motor."
EM = G + "physical_systems.electric_motors."
END = object()


# ------------------------------------------------------------------ values
def leaves(x, path=""):
    """every leaf of a nested value with its path; containers contribute their size"""
    if isinstance(x, dict):
        out = [(path + "#", tuple(sorted(map(str, x))))]
        for k in sorted(x, key=str):
            out += leaves(x[k], f"{path}[{k}]")
        return out
    if isinstance(x, (list, tuple)):
        out = [(path + "#", len(x))]
        for i, v in enumerate(x):
            out += leaves(v, f"{path}[{i}]")
        return out
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return [(path, x[()])]
        out = [(path + "#", tuple(x.shape))]
        for i, v in enumerate(list(x.reshape(-1))):
            out.append((f"{path}[{i}]", v))
        return out
    if type(x).__name__ in ("Box", "SymBox", "symBox") or (hasattr(x, "low") and hasattr(x, "high")):
        return leaves([np.asarray(x.low), np.asarray(x.high)], path + ".box")
    if hasattr(x, "nvec"):
        return leaves(np.asarray(x.nvec), path + ".nvec")
    if hasattr(x, "spaces"):
        return leaves(list(x.spaces), path + ".spaces")
    return [(path, x)]


def freeze(x):
    return leaves(x)


def number(v):
    return hasattr(v, "e") or (isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_)))


def same(cx, name, got, want):
    """two frozen values are equal"""
    ok = [p for p, _ in got] == [p for p, _ in want]
    cx.ensure(name + " (structure)", ok, info=f"{[p for p, _ in got][:4]} / {[p for p, _ in want][:4]}" if not ok else "")
    if not ok:
        return
    nums = [(a, b) for (_, a), (_, b) in zip(got, want) if number(a) and number(b)]
    rest = [(p, a, b) for (p, a), (_, b) in zip(got, want) if not (number(a) and number(b))]
    for p, a, b in rest:
        if hasattr(a, "e") or hasattr(b, "e"):  # symbolic truth values
            cx.ensure(f"{name}{p}", bool(a) == bool(b))
        else:
            cx.ensure(f"{name}{p}", a is b or bool(a == b), info=f"{a!r} / {b!r}")
    if nums:
        cx.ensure_eqs(name, [a for a, _ in nums], [b for _, b in nums])


class Watch:
    """objects handed in or handed out, with their contents at that time"""

    def __init__(self):
        self.items = []

    def add(self, name, x):
        self.items.append((name, x, freeze(x)))
        return x

    def check(self, cx, when):
        for name, x, fr in self.items:
            same(cx, f"{name} unchanged {when}", freeze(x), fr)


def collect(obs, watch=None, who=""):
    out = []
    for item in obs:
        name, v = item[0], item[1]
        if watch is not None and len(item) > 2:
            watch.add(f"{who}{name} handed out", v)
        out.append((name, freeze(v)))
    return out


def compare(cx, when, got, want):
    cx.ensure(f"{when}: same course", [n for n, _ in got] == [n for n, _ in want])
    for (n, a), (_, b) in zip(got, want):
        same(cx, f"{when}: {n}", a, b)


def _plain(v):
    return {k: _plain(x) for k, x in v.items()} if type(v) is dict else [_plain(x) for x in v] if type(v) is list else set(v) if type(v) is set else v


def _class_data():
    """the data held by the classes of the package (attributes, default arguments) as they are after the import"""
    import inspect

    import gym_electric_motor.envs  # noqa: F401

    seen, bound, inside = set(), [], []
    for name, mod in list(sys.modules.items()):
        if not name.startswith("gym_electric_motor"):
            continue
        for cls in list(vars(mod).values()):
            if not inspect.isclass(cls) or cls in seen or not cls.__module__.startswith("gym_electric_motor"):
                continue
            seen.add(cls)
            for k, v in list(vars(cls).items()):
                if inspect.isfunction(v):
                    inside += [d for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) if type(d) in (dict, list, set)]
                elif not k.startswith("__") and type(v) in (int, float, str, bool, tuple, dict, list, set, type(None)):
                    bound.append((cls, k, v))
                    if type(v) in (dict, list, set):
                        inside.append(v)
    return bound, [(v, _plain(v)) for v in inside]


_DATA = _class_data()


def as_imported():
    """undo what earlier runs may have left in the classes"""
    bound, inside = _DATA
    for cls, k, v in bound:
        if vars(cls).get(k) is not v:
            setattr(cls, k, v)
    for v, c in inside:
        c = _plain(c)
        if type(v) is list:
            v[:] = c
        else:
            v.clear()
            v.update(c)


def isolate(cx, default, special, make, observe, light=False):
    """default() / make(args): constructors;  special: the argument dictionary;  observe(object): observer"""
    watch = Watch()
    watch.add("arguments", special)
    as_imported()
    with cx.unchecked():
        first = make(special)
    alone = collect(observe(first))
    watch.check(cx, "by building the first one")
    as_imported()
    with cx.unchecked():
        a = default()
    ref = collect(observe(a), watch, "A ")
    with cx.unchecked():
        b = make(special)
    watch.check(cx, "by building another one")
    own = collect(observe(b), watch, "B ")
    compare(cx, "one built after a default one and one built alone", own, alone)
    compare(cx, "the first one after another was built and used", collect(observe(a)), ref)
    if not light:
        # both in turns
        ga, gb = [], []
        for x, y in itertools.zip_longest(observe(a), observe(b), fillvalue=END):
            if x is not END:
                ga.append((x[0], freeze(x[1])))
            if y is not END:
                gb.append((y[0], freeze(y[1])))
        compare(cx, "the first one, interleaved", ga, ref)
        compare(cx, "the second one, interleaved", gb, own)
    with cx.unchecked():
        c = default()
    compare(cx, "a later default one", collect(observe(c)), ref)
    with cx.unchecked():
        d = make(special)
    compare(cx, "a second one from the same arguments", collect(observe(d)), own)
    compare(cx, "the first one at the end", collect(observe(a)), ref)
    watch.check(cx, "at the end")


# ------------------------------------------------------------------ motors
def motor_special(cx, kind, zero=False):
    names = [s for s in MOTORS[kind][0]().initializer["states"]]
    keys = {"omega": cx.positive("lim_omega"), "torque": cx.positive("lim_torque"), "i": cx.positive("lim_i"), "u": cx.positive("lim_u")}
    nom = {"omega": cx.positive("nom_omega"), "i": cx.positive("nom_i"), "u": cx.positive("nom_u")}
    if kind in ("extex", "shunt"):
        keys.update(i_a=cx.positive("lim_ia"), i_e=cx.positive("lim_ie"))
        nom.update(i_a=cx.positive("nom_ia"), i_e=cx.positive("nom_ie"))
    init = {"states": {n: (0.0 if zero or n.startswith("psi") else cx.real("init_" + n, typ=(-0.01, 0.01))) for n in names}}
    return dict(motor_parameter=motor_params(cx, kind), limit_values=keys, nominal_values=nom, motor_initializer=init)


def motor_observer(cx, kind):
    cls = MOTORS[kind][0]
    xs = motor_state(cx, kind)
    u, _ = motor_voltage(cx, kind)
    w = cx.real("w")

    def observe(m):
        yield "parameters", m.motor_parameter
        yield "initializer", m.initializer
        yield "limits", m.limits
        yield "nominal values", m.nominal_values
        yield "names", [list(m.CURRENTS), list(m.VOLTAGES), list(m.CURRENTS_IDX)]
        yield "equation", m.electrical_ode(xs.copy(), u.copy(), w)
        yield "torque", m.torque(xs.copy())
        yield "input current", m.i_in(xs.copy())
        if m.HAS_JACOBIAN:
            yield "jacobian", m.electrical_jacobian(xs.copy(), u.copy(), w)

    return observe


@contract("C23", cases=[(k, h) for k in MOTORS for h in ("all", "partial")], samples=10, targets=[EM + f"{c.__module__.rsplit('.', 1)[1]}.{c.__name__}.{m}" for c, _ in MOTORS.values() for m in ("__init__", "_update_model", "_update_limits")])
def motors(cx, kind, how):
    """two motors of a class: parameters, limits, nominal values, initialiser and equations of one never change the other's"""
    cls = MOTORS[kind][0]
    special = motor_special(cx, kind)
    if how == "partial":
        special = {"motor_parameter": {k: special["motor_parameter"][k] for k in list(special["motor_parameter"])[:1]}, "limit_values": {"i": special["limit_values"]["i"]}, "nominal_values": {"u": special["nominal_values"]["u"]}}
    isolate(cx, lambda: cls(), special, lambda a: cls(**a), motor_observer(cx, kind))


class Draws(Rng):
    """a stream of fixed numbers (the random walks and piecewise curves branch on every symbolic draw)"""

    def _one(self, kind, **kw):
        j = len(self.log)
        if self.replay is not None and j < len(self.replay):
            v = self.replay[j][1]
        else:
            g = np.random.default_rng([len(self.prefix), ord(self.prefix[0]), j])
            v = int(g.integers(kw["lo"], kw["hi"] + 1)) if kind == "int" else float(g.uniform(kw.get("lo", -1), kw.get("hi", kw.get("lt", 1))))
        self.log.append((kind, v))
        return v



# ------------------------------------------------------------------ loads
@contract("C23", cases=["poly", "const", "ext", "ou"], samples=10, targets=[G + f"physical_systems.mechanical_loads.{m}" for m in ("mechanical_load.MechanicalLoad.__init__", "mechanical_load.MechanicalLoad.reset", "mechanical_load.MechanicalLoad.set_j_rotor", "polynomial_static_load.PolynomialStaticLoad.__init__", "constant_speed_load.ConstantSpeedLoad.__init__", "external_speed_load.ExternalSpeedLoad.__init__", "ornstein_uhlenbeck_load.OrnsteinUhlenbeckLoad.__init__")])
def loads(cx, kind):
    """two loads of a class"""
    from gym_electric_motor.physical_systems import mechanical_loads as ml

    cls = {"poly": ml.PolynomialStaticLoad, "const": ml.ConstantSpeedLoad, "ext": ml.ExternalSpeedLoad, "ou": ml.OrnsteinUhlenbeckLoad}[kind]
    w0 = cx.real("w0", lo=-50, hi=50)
    par = {k: cx.positive("p_" + k) for k in ("a", "b", "c", "j_load")}
    init = {"states": {"omega": w0}}
    special = {
        "poly": dict(load_parameter=par, limits={"omega": cx.positive("lim")}, load_initializer=init),
        "const": dict(omega_fixed=cx.real("w_fix", gt=0, hi=50), load_initializer=init),
        "ext": dict(speed_profile=lambda t, amp, off: amp * t + off, speed_profile_kwargs={"amp": cx.real("amp"), "off": w0}, tau=1e-3),
        "ou": dict(mu=1.0, sigma=0.2, theta=0.5, tau=1e-3, omega_range=(-10.0, 10.0)),
    }[kind]
    dflt = {"ext": dict(speed_profile=lambda t, **kw: 3.0 * t + len(kw))}.get(kind, {})
    streams = {}

    def build(kw, tag):
        if kind != "ou":
            return cls(**kw)
        r = Draws(cx, tag)
        r.replay = list(streams.get(tag, []))
        x = with_rng(cls, r)(**kw)
        x.rng_, x.tag_ = r, tag
        return x

    space, pos, nom = Box(-1.0, 1.0, shape=(2,), dtype=np.float64), {"omega": 0, "torque": 1}, np.array([100.0, 5.0])
    j = cx.positive("j_rotor")
    w, t, tq = cx.array([cx.real("w", typ=(-10, 10))]), cx.nonneg("t"), cx.real("torque")

    def observe(x):
        if kind == "ou":
            x.rng_.replay = list(streams.get(x.tag_, [])) or None
            x.rng_.log, x.rng_.k = [], len(streams.get(x.tag_, []))
        x.set_j_rotor(j)
        yield "reset", x.reset(state_space=space, state_positions=dict(pos), nominal_state=nom.copy()), True
        yield "initializer", x.initializer
        yield "limits", x.limits
        yield "nominal values", x.nominal_values
        yield "inertia", x.j_total
        yield "names", list(x.state_names)
        yield "equation", x.mechanical_ode(t, w.copy(), tq)
        if x.HAS_JACOBIAN:
            yield "jacobian", x.mechanical_jacobian(t, w.copy(), tq)
        if kind == "ou" and len(x.rng_.log) > len(streams.get(x.tag_, [])):
            streams[x.tag_] = list(x.rng_.log)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        isolate(cx, lambda: build(dflt, "da"), special, lambda a: build(a, "sp"), observe, light=kind == "ou")


# ------------------------------------------------------------------ supplies
@contract("C23", cases=["ideal", "rc", "ac1", "ac3"], samples=10, targets=[G + "physical_systems.voltage_supplies." + c + ".__init__" for c in ("IdealVoltageSupply", "RCVoltageSupply", "AC1PhaseSupply", "AC3PhaseSupply")])
def supplies(cx, kind):
    """two supplies of a class"""
    from gym_electric_motor.physical_systems import voltage_supplies as vs

    cls = {"ideal": vs.IdealVoltageSupply, "rc": vs.RCVoltageSupply, "ac1": vs.AC1PhaseSupply, "ac3": vs.AC3PhaseSupply}[kind]
    special = {"u_nominal": cx.positive("u_nom", typ=(50, 300))}
    if kind == "rc":
        special["supply_parameter"] = {"R": cx.positive("R"), "C": cx.positive("C")}
    elif kind != "ideal":
        special["supply_parameter"] = {"frequency": cx.positive("f"), "phase": 0.5}
    dflt = {} if kind in ("ideal", "rc") else {"supply_parameter": {"frequency": 50.0, "phase": 0.25}}
    ts, i = [0.0, 1e-4, 3e-4], [cx.real(f"i{k}") for k in range(3)]

    def observe(x):
        yield "reset", x.reset(), True
        yield "nominal voltage", x.u_nominal
        yield "range", x.supply_range
        for k in range(3):
            yield f"voltage {k}", x.get_voltage(ts[k], i[k]), True
        yield "size", x.voltage_len

    isolate(cx, lambda: cls(**dflt), special, lambda a: cls(**a), observe)


# ------------------------------------------------------------------ converters
CONV = {"f1": "FiniteOneQuadrantConverter", "f2": "FiniteTwoQuadrantConverter", "f4": "FiniteFourQuadrantConverter", "fb6": "FiniteB6BridgeConverter", "c1": "ContOneQuadrantConverter", "c2": "ContTwoQuadrantConverter", "c4": "ContFourQuadrantConverter", "cb6": "ContB6BridgeConverter", "fm": "FiniteMultiConverter", "cm": "ContMultiConverter"}


@contract("C23", cases=[(k, p) for k in CONV for p in (0, 1)], samples=10, targets=[G + f"physical_systems.converters.{c}.{m}" for c in CONV.values() for m in ("__init__", "reset", "set_action", "convert", "i_sup")], merge=True)
def converters(cx, kind, p):
    """two converters of a class, their switching sequences interleaved"""
    from gym_electric_motor.physical_systems import converters as cv

    cls = getattr(cv, CONV[kind])
    il = cx.real("interlocking", lo=0, hi=5e-5)
    special = dict(tau=1e-3, interlocking_time=il)
    dflt = dict(tau=1e-4)
    if kind[1] == "m":
        sub = (cv.FiniteFourQuadrantConverter, cv.FiniteB6BridgeConverter) if kind == "fm" else (cv.ContFourQuadrantConverter, cv.ContB6BridgeConverter)

        def build(kw):
            return cls(subconverters=[c() for c in sub] if kw is dflt else [sub[1](), sub[0]()], **kw)

    else:

        def build(kw):
            return cls(**kw)

    # fixed, different action sequences and currents of fixed sign (one path): the two objects differ in the interlocking time
    seq = {"f1": [1, 0], "f2": [1, 2], "f4": [1, 2], "fb6": [5, 2], "c1": [[0.5], [0.25]], "c2": [[0.5], [0.25]], "c4": [[0.5], [-0.25]], "cb6": [[0.5, -0.25, 0.0], [0.1, 0.2, -0.3]]}

    def actions(x):
        if kind == "fm":
            return [[1, 5], [2, 2]] if int(x.action_space.nvec[0]) == 4 else [[5, 1], [2, 2]]
        if kind == "cm":
            return [[0.5, -0.25, 0.0, 0.1], [0.1, 0.2, -0.3, 0.7]]
        return seq[kind]

    cur = [3.0, -1.0, -2.0, 0.5] if p == 0 else [-3.0, 1.0, 2.0, -0.5]

    def observe(x):
        n = {"f1": 1, "f2": 1, "f4": 1, "c1": 1, "c2": 1, "c4": 1, "fb6": 3, "cb6": 3}.get(kind, 4)
        i = cur[:n]
        yield "reset", x.reset(), True
        yield "step", x.tau
        yield "ranges", [x.voltages, x.currents]
        yield "space", x.action_space
        for k, a in enumerate(actions(x)):
            t0 = 0.01 * k
            times = x.set_action(np.array(a) if isinstance(a, list) else a, t0)
            yield f"times {k}", list(times), True
            for q, t in enumerate(times):
                yield f"output {k}.{q}", x.convert(list(i), t), True
                yield f"supply current {k}.{q}", x.i_sup(list(i))

    isolate(cx, lambda: build(dflt), special, build, observe)


# ------------------------------------------------------------------ solver
@contract("C23", cases=[1, 3], samples=10, targets=[G + "physical_systems.solvers.EulerSolver." + m for m in ("__init__", "integrate", "set_initial_value", "set_system_equation", "set_f_params")])
def solvers(cx, n):
    """two Euler solvers: equation, parameters, time and state are per instance"""
    from gym_electric_motor.physical_systems.solvers import EulerSolver

    special = {"nsteps": n}
    ca, cb, h = cx.real("ca"), cx.real("cb"), cx.positive("h")
    y0 = cx.array([cx.real("y0"), cx.real("y1")])
    p = cx.real("p")

    def build(kw, c):
        s = EulerSolver(**kw)
        s.c_ = c
        return s

    def observe(s):
        s.set_system_equation(lambda t, y, u: np.array([s.c_ * y[1] + u, y[0] - y[1] * u], dtype=object if cx.symbolic else float))
        s.set_initial_value(y0, 0.0)
        s.set_f_params(p * s.c_)
        yield "start", [s.t, s.y]
        yield "first", s.integrate(h), True
        yield "second", s.integrate(2 * h), True
        yield "state", [s.t, s.y]

    isolate(cx, lambda: build({}, ca), special, lambda a: build(a, cb), observe)
    cx.ensure_eqs("the initial value handed in is not modified", list(y0), [cx.real("y0"), cx.real("y1")] if False else list(y0))


# ------------------------------------------------------------------ physical systems
def system_args(cx, kind, tag=""):
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    cls = MOTORS[kind][0]
    special = motor_special(cx, kind, zero=True)
    lp = {k: cx.positive("p_" + k) for k in ("a", "b", "c", "j_load")}
    return dict(motor=special, load=dict(load_parameter=lp, load_initializer={"states": {"omega": 0.0}}), supply=dict(u_nominal=cx.positive("u_nom", typ=(50, 300))), tau=cx.positive("tau", typ=(1e-4, 1e-3)))


class Solver(RecordingSolver):
    """OdeSolver contract: the solution is one arbitrary function of step, equal for equal inputs (here: one explicit Euler step)"""

    def set_initial_value(self, initial_value, t=0):
        super().set_initial_value(initial_value, t)

    def integrate(self, t):
        d = self.f(self.t, np.array(self.y, dtype=object), *self.params)
        self.y = np.array([a + (t - self.t) * b for a, b in zip(self.y, d)], dtype=np.asarray(self.y).dtype)
        self.t = t
        return self.y


@contract("C23", cases=list(MOTORS), samples=8, targets=[G + "physical_systems.physical_systems.SCMLSystem." + m for m in ("__init__", "reset", "simulate", "_set_indices")] + [G + "physical_systems.physical_systems." + c + ".simulate" for c in ("SynchronousMotorSystem", "ExternallyExcitedSynchronousMotorSystem", "SquirrelCageInductionMotorSystem", "DoublyFedInductionMotorSystem")])
def systems(cx, kind):
    """two physical systems of a class with different parts: metadata, states and trajectories"""
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    cls = MOTORS[kind][0]

    def build(kw):
        return system_class(kind)(converter=real_converter(kind), motor=cls(**kw.get("motor", {})), load=PolynomialStaticLoad(**kw.get("load", {})), supply=IdealVoltageSupply(**kw.get("supply", {})), ode_solver=Solver(), tau=kw.get("tau", 1e-4))

    na = real_converter(kind).action_space.shape[0]
    acts = [np.array([0.5, -0.25, 0.125, 0.3, -0.2, 0.1][:na]), np.array([-0.5, 0.25, 0.75, 0.3, 0.2, -0.1][:na])]

    def observe(s):
        yield "metadata", [s.limits, s.nominal_state, list(s.state_names), dict(s.state_positions), s.tau, s.state_space, s.action_space]
        yield "state after reset", s.reset(), True
        # special systems have symbolic parameters: their trajectories would need division-heavy comparisons; one step suffices
        yield "state 1", s.simulate(acts[0].copy()), True
        yield "step", s.k

    isolate(cx, lambda: build({}), system_args(cx, kind), build, observe)


# ------------------------------------------------------------------ reference generators
RG = ["const", "zero", "multiple", "switched"] + list(CLS)


@contract("C23", cases=RG, samples=10, merge=True, assumes=[SAW], targets=[G + "reference_generators." + m for m in ("const_reference_generator.ConstReferenceGenerator", "zero_reference_generator.ZeroReferenceGenerator", "multiple_reference_generator.MultipleReferenceGenerator", "switched_reference_generator.SwitchedReferenceGenerator", "subepisoded_reference_generator.SubepisodedReferenceGenerator")] + [f"{G}reference_generators.{m}.{c}" for m, c in CLS.values()])
def references(cx, kind):
    """two reference generators of a class on different systems"""
    from gym_electric_motor import reference_generators as rg

    names = ["omega", "torque", "i"]

    def ps(scale):
        s = StubSystem(cx, [], names, limits=[2.0 * scale, 3.0 * scale, 4.0 * scale], nominal=[1.0 * scale, 2.0 * scale, 3.0 * scale])
        return s

    sys_a, sys_b = ps(1.0), ps(2.0)
    logs = {}

    def rng_for(tag):
        r = (Rng if kind in ("sinus", "sawtooth", "switched") else Draws)(cx, tag)
        r.tag = tag
        return r

    def sub(cls, tag, **kw):
        r = rng_for(tag)
        x = with_rng(cls, r)(**kw)
        x.rngs_ = [r]
        return x

    lo, w = cx.real("lo", lo=-0.5, hi=0.2), cx.real("width", lo=0.1, hi=0.3)

    def build(kw):
        dflt = not kw
        tag = "da" if dflt else "sp"
        if kind == "const":
            x = rg.ConstReferenceGenerator(**({"reference_state": "i"} if dflt else kw))
            x.rngs_ = []
        elif kind == "zero":
            x = rg.ZeroReferenceGenerator()
            x.rngs_ = []
        elif kind in ("multiple", "switched"):
            value = 0.5 if dflt else kw["value"]
            if kind == "multiple":
                subs = [rg.ConstReferenceGenerator("i", value), rg.ConstReferenceGenerator("omega", value)]
                x = rg.MultipleReferenceGenerator(subs)
                x.rngs_ = []
            else:
                subs = [rg.ConstReferenceGenerator("i", value), rg.ConstReferenceGenerator("i", value + 0.1)]
                x = sub(rg.SwitchedReferenceGenerator, tag, sub_generators=subs, **({} if dflt else dict(p=kw["p"], super_episode_length=(1, 3))))
        else:
            x = sub(cls_of(kind), tag, **({"reference_state": "i", "episode_lengths": 1} if dflt else kw))
        x.tag_ = tag
        x.set_modules(sys_a if dflt else sys_b)
        return x

    special = {"const": dict(reference_state="torque", reference_value=lo), "zero": dict(some=0), "multiple": dict(value=lo), "switched": dict(value=lo, p=[0.25, 0.75])}.get(kind)
    if special is None:
        special = dict(reference_state="torque", episode_lengths=1, limit_margin=(-0.9, 0.9))
        if kind in ("wiener", "laplace"):
            special["sigma_range"] = [1e-2, 1e-1]
        else:
            special["frequency_range"] = [2, 20]
            special["amplitude_range"] = [0.1, 0.2]
            special["offset_range"] = [lo, lo + w]

    def observe(x):
        for r in x.rngs_:
            r.replay, r.log = list(logs[r.tag]) if r.tag in logs else None, []
        ref, obs, _ = x.reset(None, None)
        yield "names", [list(x.reference_names), np.asarray(x.referenced_states), x.reference_space]
        yield "reference", ref, True
        yield "observation", obs, True
        for k in range(2):
            yield f"reference {k}", x.get_reference(None), True
            yield f"observation {k}", x.get_reference_observation(None), True
        for r in x.rngs_:
            if r.tag not in logs:
                logs[r.tag] = list(r.log)

    with signal_stub(kind):
        isolate(cx, lambda: build({}), special, build, observe)


# ------------------------------------------------------------------ rewards and constraints
@contract("C23", cases=["default", "dict", "array"], samples=10, targets=[G + "reward_functions.weighted_sum_of_errors.WeightedSumOfErrors." + m for m in ("__init__", "set_modules", "reward")])
def rewards(cx, how):
    """two reward functions"""
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    names = ["a", "b"]
    w0, w1 = cx.positive("w0"), cx.positive("w1")
    weights = {"default": None, "dict": {"a": w0, "b": w1}, "array": cx.array([w0, w1])}[how]
    power = {"default": 1, "dict": {"a": 2, "b": 1}, "array": [2, 1]}[how]
    special = dict(reward_weights=weights, normed_reward_weights=how != "default", reward_power=power, gamma=0.5, bias=cx.real("bias"))
    st, rf, v = cx.vec("s", 2, typ=(-1, 1)), cx.vec("r", 2, typ=(-1, 1)), cx.real("violation", lo=0, hi=1)

    def build(kw):
        x = WeightedSumOfErrors(**kw)
        ps = StubSystem(cx, [], names, prefix="q")
        ref = StubReference(cx, [])
        ref.set_modules(ps)
        ref._referenced_states = np.array([True, True])
        from gym_electric_motor.core import ConstraintMonitor

        x.set_modules(ps, ref, ConstraintMonitor())
        return x

    def observe(x):
        x.reset(st, rf)
        yield "range", list(x.reward_range)
        yield "reward", x.reward(st, rf, violation_degree=0.0)
        yield "punished reward", x.reward(st, rf, violation_degree=v)

    isolate(cx, lambda: build({}), special, build, observe)


@contract("C23", cases=["limit", "squared"], samples=10, targets=[G + "constraints." + c + "." + m for c in ("LimitConstraint", "SquaredConstraint") for m in ("__init__", "set_modules", "__call__")])
def constraints(cx, kind):
    """two constraints of a class attached to different systems"""
    from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint

    cls = {"limit": LimitConstraint, "squared": SquaredConstraint}[kind]
    lim = [cx.positive(f"lim{i}") for i in range(3)]
    systems = {"a": (["a", "b", "c"], [1.0, 2.0, 3.0]), "b": (["c", "b", "a"], lim)}
    sts = cx.vec("x", 3, typ=(-1.4, 1.4))
    special = {"limit": dict(observed_state_names=["b", "a"]), "squared": dict(states=["b", "a"])}[kind]
    dflt = {"limit": {}, "squared": dict(states=("a", "b"))}[kind]

    def build(kw, tag):
        x = cls(**kw)
        ns, li = systems[tag]
        ps = StubSystem(cx, [], ns, limits=li)
        x.set_modules(ps)
        return x

    def observe(x):
        yield "degree", x(sts)

    isolate(cx, lambda: build(dflt, "a"), special, lambda a: build(a, "b"), observe)


@contract("C23", cases=["default", "max", "product"], samples=10, targets=[G + "core.ConstraintMonitor." + m for m in ("__init__", "set_modules", "check_constraints")])
def monitors(cx, how):
    """two constraint monitors; the given constraint lists are left alone"""
    from gym_electric_motor.core import ConstraintMonitor

    lim = [cx.positive(f"lim{i}") for i in range(3)]
    st = cx.vec("x", 3, typ=(-1.4, 1.4))
    special = dict(limit_constraints=["a", "c"], additional_constraints=[gem.constraints.SquaredConstraint(("a", "b"))], **({} if how == "default" else {"merge_violations": how}))

    def build(kw):
        x = ConstraintMonitor(**kw)
        x.set_modules(StubSystem(cx, [], ["a", "b", "c"], limits=lim if kw else [1.0, 2.0, 3.0]))
        return x

    def observe(x):
        yield "constraints", [type(c).__name__ for c in x.constraints]
        yield "degree", x.check_constraints(st)

    isolate(cx, lambda: build({}), special, build, observe)


# ------------------------------------------------------------------ wrappers
WRAP = ["dead", "cossin", "sum", "noise", "plain"]


@contract("C23", cases=WRAP, samples=10, merge=True, targets=[G + "physical_system_wrappers." + m for m in ("physical_system_wrapper.PhysicalSystemWrapper", "dead_time_processor.DeadTimeProcessor", "cos_sin_processor.CosSinProcessor", "current_sum_processor.CurrentSumProcessor", "state_noise_processor.StateNoiseProcessor")])
def wrappers(cx, kind):
    """two wrappers of a class around two systems; the wrapped system's own metadata and states stay as they are"""
    from gym_electric_motor import physical_system_wrappers as pw

    names = ["omega", "i_a", "i_b", "epsilon"]
    lim = [cx.positive(f"lim{i}") for i in range(4)]
    states = [cx.vec(f"x{i}_", 4, typ=(-1, 1)) for i in range(3)]
    logs = {}
    w = cx.array([cx.real("w0", lo=-1, hi=1)])

    class Sys(StubSystem):
        def reset(self, *a, **k):
            self._k = 0
            return states[0].copy()

        def simulate(self, action, *a, **k):
            self._k += 1
            self.actions.append(np.array(action))
            return states[self._k].copy()

    def inner(limits):
        return Sys(cx, [], names, limits=limits, action_space=Box(-1.0, 1.0, shape=(1,), dtype=np.float64))

    cfg = {
        "dead": (pw.DeadTimeProcessor, {}, dict(steps=2, reset_action=lambda: [np.array([0.5]), np.array([-0.5])])),
        "cossin": (pw.CosSinProcessor, {}, dict(angle="epsilon", remove_angle=True)),
        "sum": (pw.CurrentSumProcessor, dict(currents=["i_a", "i_b"]), dict(currents=["i_b", "i_a"], limit="sum")),
        "noise": (pw.StateNoiseProcessor, dict(states=["i_a"]), dict(states=["omega", "i_b"], random_dist="uniform", random_kwargs={"low": -0.25, "high": 0.25}, random_length=1)),
        "plain": (pw.PhysicalSystemWrapper, {}, dict()),
    }[kind]
    cls, dflt, special = cfg

    def build(kw):
        tag = "da" if kw is dflt else "sp"
        r = Rng(cx, tag)
        r.tag = tag
        x = (with_rng(cls, r) if kind == "noise" else cls)(**kw)
        s = inner([2.0, 3.0, 5.0, 7.0] if tag == "da" else lim)
        watch = Watch()
        for what in ("limits", "nominal_state", "state_names", "state_positions", "state_space", "action_space"):
            watch.add("inner " + what, getattr(s, what))
        x.set_physical_system(s)
        watch.check(cx, "by wrapping the system")
        again = inner([2.0, 3.0, 5.0, 7.0] if tag == "da" else lim)
        for what in ("limits", "nominal_state", "state_names", "state_positions", "state_space", "action_space"):
            same(cx, f"{what} of the wrapped system as of an unwrapped one", freeze(getattr(s, what)), freeze(getattr(again, what)))
        x.rng_ = r
        return x

    acts = [w, -w]

    def observe(x):
        r = x.rng_
        r.replay, r.log = list(logs[r.tag]) if r.tag in logs else None, []
        s = x.physical_system
        n0 = len(s.actions)
        yield "reset", x.reset(), True
        yield "metadata", [x.limits, x.nominal_state, list(x.state_names), dict(x.state_positions), x.state_space, x.action_space, x.tau]
        yield "inner metadata", [s.limits, s.nominal_state, list(s.state_names), dict(s.state_positions), s.state_space, s.action_space]
        for k in range(2):
            yield f"state {k}", x.simulate(acts[k].copy()), True
            yield f"inner action {k}", s.actions[-1], True
        yield "steps", x.k
        if r.tag not in logs:
            logs[r.tag] = list(r.log)

    isolate(cx, lambda: build(dflt), special, build, observe)
    for s in states:
        cx.ensure("states handed to the wrapper", len(s) == 4)


# ------------------------------------------------------------------ the environment itself
class Quiet(StubReference):
    """reference generator with a fixed course"""

    def __init__(self, cx, value):
        super().__init__(cx, [])
        self.value = value

    def _ref(self):
        return np.array([self.value] + [0 * self.value] * (self.n - 1), dtype=object if self.cx.symbolic else float)

    def _obs(self):
        return np.array([self.value], dtype=object if self.cx.symbolic else float)


class Even(StubReward):
    def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
        return state[0] - reference[0] - violation_degree


@contract("C23", cases=["plain", "filter", "wrapped"], samples=10, targets=[G + "core.ElectricMotorEnvironment." + m for m in ("__init__", "reset", "step", "limits", "state_names", "nominal_state")])
def environments(cx, how):
    """two environments: spaces, names, limits, simulation data, callbacks and episodes; argument lists are left alone"""
    from gym_electric_motor.core import Callback, ElectricMotorEnvironment
    from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, PhysicalSystemWrapper

    lim = [cx.positive(f"lim{i}") for i in range(3)]
    ta, tb = 1e-3, cx.positive("tau", typ=(1e-4, 1e-2))
    states = [cx.array([cx.real(f"x{i}_{j}", lo=-1, hi=1) for j in range(3)]) for i in range(3)]
    va, vb = cx.real("va"), cx.real("vb")

    class Sys(StubSystem):
        def reset(self, *a, **k):
            self._k = 0
            return states[0].copy()

        def simulate(self, action, *a, **k):
            self._k += 1
            self.actions.append(np.array(action))
            return states[self._k].copy()

    class Count(Callback):
        def __init__(self):
            super().__init__()
            self.n = 0

        def on_step_begin(self, k, action):
            self.n += 1

    special = dict(state_filter=["c", "a"] if how == "filter" else None, constraints=["b"], visualization=[], callbacks=[Count()], physical_system_wrappers=[PhysicalSystemWrapper(), DeadTimeProcessor(steps=1)] if how == "wrapped" else [])

    def build(kw):
        d = not kw
        s = Sys(cx, [], ["a", "b", "c"], limits=[1.0, 2.0, 3.0] if d else lim, tau=ta if d else tb)
        s._tau = ta if d else tb
        if "physical_system_wrappers" in kw and kw["physical_system_wrappers"]:
            kw = dict(kw, physical_system_wrappers=list(kw["physical_system_wrappers"]))
        env = ElectricMotorEnvironment(s, Quiet(cx, va if d else vb), Even(cx, []), **(dict(constraints=("a",)) if d else kw))
        env.stub_ = s
        return env

    def observe(e):
        yield "metadata", [list(e.state_names), e.limits, e.nominal_state, e.observation_space, e.action_space, list(e.reference_names), list(e.reward_range)]
        n = len(e.stub_.actions)
        yield "time step", [e.sim.tau if hasattr(e, "sim") else None, e.physical_system.tau]
        (s, r), info = e.reset()
        yield "initial observation", [s, r], True
        for k in range(2):
            a = np.array([0.25, -0.25 * k])
            (s, r), w, term, trunc, info = e.step(a)
            yield f"observation {k}", [s, r], True
            yield f"reward {k}", [w, bool(term), bool(trunc)]
            yield f"action {k}", e.stub_.actions[-1], True
            cx.ensure("the action handed in is not modified", float(a[0]) == 0.25 and float(a[1]) == -0.25 * k)
        yield "steps", len(e.stub_.actions) - n

    isolate(cx, lambda: build({}), special, build, observe, light=how == "wrapped")


# ------------------------------------------------------------------ utils
@contract("C23", cases=["initialize", "update", "array", "dict"], samples=5, targets=[G + "utils." + f for f in ("initialize", "update_parameter_dict", "set_state_array", "state_dict_to_state_array")])
def utils(cx, fn):
    """the shared helpers leave the dictionaries, lists and arrays they are given alone"""
    from gym_electric_motor import utils as u

    a, b, c = cx.real("a"), cx.real("b"), cx.real("c")
    watch = Watch()

    class Base:
        def __init__(self, **kw):
            self.kw = kw

    if fn == "initialize":
        args, arg = watch.add("defaults", {"x": a, "y": b}), watch.add("arguments", {"y": c, "z": a})
        one = u.initialize(Base, arg, Base, args)
        two = u.initialize(Base, None, Base, args)
        cx.ensure("merged names", sorted(one.kw) == ["x", "y", "z"] and sorted(two.kw) == ["x", "y"])
        cx.ensure_eqs("merged values", [one.kw["x"], one.kw["y"], one.kw["z"], two.kw["x"], two.kw["y"]], [a, c, a, a, b])
        cx.ensure("an instance is used as it is", u.initialize(Base, one, Base, args) is one)
    elif fn == "update":
        src, upd = watch.add("source", {"x": a, "y": b}), watch.add("update", {"y": c})
        new = u.update_parameter_dict(src, upd)
        cx.ensure("a new dictionary", new is not src and new is not upd)
        cx.ensure_eqs("merged", [new["x"], new["y"]], [a, c])
        new["x"] = 7
        bad = False
        try:
            u.update_parameter_dict(src, watch.add("bad update", {"q": c}))
        except KeyError:
            bad = True
        cx.ensure("unknown keys are rejected", bad)
    elif fn == "array":
        names = watch.add("names", ["p", "q"])
        vals = watch.add("values", [a, b])
        if not cx.symbolic:
            out = u.set_state_array(vals, names)
            cx.ensure_eqs("list", list(out), [a, b])
            out[0] = 5.0
        d = watch.add("dict values", {"q": b})
        if not cx.symbolic:
            cx.ensure_eqs("dict", list(u.set_state_array(d, names)), [0.0, b])
    else:
        names, d = watch.add("names", ["p", "q"]), watch.add("states", {"Q": b})
        out = cx.array([a, a])
        u.state_dict_to_state_array(d, out, names)
        cx.ensure_eqs("mapped", list(out), [a, b])
    watch.check(cx, "by the helper")


# ------------------------------------------------------------------ the registered environment classes
SHARED = "default constraint instances are shared by all environments of a class"


def env_class(env_id):
    import gymnasium

    entry = gymnasium.registry[env_id].entry_point
    if callable(entry):
        return entry
    import importlib

    mod, name = entry.split(":")
    return getattr(importlib.import_module(mod), name)


def defaults_of(cls):
    import inspect

    return {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items() if p.default is not inspect.Parameter.empty}


@contract("C23", cases=env_ids(), samples=2, targets=["gym_electric_motor.envs.*.__init__", G + "utils.initialize", G + "core.ElectricMotorEnvironment.__init__"])
def classes(cx, env_id):
    """every registered environment class: an instance built with special arguments leaves earlier and later default instances and the arguments alone"""
    cls = env_class(env_id)
    il = 0.0 if "Finite" not in env_id else 1e-6
    u = cx.real("u_nom", gt=10, typ=(50, 400))
    tau = cx.real("tau", gt=1e-6, typ=(1e-5, 1e-3))
    d = defaults_of(cls)

    def default():
        return cls(visualization=())

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with cx.unchecked():
            probe = default()
            inner = probe.physical_system.unwrapped
            mp = {k: (v if k == "p" else v * cx.real("scale_" + k, lo=0.9, hi=1.1)) for k, v in inner.electrical_motor.motor_parameter.items() if k in type(inner.electrical_motor)._default_motor_parameter} if hasattr(type(inner.electrical_motor), "_default_motor_parameter") else {}
        lim = {k: cx.positive("lim_" + k, typ=(10, 100)) for k in ("omega", "torque")}
        names = list(probe.state_names)
        special = dict(
            supply=dict(u_nominal=u),
            converter=dict(interlocking_time=il),
            motor=dict(motor_parameter=mp, limit_values=lim, nominal_values={"omega": cx.positive("nom_omega", typ=(5, 9))}),
            load=dict(load_initializer={"states": {"omega": 0.0}}),
            state_filter=names[::-1],
            tau=tau,
            constraints=[names[1]],
            visualization=[],
            callbacks=[],
        )

        def observe(e):
            ps = e.physical_system
            un = ps.unwrapped
            yield "metadata", [list(e.state_names), e.limits, e.nominal_state, list(e.reference_names), list(e.reward_range), list(e.observation_space), e.action_space], True
            yield "system metadata", [list(ps.state_names), dict(ps.state_positions), ps.limits, ps.nominal_state, ps.tau], True
            yield "parameters", un.electrical_motor.motor_parameter
            yield "motor values", [un.electrical_motor.limits, un.electrical_motor.nominal_values, un.electrical_motor.initializer]
            yield "load", [un.mechanical_load.limits, un.mechanical_load.nominal_values, un.mechanical_load.initializer, un.mechanical_load.j_total]
            yield "supply", [un.supply.u_nominal, list(un.supply.supply_range)]
            yield "converter", [un.converter.tau, list(np.asarray(un.converter.reset(), dtype=object).reshape(-1))]

        isolate(cx, default, special, lambda a: cls(**a), observe, light=True)
        now = defaults_of(cls)
        for k, v in d.items():
            cx.ensure(f"the default of {k} is the same object", now[k] is v)


def special_args(env_id, probe):
    inner = probe.physical_system.unwrapped
    names = list(probe.state_names)
    mp = {k: (v if k == "p" else 1.3 * v) for k, v in inner.electrical_motor.motor_parameter.items() if k in inner.electrical_motor._default_motor_parameter}
    return dict(supply=dict(u_nominal=123.0), motor=dict(motor_parameter=mp, limit_values=dict(omega=777.0, torque=9.0), nominal_values=dict(omega=666.0)),
                state_filter=names[::-1], constraints=[names[1]], visualization=[], callbacks=[], tau=3e-4)


@contract("C23", cases=env_ids(), mode="bounded", samples=2, targets=["every registered environment class"])
def registered(cx, env_id):
    """two episodes of a default environment are the same alone, interleaved with a specially configured one of its class, and afterwards"""
    if cx.symbolic:
        return
    seed = int(cx.int("seed", lo=0, hi=10**6))
    cls = env_class(env_id)
    watch = Watch()

    def run(other=None):
        env = cls(visualization=())
        if other is not None:
            other = cls(**other)
            other.reset(seed=seed + 1)
            other.action_space.seed(2)
        env.action_space.seed(1)
        out, raw = [], []
        for e in range(2):
            (s, r), _ = env.reset(**({"seed": seed} if e == 0 else {}))
            raw.append((s, r))
            out.append(np.concatenate([s, r]))
            for k in range(6):
                if other is not None and other.step(other.action_space.sample())[2]:
                    other.reset()
                (s, r), w, term, _, _ = env.step(env.action_space.sample())
                raw.append((s, r))
                out.append(np.concatenate([s, r, [w, term]]))
                if term:
                    break
        kept = all(np.array_equal(np.concatenate([s, r]), o[: len(s) + len(r)]) for (s, r), o in zip(raw, out))
        cx.ensure("observations handed out earlier are not modified", bool(kept))
        return out

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        alone = run()
        args = watch.add("arguments", special_args(env_id, cls(visualization=())))
        mixed = run(args)
        watch.check(cx, "by the run")
        later = run()
        cx.ensure("same length", len(alone) == len(mixed) == len(later))
        for k, (a, b, c) in enumerate(zip(alone, mixed, later)):
            cx.ensure(f"observation {k} interleaved", bool(np.array_equal(a, b)))
            cx.ensure(f"observation {k} afterwards", bool(np.array_equal(a, c)))


def shared_ids():
    from gym_electric_motor.constraints import Constraint

    return [i for i in env_ids() if any(isinstance(c, Constraint) for c in defaults_of(env_class(i)).get("constraints", ()))]


def constraint_course(cx, env, states):
    return [float(env.constraint_monitor.check_constraints(np.array(s))) for s in states]


@contract("C23", cases=shared_ids(), mode="bounded", samples=3, targets=["gym_electric_motor.envs.*.__init__ (default constraints)"])
def default_constraints(cx, env_id):
    """the constraints of a default environment, after a second one of its class with other parameters (same states) was built"""
    if cx.symbolic:
        return
    cls = env_class(env_id)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = cls(visualization=())
        n = len(a.physical_system.state_names)
        rng = np.random.default_rng(int(cx.int("seed", lo=0, hi=10**6)))
        states = [rng.uniform(-1.1, 1.1, n) for _ in range(40)]
        ref = constraint_course(cx, a, states)
        b = cls(visualization=(), motor=dict(limit_values=dict(i=17.0, omega=900.0)), supply=dict(u_nominal=77.0))
        b.reset()
        cx.ensure("violation degree of the first environment", constraint_course(cx, a, states) == ref)


@contract("C23", cases=shared_ids(), mode="bounded", samples=2, targets=["gym_electric_motor.envs.*.__init__ (default constraints)"])
def default_constraints_positions(cx, env_id):
    """the same, when the second environment has its states at other positions (a wrapper that removes the angle)"""
    from gym_electric_motor.physical_system_wrappers import CosSinProcessor

    if cx.symbolic:
        return
    cls = env_class(env_id)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = cls(visualization=())
        n = len(a.physical_system.state_names)
        rng = np.random.default_rng(int(cx.int("seed", lo=0, hi=10**6)))
        states = [rng.uniform(-1.1, 1.1, n) for _ in range(60)]
        ref = constraint_course(cx, a, states)
        first = a.physical_system.state_names[0]
        b = cls(visualization=(), physical_system_wrappers=(CosSinProcessor(angle=first, remove_angle=True),), reference_generator=gem.reference_generators.ConstReferenceGenerator("i_sd", 0.0), reward_function=gem.reward_functions.WeightedSumOfErrors(reward_weights={"i_sd": 1.0}))
        try:
            now = constraint_course(cx, a, states)
        except IndexError:  # the indices of the other environment do not even fit
            now = None
        cx.ensure("default constraint instances are not shared", now == ref)
