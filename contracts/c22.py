"""C22 equal seeds give identical episodes; every random component draws only from its own seeded generator."""
import contextlib
import random
import warnings

import numpy as np

import gym_electric_motor as gem
from vc.engine import contract

from .c14 import STATES, TN, currents_nominal, fixture
from .c17 import env_ids
from .c19 import CLS, PERIODIC, SAW, cls_of, signal_stub, system
from .common import AC, DC, MOTORS, RecordingSolver, patched, real_converter, system_class
from .envstub import StubReference, StubReward, StubSystem
from .rng import Rng, with_rng

G = "gym_electric_motor."
RC = [G + "random_component.RandomComponent." + m for m in ("__init__", "seed", "next_generator", "random_generator", "seed_sequence")]
ENV = [G + "core.ElectricMotorEnvironment._seed", G + "core.ElectricMotorEnvironment.reset"]
SYS = [G + "physical_systems.physical_systems.SCMLSystem.seed"]
WR = [G + "physical_system_wrappers.physical_system_wrapper.PhysicalSystemWrapper." + m for m in ("seed", "reset")]
SEQ = "numpy.random.SeedSequence / default_rng are external: spawn() is assumed to return a new, independent child at every call that depends only on the parent and the number of earlier spawns; default_rng(child) to be determined by the child"


# ------------------------------------------------------------------ the protocol of RandomComponent over an abstract seed sequence
class Seq:
    """abstract numpy SeedSequence: a node of a tree, identified by its path"""

    roots = 0

    def __init__(self, entropy=None, path=None):
        if path is None:
            if entropy is None:
                Seq.roots += 1
                entropy = ("os", Seq.roots)
            path = (entropy,)
        self.path, self.entropy, self.n = path, path[0], 0

    def spawn(self, n):
        self.n += n
        return [Seq(path=self.path + (i,)) for i in range(self.n - n, self.n)]


class Gen:
    def __init__(self, seq):
        self.seq = seq


class FakeRandom:
    SeedSequence = Seq
    Generator = Gen

    @staticmethod
    def default_rng(seq=None):
        assert isinstance(seq, Seq), "a generator that is not derived from the seed sequence"
        return Gen(seq)


class FakeNumpy:
    random = FakeRandom

    def __getattr__(self, n):
        if n == "random":
            return FakeRandom
        return getattr(np, n)


def fake_numpy():
    from gym_electric_motor import random_component

    return patched((random_component, "np", FakeNumpy()))


@contract("C22", cases=[(n, m) for n in (0, 1, 3) for m in (0, 2)], targets=RC, assumes=[SEQ])
def random_component(cx, n, m):
    """the generator of episode k is determined by the seed and k alone; all generators of a component differ"""
    with fake_numpy():
        used = []
        c, d = gem.RandomComponent(), gem.RandomComponent()
        cx.ensure("unseeded components differ", c.seed_sequence.path != d.seed_sequence.path)
        for x in (c, d):
            cx.ensure("initial generator belongs to the own sequence", x.random_generator.seq.path[:1] == x.seed_sequence.path[:1])
            cx.ensure("a child, not the sequence itself", len(x.random_generator.seq.path) > len(x.seed_sequence.path))
        for _ in range(m):  # some history of the second component
            d.next_generator()
        s1, s2 = Seq(("user", 1)), Seq(("user", 1))
        ret = c.seed(s1)
        d.seed(s2)
        cx.ensure("the sequence passed is the component's sequence", c.seed_sequence is s1)
        cx.ensure("the entropy is returned", ret is None or ret[0] == s1.entropy)
        for k in range(n + 1):
            g, h = c.random_generator, d.random_generator
            cx.ensure("same seed, same episode: same generator", g.seq.path == h.seq.path)
            cx.ensure("reading the property twice changes nothing", c.random_generator is g)
            cx.ensure("derived from the seed", g.seq.path[0] == ("user", 1) and len(g.seq.path) > 1)
            used.append(g.seq.path)
            c.next_generator()
            d.next_generator()
        used.append(c.random_generator.seq.path)
        cx.ensure("a new generator for every episode", len(set(used)) == len(used))
        d.seed(Seq(("user", 2)))
        cx.ensure("another seed, other generator", d.random_generator.seq.path not in used and d.random_generator.seq.path[0] == ("user", 2))
        for _ in range(n):
            d.next_generator()
        c.seed()
        d.seed()
        cx.ensure("without a seed: new entropy", c.seed_sequence.path != d.seed_sequence.path and c.seed_sequence.path[0] not in (("user", 1), ("user", 2)))


# ------------------------------------------------------------------ seeding of the environment and the systems
class Seeded(gem.RandomComponent):
    """component contract: records the sequences it is seeded with"""

    def __init__(self, log=None, name=""):
        gem.RandomComponent.__init__(self)
        self.seeds, self.log, self.name = [], log, name

    def seed(self, seed=None):
        self.seeds.append(seed)
        if self.log is not None:
            self.log.append((self.name + ".seed", seed))
        return super().seed(seed)


def mixin(cls):
    class Sub(cls, Seeded):
        def __init__(self, *a, name="", **k):
            Seeded.__init__(self, None, name)
            cls.__init__(self, *a, **k)

    Sub.__name__ = cls.__name__
    return Sub


def distinct(cx, name, seqs, entropy):
    cx.ensure(name + ": seed sequences", all(isinstance(s, np.random.SeedSequence) for s in seqs))
    if not all(isinstance(s, np.random.SeedSequence) for s in seqs):
        return None
    states = [tuple(int(v) for v in s.generate_state(4)) for s in seqs]
    cx.ensure(name + ": no stream is used twice", len(set(states)) == len(states))
    cx.ensure(name + ": derived from the seed", all(s.entropy == entropy for s in seqs))
    return states


@contract("C22", cases=[(r, n) for r in ("all", "system", "reference", "none") for n in (0, 2)], targets=ENV, assumes=[SEQ], samples=10)
def environment_seeding(cx, which, n):
    """reset(seed) seeds every random component with its own child before anything is reset; reset() keeps the generators"""
    log = []
    pick = lambda cls, name: mixin(cls) if which in ("all", name) else cls
    from gym_electric_motor.core import Callback

    ps = pick(StubSystem, "system")(cx, log, ["a", "b"])
    rg = pick(StubReference, "reference")(cx, log)
    rw = pick(StubReward, "reward")(cx, log)
    cbs = [pick(Callback, "callbacks")() for _ in range(n)]
    env = gem.core.ElectricMotorEnvironment(ps, rg, rw, callbacks=cbs)
    comps = [c for c in (ps, rg, rw, *cbs) if isinstance(c, Seeded)]
    for c in comps:
        c.log = log
    base = [len(c.seeds) for c in comps]
    env.reset()
    cx.ensure("a reset without seed keeps the generators", [len(c.seeds) for c in comps] == base)
    seen = []
    for s in (5, 5, 6, 0, 0, 2**40):
        log.clear()
        env.reset(seed=s)
        cx.ensure("every random component seeded exactly once", all(len(c.seeds) == base[i] + len(seen) + 1 for i, c in enumerate(comps)))
        if not all(len(c.seeds) == base[i] + len(seen) + 1 for i, c in enumerate(comps)):
            return
        ev = [x[0] for x in log]
        seeds = [i for i, e in enumerate(ev) if e.endswith(".seed")]
        resets = [i for i, e in enumerate(ev) if e.endswith(".reset")]
        cx.ensure("seeding before any component is reset", not seeds or not resets or max(seeds) < min(resets))
        seen.append(distinct(cx, f"seed {s}", [c.seeds[-1] for c in comps], s))
    if None in seen:
        return
    cx.ensure("equal seeds, equal streams", seen[0] == seen[1] and seen[3] == seen[4])
    for i in (2, 3, 5):
        for j in (0, 2, 3, 5):
            if j < i:
                cx.ensure("different seeds, different streams", not set(seen[i]) & set(seen[j]))


@contract("C22", cases=[(k, s) for k in MOTORS for s in ("ideal", "ac1") if s == "ideal" or k in DC], targets=SYS, assumes=[SEQ])
def system_seeding(cx, kind, supply):
    """motor, load and supply of every system receive their own children of the system's seed"""
    from gym_electric_motor.physical_systems import voltage_supplies as vs
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad

    m, load = mixin(MOTORS[kind][0])(), mixin(PolynomialStaticLoad)()
    sup = vs.IdealVoltageSupply(u_nominal=100.0) if supply == "ideal" else mixin(vs.AC1PhaseSupply if supply == "ac1" else vs.AC3PhaseSupply)()
    s = system_class(kind)(converter=real_converter(kind), motor=m, load=load, supply=sup, ode_solver=RecordingSolver(), tau=1e-4)
    comps = [c for c in (m, load, sup) if isinstance(c, Seeded)]
    seen = []
    for e in (11, 11, 12):
        n = [len(c.seeds) for c in comps]
        s.seed(np.random.SeedSequence(e))
        cx.ensure("each component seeded once", [len(c.seeds) for c in comps] == [k + 1 for k in n])
        if [len(c.seeds) for c in comps] != [k + 1 for k in n]:
            return
        st = distinct(cx, f"seed {e}", [c.seeds[-1] for c in comps], e)
        if st is None:
            return
        own = tuple(s.random_generator.random(3))
        cx.ensure("the system's own stream is another one", all(own != tuple(c.random_generator.random(3)) for c in comps))
        seen.append(st)
    cx.ensure("equal seeds, equal streams", seen[0] == seen[1])
    cx.ensure("different seeds, different streams", not set(seen[0]) & set(seen[2]))


@contract("C22", cases=[(n, r) for n in (1, 2, 3) for r in ("random", "plain")], targets=WR, assumes=[SEQ], samples=5)
def wrapper_seeding(cx, n, inner):
    """a stack of wrappers: every wrapper and the inner system get their own streams"""
    from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper

    sysm = (mixin(StubSystem) if inner == "random" else StubSystem)(cx, [], ["a", "b"])
    stack, s = [], sysm
    for _ in range(n):
        s = PhysicalSystemWrapper().set_physical_system(s)
        stack.append(s)
    seen = []
    for e in (3, 3, 4):
        s.seed(np.random.SeedSequence(e))
        draws = [tuple(w.random_generator.random(3)) for w in stack]
        if inner == "random":
            cx.ensure("the inner system is seeded", bool(sysm.seeds))
            if not sysm.seeds:
                return
            draws.append(tuple(sysm.random_generator.random(3)))
        cx.ensure("different streams", len(set(draws)) == len(draws))
        s.reset()
        after = [tuple(w.random_generator.random(3)) for w in stack]
        cx.ensure("a new stream per episode", not set(after) & set(draws) and len(set(after)) == len(after))
        seen.append((draws, after))
    cx.ensure("equal seeds, equal streams", seen[0] == seen[1])
    cx.ensure("different seeds, different streams", not set(seen[0][0]) & set(seen[2][0]))


COMPOSED = [G + f"reference_generators.{m}.seed" for m in ("multiple_reference_generator.MultipleReferenceGenerator", "switched_reference_generator.SwitchedReferenceGenerator")]


@contract("C22", cases=[(k, n) for k in ("multiple", "switched", "nested") for n in (1, 2, 3)], targets=COMPOSED, assumes=[SEQ], samples=5)
def composed_seeding(cx, kind, n):
    """every random part of a composed reference generator, also of a nested one, gets its own stream"""
    from gym_electric_motor.reference_generators import MultipleReferenceGenerator, SwitchedReferenceGenerator

    class Part(Seeded, gem.ReferenceGenerator):
        def __init__(self, name):
            Seeded.__init__(self)
            gem.ReferenceGenerator.__init__(self)
            self._reference_names = [name]

    parts = [Part("s" if kind == "switched" else f"s{i}") for i in range(n)]
    if kind == "multiple":
        g = MultipleReferenceGenerator(list(parts))
    elif kind == "switched":
        g = SwitchedReferenceGenerator(list(parts))
    else:
        extra = [Part("t") for _ in range(2)]
        g = MultipleReferenceGenerator(parts + [SwitchedReferenceGenerator(list(extra))])
        parts = parts + extra
    seen = []
    for e in (21, 21, 22):
        before = [len(c.seeds) for c in parts]
        g.seed(np.random.SeedSequence(e))
        cx.ensure("each part seeded once", [len(c.seeds) for c in parts] == [k + 1 for k in before])
        if [len(c.seeds) for c in parts] != [k + 1 for k in before]:
            return
        st = distinct(cx, f"seed {e}", [c.seeds[-1] for c in parts], e)
        if st is None:
            return
        draws = [tuple(c.random_generator.random(3)) for c in [g] + parts]
        cx.ensure("all draw different numbers", len(set(draws)) == len(draws))
        seen.append(st)
    cx.ensure("equal seeds, equal streams", seen[0] == seen[1])
    cx.ensure("different seeds, different streams", not set(seen[0]) & set(seen[2]))


# ------------------------------------------------------------------ self composition: same streams, same behaviour
class Streams(Rng):
    """random generators of the episodes of one component: draw number i of generator g is an arbitrary value, the same for every
    component that shares `memo`"""

    def __init__(self, cx, prefix, memo=None):
        super().__init__(cx, prefix)
        self.memo, self._gen = memo if memo is not None else {}, 0

    generations = property(lambda self: self._gen, lambda self, v: self._next(v))

    def _next(self, v):
        if v:
            self._gen, self.k = v, 0

    def seeded(self, prefix, memo):
        self.prefix, self.memo, self._gen, self.k = prefix, memo, 0, 0

    def _value(self, kind, make):
        key = (self._gen, self.k, kind)
        if key not in self.memo:
            self.memo[key] = make(f"{self.prefix}g{self._gen}_{self.k}_{kind}")
        self.k += 1
        return self.memo[key]

    def _one(self, kind, **kw):
        if kind == "int":
            return self._value(kind + f"{kw['lo']}_{kw['hi']}", lambda n: self.cx.int(n, lo=kw["lo"], hi=kw["hi"]))
        return self._value(kind, lambda n: self.cx.real(n, **kw))

    def choice(self, a, size=None, replace=True, p=None, **_):
        opts = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        i = self._value(f"choice{len(opts)}", lambda n: self.cx.choice(n, list(range(len(opts)))))
        return opts[i] if size is None else [opts[i]] * int(np.prod(size))


class TruncNorm:
    """scipy.stats.truncnorm: values between the bounds, drawn from the given random state only"""

    def __init__(self, cx):
        self.cx = cx

    def rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        cx = self.cx
        cx.ensure("truncated normal values are drawn from the component's generator", isinstance(random_state, Streams))
        rng = random_state if isinstance(random_state, Streams) else Streams(cx, "foreign%d" % id(self))
        n = int(np.prod(size)) if size is not None else 1
        at = lambda x, k: np.asarray(x, dtype=object).reshape(-1)[k if np.size(x) > 1 else 0]
        out = []
        for k in range(n):
            u = rng._one("truncnorm", lo=0, hi=1)
            lo, hi = at(a, k), at(b, k)
            out.append(at(loc, k) + at(scale, k) * (lo + (hi - lo) * u))
        return cx.array(out)


@contextlib.contextmanager
def externals(cx, kind=None):
    import scipy.stats as st

    from gym_electric_motor.physical_systems.electric_motors import electric_motor
    from gym_electric_motor.physical_systems.mechanical_loads import mechanical_load

    stub = TruncNorm(cx)
    mods = [(m, "truncnorm", stub) for m in (electric_motor, mechanical_load) if hasattr(m, "truncnorm")]
    state, pstate = np.random.get_state(), random.getstate()
    with patched((st, "truncnorm", stub), *mods), signal_stub(kind) if kind else contextlib.nullcontext():
        yield
    same = all(np.array_equal(x, y) for x, y in zip(state, np.random.get_state())) and pstate == random.getstate()
    cx.ensure("the global random state is untouched", same)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [v for v in np.asarray(x, dtype=object).reshape(-1)]


def compose(cx, build, episode, short=False):
    """A: arbitrary history, then seeded.  B: new, seeded.  Both see the same streams; B's first episode is longer."""
    memo = {}
    ra, rb = Streams(cx, "a_new_"), Streams(cx, "b_new_")
    a = build(ra)
    ra.seeded("a_hist_", {})
    n = 1 if short else 2
    episode(a, n, 0)
    ra.seeded("", memo)
    out_a = [flat(episode(a, 1, 1)), flat(episode(a, n, 2))]
    b = build(rb)
    rb.seeded("", memo)
    out_b = [flat(episode(b, n + 1, 1)), flat(episode(b, n, 2))]
    cx.ensure_eqs("first episode after seeding", out_b[0][: len(out_a[0])], out_a[0])
    cx.ensure_eqs("second episode, whatever the length of the first", out_b[1], out_a[1])


INIT = [("uniform", None), ("uniform", "interval"), ("gaussian", None)]


@contract("C22", cases=[(k, d, i) for k in MOTORS for d, i in INIT], targets=[G + "physical_systems.electric_motors.electric_motor.ElectricMotor." + m for m in ("initialize", "reset")] + [G + "physical_systems.electric_motors.synchronous_motor.SynchronousMotor.reset", G + "physical_systems.electric_motors.induction_motor.InductionMotor.reset"], assumes=[TN, SEQ], samples=15, merge=True)
def motor(cx, kind, dist, interval):
    """random initial motor states are a function of the own stream only"""
    nom = currents_nominal(cx, kind)
    n = len(STATES[kind])
    init = {"random_init": dist}
    omega = cx.real("omega", typ=(1, 100), gt=0)

    def build(rng):
        with cx.unchecked():
            return fixture(cx, kind, dict(motor_initializer=dict(init), nominal_values=dict(nom)), rng=rng)

    def episode(c, steps, no):
        m, load, s = c
        out = m.reset(state_space=s.state_space, state_positions=s.state_positions, **({"omega": omega} if kind in ("scim", "dfim") else {}))
        return list(flat(out))

    if interval:
        init["interval"] = [[-0.5, 0.5]] * n
    with externals(cx):
        compose(cx, build, episode)


@contract("C22", cases=[("poly", d, i) for d, i in INIT] + [("const", "uniform", None), ("const", "gaussian", None), ("ou", None, None)], targets=[G + "physical_systems.mechanical_loads.mechanical_load.MechanicalLoad." + m for m in ("initialize", "reset")] + [G + "physical_systems.mechanical_loads.ornstein_uhlenbeck_load.OrnsteinUhlenbeckLoad." + m for m in ("reset", "mechanical_ode")], assumes=[TN, SEQ], samples=15, merge=True)
def load(cx, kind, dist, interval):
    """random initial speeds and the random speed profile are functions of the own stream only"""
    from gymnasium.spaces import Box

    from gym_electric_motor.physical_systems import mechanical_loads as ml

    space, pos = Box(-1.0, 1.0, shape=(2,), dtype=np.float64), {"omega": 0, "torque": 1}
    nom = np.array([100.0, 5.0])
    t = [cx.real(f"torque{i}") for i in range(3)]
    w = [cx.real(f"speed{i}", typ=(-10, 10)) for i in range(3)]

    def build(rng):
        kw = {}
        if dist:
            kw["load_initializer"] = {"random_init": dist, **({"interval": [[-20.0, 60.0]]} if interval else {})}
        cls = {"poly": ml.PolynomialStaticLoad, "const": ml.ConstantSpeedLoad, "ou": ml.OrnsteinUhlenbeckLoad}[kind]
        with cx.unchecked():
            return with_rng(cls, rng)(**kw)

    def episode(c, steps, no):
        out = flat(c.reset(state_space=space, state_positions=pos, nominal_state=nom))
        for k in range(steps):
            out += flat(c.mechanical_ode(0.0, cx.array([w[k]]), t[k]))
        return out

    with externals(cx):
        compose(cx, build, episode)


@contract("C22", cases=[(k, p) for k in ("ac1", "ac3") for p in ("default", "random", "fixed")], targets=[G + "physical_systems.voltage_supplies." + c + "." + m for c in ("AC1PhaseSupply", "AC3PhaseSupply") for m in ("__init__", "reset", "get_voltage")], assumes=[SEQ], samples=15)
def supply(cx, kind, phase):
    """the random phase of the mains is a function of the own stream only"""
    from gym_electric_motor.physical_systems import voltage_supplies as vs

    f = cx.positive("f", typ=(10, 60))
    par = {"default": None, "random": {"frequency": f}, "fixed": {"frequency": f, "phase": 1.25}}[phase]

    def build(rng):
        with cx.unchecked():
            return with_rng({"ac1": vs.AC1PhaseSupply, "ac3": vs.AC3PhaseSupply}[kind], rng)(u_nominal=230.0, supply_parameter=par)

    def episode(c, steps, no):
        out = flat(c.reset())
        for k in range(steps):
            out += flat(c.get_voltage(1e-3 * (k + 1), 0.0))
        return out

    with externals(cx):
        compose(cx, build, episode)


@contract("C22", cases=[(k, s) for k in CLS for s in ("none", "given")], targets=[G + "reference_generators.subepisoded_reference_generator.SubepisodedReferenceGenerator." + m for m in ("reset", "get_reference", "get_reference_observation")], assumes=[SAW, SEQ], samples=15, merge=True)
def reference(cx, kind, start):
    """reference trajectories are functions of the own stream and the initial reference only"""
    walk = kind in ("wiener", "laplace")
    ps, lim, nom = system(cx, -1.0)
    v = cx.real("initial", lo=-0.1, hi=0.1) if start == "given" else None
    n = 1 if kind in ("triangle", "step") or walk else 2

    def build(rng):
        with cx.unchecked():
            g = with_rng(cls_of(kind), rng)(reference_state="i", episode_lengths=n, limit_margin=(0.8, 0.9))
        g.set_modules(ps)
        return g

    def episode(g, steps, no):
        ref, obs, _ = g.reset(None, cx.array([0.0, 0.0, v]) if v is not None else None)
        out = flat(ref) + flat(obs)
        for k in range(steps - 1):
            out += flat(g.get_reference(None)) + flat(g.get_reference_observation(None))
        return out

    with externals(cx, kind):
        compose(cx, build, episode, short=walk or n == 1)


class Fixed(gem.ReferenceGenerator):
    """sub generator that counts its own steps"""

    def __init__(self, no):
        super().__init__()
        self.no, self.k = no, 0
        from gymnasium.spaces import Box

        self.reference_space = Box(-1.0, 1.0, shape=(1,), dtype=np.float64)
        self._reference_names = ["i"]

    def set_modules(self, ps):
        super().set_modules(ps)
        self._referenced_states = np.array([False, False, True])

    def reset(self, initial_state=None, initial_reference=None):
        self.k = 0
        return self.get_reference(), self.get_reference_observation(), None

    def get_reference(self, *_, **__):
        return np.array([0.0, 0.0, self.no + self.k / 100])

    def get_reference_observation(self, *_, **__):
        self.k += 1
        return np.array([self.no + self.k / 100])


@contract("C22", cases=[1, 2], targets=[G + "reference_generators.switched_reference_generator.SwitchedReferenceGenerator." + m for m in ("reset", "get_reference", "get_reference_observation", "_reset_reference")], assumes=[SEQ], samples=15)
def switched(cx, n):
    """the sequence of active sub generators is a function of the own stream only"""
    from gym_electric_motor.reference_generators import SwitchedReferenceGenerator

    ps, lim, nom = system(cx, -1.0)

    def build(rng):
        g = with_rng(SwitchedReferenceGenerator, rng)([Fixed(0), Fixed(1)], super_episode_length=(n, n + 1))
        g.set_modules(ps)
        return g

    def episode(g, steps, no):
        ref, obs, _ = g.reset(None, None)
        out = flat(ref) + flat(obs)
        for k in range(steps - 1):
            out += flat(g.get_reference(None)) + flat(g.get_reference_observation(None))
        return out

    with externals(cx):
        compose(cx, build, episode)


class Inner(gem.core.PhysicalSystem):
    """system whose states depend on the step only"""

    def __init__(self, states):
        from gymnasium.spaces import Box

        super().__init__(Box(-1.0, 1.0, shape=(1,)), Box(-1.0, 1.0, shape=(3,), dtype=np.float64), ["a", "b", "c"], 1e-3)
        self.states = states

    limits = nominal_state = property(lambda self: np.ones(3))

    def reset(self, **k):
        self._k = 0
        return self.states[0].copy()

    def simulate(self, action):
        self._k += 1
        return self.states[self._k].copy()


@contract("C22", cases=[(d, n) for d in ("normal", "laplace", "uniform", "triangular") for n in (1, 2, 4)], targets=[G + "physical_system_wrappers.state_noise_processor.StateNoiseProcessor." + m for m in ("reset", "simulate", "_add_noise", "_new_noise")], assumes=[SEQ], samples=15)
def noise(cx, dist, n):
    """the noise on the states is a function of the own stream only"""
    from gym_electric_motor.physical_system_wrappers import StateNoiseProcessor

    states = [cx.vec(f"x{i}_", 3) for i in range(4)]
    kw = {"triangular": dict(left=-1.0, mode=0.0, right=1.0)}.get(dist, {})

    def build(rng):
        return with_rng(StateNoiseProcessor, rng)(["a", "c"], random_dist=dist, random_kwargs=kw, random_length=n, physical_system=Inner(states))

    def episode(c, steps, no):
        out = flat(c.reset())
        for k in range(steps):
            out += flat(c.simulate(np.array([0.0])))
        return out

    with externals(cx):
        compose(cx, build, episode)


# ------------------------------------------------------------------ whole environments (bounded)
@contract("C22", cases=env_ids(), mode="bounded", samples=2, targets=["every registered environment class"])
def registered(cx, env_id):
    """two instances with the same seed and actions over two episodes, one of them used before, interleaved with another environment and with global random draws"""
    import gymnasium

    if cx.symbolic:
        return
    seed = int(cx.int("seed", lo=0, hi=10**6))

    def run(used):
        env = gymnasium.make(env_id).unwrapped
        other = gymnasium.make(env_id).unwrapped if used else None
        env.action_space.seed(1)
        acts = [env.action_space.sample() for _ in range(8)]
        if used:
            env.reset(seed=seed + 1)
            for a in acts[:3]:
                if env.step(a)[2]:
                    break
            other.reset(seed=seed)
        out = []
        for e in range(2):
            (s, r), _ = env.reset(**({"seed": seed} if e == 0 else {}))
            out.append(np.concatenate([s, r]))
            for a in acts:
                if used:
                    np.random.random(3)
                    random.random()
                    if other.step(a)[2]:
                        other.reset()
                (s, r), w, term, _, _ = env.step(a)
                out.append(np.concatenate([s, r, [w]]))
                if term:
                    break
        env.close()
        return out

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(1)
        a = run(False)
        np.random.seed(2)
        random.seed(2)
        b = run(True)
    cx.ensure("same number of steps", len(a) == len(b))
    cx.ensure("bit-identical observations and rewards", all(np.array_equal(x, y) for x, y in zip(a, b)))
