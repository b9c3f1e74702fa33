"""C33 ramping limit margins widen as configured."""
import numpy as np

from vc.engine import contract

from .c19 import CLS, NAMES, PERIODIC, SAW, cls_of, ranges, signal_stub, system
from .envstub import StubConstraint, StubReference, StubReward, StubSystem
from .rng import Rng, with_rng

G = "gym_electric_motor."
T = [G + "callbacks.RampingLimitMargin." + m for m in ("__init__", "set_env", "on_step_end", "on_reset_end", "_update_limit_margin")]


def environment(cx, generator, callbacks, ps=None, con=None):
    from gym_electric_motor.core import ConstraintMonitor, ElectricMotorEnvironment

    ps = ps or StubSystem(cx, [], NAMES)
    return ElectricMotorEnvironment(ps, generator, StubReward(cx, []), constraints=ConstraintMonitor((), [con or StubConstraint(cx, [], "con", 0.0)]), callbacks=callbacks, visualization=[])


def subepisoded(cx, rng, **kw):
    """the base class with the extension point for the trajectory left arbitrary"""
    from gym_electric_motor.reference_generators import SubepisodedReferenceGenerator

    class Sub(with_rng(SubepisodedReferenceGenerator, rng)):
        def _reset_reference(self):
            self._reference = [0.0] * 3

    with cx.unchecked():
        return Sub(reference_state="i", episode_lengths=3, **kw)


def switched(cx, rng, n):
    from gym_electric_motor.reference_generators import SwitchedReferenceGenerator

    subs = [subepisoded(cx, rng) for _ in range(n)]
    with cx.unchecked():
        return with_rng(SwitchedReferenceGenerator, rng)(subs, super_episode_length=1000), subs


def margins(cx):
    """initial inside maximum margin"""
    lo, hi = cx.real("margin_lo", typ=(-0.6, 0.0)), cx.real("margin_hi", typ=(0.01, 0.6))
    mlo, mhi = cx.real("max_lo", typ=(-1, -0.3)), cx.real("max_hi", typ=(0.3, 1))
    for a, b in ((-1, mlo), (mlo, lo), (hi, mhi), (mhi, 1)):
        cx.requires(a <= b)
    cx.requires(lo < hi)
    return lo, hi, mlo, mhi


def spaces(cx, name, env, g, lo, hi, before):
    """reference and observation space announce the margin; the rest of the observation space is as before"""
    for what, space in (("reference space", g.reference_space), ("observation space", env.observation_space[1])):
        cx.ensure(f"{name}: {what}: one reference", tuple(space.shape) == (1,))
        cx.ensure_le(f"{name}: {what} contains the lowest reference", space.low[0], lo)
        cx.ensure_le(f"{name}: {what} contains the highest reference", hi, space.high[0])
    cx.ensure_eqs(f"{name}: state part of the observation space", list(env.observation_space[0].low) + list(env.observation_space[0].high), [-1.0] * 3 + [1.0] * 3)
    cx.ensure_eqs(f"{name}: both spaces agree", [g.reference_space.low[0], g.reference_space.high[0]], [env.observation_space[1].low[0], env.observation_space[1].high[0]])


@contract("C33", cases=[(w, f, n) for w in ("step", "episode") for f in (1, 2, 3) for n in (0, 1, 2) if f < 3 and (f < 2 or n < 2) or n == 0], targets=T, samples=40, merge=True)
def ramp(cx, when, freq, subs):
    """the margin in force widens by the step size after every update_freq-th finished step (or episode), both sides independently, never beyond the maximum, for every sub generator; nothing else changes it"""
    from gym_electric_motor.callbacks import RampingLimitMargin

    lo, hi, mlo, mhi = margins(cx)
    s = cx.positive("step_size", typ=(0.01, 0.5))
    rng = Rng(cx)
    g, gens = switched(cx, rng, subs) if subs else (lambda g: (g, [g]))(subepisoded(cx, rng))
    given, maximum = (lo, hi), (mlo, mhi)
    with cx.unchecked():
        cb = RampingLimitMargin(initial_limit_margin=given, maximum_limit_margin=maximum, step_size=s, update_time=when, update_freq=freq)
        con = StubConstraint(cx, [], "con", 0.0)
        env = environment(cx, g, (cb,), con=con)

    def expect(name):
        for j, x in enumerate(gens):
            cx.ensure_eqs(f"{name}: margin in force", list(x._limit_margin), [lo, hi])

    expect("at the start")
    spaces(cx, "at the start", env, g, mlo, mhi, None)
    count = 0

    def event(name, finished):
        nonlocal lo, hi, count
        count += finished
        if finished and count % freq == 0:
            lo = lo - s if lo - s > mlo else mlo
            hi = hi + s if hi + s < mhi else mhi
        expect(name)

    for e in range((2 if when == "step" else 2 * freq + 1) if subs < 2 else 2):
        env.reset()
        event(f"reset {e}", when == "episode")
        n_steps = freq + 1 if when == "step" else 1
        for k in range(n_steps):
            con.given = 1.0 if e == 0 and k == n_steps - 1 else 0.0  # one episode ends by a limit violation, the others by a reset
            env.step(np.zeros(2))
            event(f"step {e}.{k}", when == "step")
    spaces(cx, "at the end", env, g, mlo, mhi, None)
    cx.ensure("the margins passed by the user are untouched", len(given) == 2 and len(maximum) == 2 and maximum[0] is mlo and maximum[1] is mhi)


@contract("C33", cases=["default", "integers", "list"], targets=T, samples=10)
def defaults(cx, how):
    """the documented defaults; once the maximum is reached the margin stays there"""
    from gym_electric_motor.callbacks import RampingLimitMargin

    g = subepisoded(cx, Rng(cx))
    kw = {"default": {}, "integers": dict(initial_limit_margin=(-1, 0), maximum_limit_margin=(-1, 1), step_size=1), "list": dict(initial_limit_margin=[-0.5, 0.5], maximum_limit_margin=[-0.75, 1.0], step_size=0.25)}[how]
    freq = 10
    with cx.unchecked():
        cb = RampingLimitMargin(**kw)
        env = environment(cx, g, (cb,))
    (lo, hi), (mlo, mhi), s = kw.get("initial_limit_margin", (-0.1, 0.1)), kw.get("maximum_limit_margin", (-1, 1)), kw.get("step_size", 0.1)
    for e in range(1, 120):
        env.reset()
        if e % freq == 0:
            lo, hi = max(lo - s, mlo), min(hi + s, mhi)
        cx.ensure_eqs(f"margin after episode start {e}", list(g._limit_margin), [lo, hi])


@contract("C33", cases=[(k, h, u) for k in CLS for h in ("default", "given") for u in ("initial margin", "after an update") if not (k == "laplace" and h == "given")], targets=T + [G + "reference_generators"], samples=40, merge=True, assumes=[SAW, "vectorised numpy operations act elementwise: the symbolic run follows one arbitrary element of the trajectory; random walks here with one element (any length: C19 walk_any_length)"])
def generated(cx, kind, how, name):
    """every reference generated after an update lies in the margin in force and in the announced spaces"""
    from vc.shim import NP

    from gym_electric_motor.callbacks import RampingLimitMargin

    lo, hi, mlo, mhi = margins(cx)
    s = cx.positive("step_size", typ=(0.01, 0.5))
    rng = Rng(cx)
    walk = kind not in PERIODIC
    if cx.symbolic:
        L = 1 if walk else cx.int("length", lo=1)
        i = cx.int("index", lo=0)
        if not walk:
            cx.requires(i < L)
            cx.requires(L >= 1)
        NP.generic = None if walk else (L, i)
    else:
        L = int(cx.int("length", lo=1, typ=(1, 25)))
        cx.requires(L <= 4000)
        cx.int("index", lo=0)
    try:
        with signal_stub(kind):
            ps, lim, nom = system(cx, -1.0)
            with cx.unchecked():
                g = with_rng(cls_of(kind), rng)(reference_state="i", episode_lengths=(L, L), **ranges(cx, kind, how))
                cb = RampingLimitMargin(initial_limit_margin=(lo, hi), maximum_limit_margin=(mlo, mhi), step_size=s, update_time="episode", update_freq=1)
                env = environment(cx, g, (cb,), ps=ps)
            if name == "after an update":
                cb.on_reset_end(None, None)
                lo = lo - s if lo - s > mlo else mlo
                hi = hi + s if hi + s < mhi else mhi
            _, obs, _ = g.reset(None, cx.array([0.0, 0.0, cx.real("initial", typ=(-1, 1))]))
            for k in range(1 if cx.symbolic else L):
                cx.ensure_between(name + ": inside the margin", obs[0], lo, hi, tol=1e-9)
                cx.ensure_between(name + ": inside the announced space", obs[0], env.observation_space[1].low[0], env.observation_space[1].high[0], tol=1e-9)
                cx.ensure_eq(name + ": the reference used next", g.get_reference(None)[2], obs[0])
                if not cx.symbolic and k < L - 1:
                    obs = g.get_reference_observation(None)
    finally:
        NP.generic = None


@contract("C33", cases=["const", "zero", "multiple", "switched const", "stub"], targets=T, samples=3)
def refused(cx, kind):
    """reference generators without sub episodes are refused when the environment is built"""
    from gym_electric_motor.callbacks import RampingLimitMargin
    from gym_electric_motor.reference_generators import ConstReferenceGenerator, MultipleReferenceGenerator, SwitchedReferenceGenerator, ZeroReferenceGenerator

    sub = subepisoded(cx, Rng(cx))
    make = {"const": lambda: ConstReferenceGenerator("i", 0.5), "zero": ZeroReferenceGenerator, "multiple": lambda: MultipleReferenceGenerator([sub]), "stub": lambda: StubReference(cx, []),
            "switched const": lambda: SwitchedReferenceGenerator([sub, ConstReferenceGenerator("i", 0.5)])}[kind]
    with cx.unchecked():
        g = make()
        ok = environment(cx, g, ())
    try:
        environment(cx, g, (RampingLimitMargin(),))
        cx.fail("refused")
    except AssertionError:
        cx.ensure("refused", ok is not None)


BAD = {"initial order": dict(initial_limit_margin=(0.1, 0.1)), "maximum order": dict(maximum_limit_margin=(0.5, -0.5)), "initial low": dict(initial_limit_margin=(-1.5, 0.0)), "initial high": dict(initial_limit_margin=(0.0, 1.5)),
       "maximum low": dict(maximum_limit_margin=(-1.01, 1)), "maximum high": dict(maximum_limit_margin=(-1, 2)), "time": dict(update_time="steps")}


@contract("C33", cases=list(BAD), targets=T[:1], samples=1)
def bad_arguments(cx, case):
    """margins out of order or outside of [-1, 1] and unknown update times are refused"""
    from gym_electric_motor.callbacks import RampingLimitMargin

    try:
        RampingLimitMargin(**BAD[case])
        cx.fail("refused")
    except AssertionError:
        cx.ensure("refused", True)
