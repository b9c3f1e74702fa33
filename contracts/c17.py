"""C17 observations and metadata follow the state filter and the declared spaces."""
import itertools
import warnings

import numpy as np

from vc.engine import contract

from .common import DC, MOTORS, RecordingSolver, real_converter, system_class
from .envstub import StubReference, StubReward, StubSystem, ensure_same

T = ["gym_electric_motor.core.ElectricMotorEnvironment." + m for m in ("__init__", "reset", "step", "limits", "state_names", "nominal_state", "reference_names")]
NAMES = {1: ["a"], 2: ["a", "b"], 3: ["a", "b", "c"], 5: ["omega", "torque", "i", "u", "u_sup"]}


def filters(n):
    names = NAMES[n]
    if n <= 3:
        out = [list(c) for r in range(1, n + 1) for c in itertools.permutations(names, r)]
    else:
        out = [names, names[::-1], ["i"], ["u_sup", "omega"], ["torque", "i", "omega"]]
    return [None] + out


@contract("C17", cases=[(n, None if f is None else tuple(f), t) for n in NAMES for f in filters(n) for t in (("list", "array") if n < 3 else ("list",))], targets=T, samples=20)
def state_filter(cx, n, filt, kind):
    """observation, names, limits, nominal values and space list the filtered states in the same order"""
    from gym_electric_motor.core import ElectricMotorEnvironment

    names = NAMES[n]
    lim, nom = [cx.positive(f"lim{i}") for i in range(n)], [cx.positive(f"nom{i}") for i in range(n)]
    low, high = [-0.5 * i for i in range(n)], [1.0 + i for i in range(n)]
    ps = StubSystem(cx, [], names, limits=lim, nominal=nom, low=low, high=high, names_type=np.array if kind == "array" and False else list)
    rg = StubReference(cx, [], n_obs=2)
    given = None if filt is None else (list(filt) if kind == "list" else tuple(filt))
    env = ElectricMotorEnvironment(ps, rg, StubReward(cx, []), state_filter=given)
    want = list(filt or names)
    idx = [names.index(w) for w in want]
    cx.ensure("state names", list(env.state_names) == want)
    cx.ensure_eqs("limits", env.limits, [lim[i] for i in idx])
    cx.ensure_eqs("nominal values", env.nominal_state, [nom[i] for i in idx])
    box, refs = env.observation_space.spaces if hasattr(env.observation_space, "spaces") else env.observation_space
    cx.ensure_eqs("space low", box.low, [low[i] for i in idx])
    cx.ensure_eqs("space high", box.high, [high[i] for i in idx])
    cx.ensure("reference space of the generator", refs is rg.reference_space or refs == rg.reference_space)
    cx.ensure("action space of the system", env.action_space is ps.action_space)
    cx.ensure("reference names of the generator", list(env.reference_names) == ["a"])
    cx.ensure("reward range of the reward function", tuple(env.reward_range) == (-7.0, 3.0))
    cx.ensure("the user's filter is not modified", given is None or list(given) == list(filt))
    (state, ref), _ = env.reset()
    full = ps.states[-1]
    cx.ensure_eqs("reset: filtered state", state, [full[i] for i in idx])
    ensure_same(cx, "reset: reference observation", ref, rg.obs[-1])
    for k in range(2):
        (state, ref), reward, term, trunc, info = env.step(np.array([0.0, 0.0]))
        cx.ensure("a new full state per step", len(ps.states) == k + 2)
        full = ps.states[-1]
        cx.ensure_eqs(f"step {k}: filtered state", state, [full[i] for i in idx])
        ensure_same(cx, f"step {k}: reference observation", ref, rg.obs[-1])
    s = np.asarray(state, dtype=object)
    cx.ensure("the shape of the space", s.shape == box.shape)


@contract("C17", cases=["unknown", "duplicate"], targets=T, samples=3)
def bad_filter(cx, what):
    """an unknown state in the filter is rejected when the environment is built"""
    from gym_electric_motor.core import ElectricMotorEnvironment

    ps = StubSystem(cx, [], ["a", "b"])
    if what == "unknown":
        bad = False
        try:
            ElectricMotorEnvironment(ps, StubReference(cx, []), StubReward(cx, []), state_filter=["a", "nope"])
        except ValueError:
            bad = True
        cx.ensure("rejected", bad)
    else:
        env = ElectricMotorEnvironment(ps, StubReference(cx, []), StubReward(cx, []), state_filter=["b", "b"])
        cx.ensure("the same state twice", list(env.state_names) == ["b", "b"])


def real_systems():
    return list(MOTORS)


@contract("C17", cases=real_systems(), targets=T + ["gym_electric_motor.physical_systems.physical_systems.SCMLSystem.__init__"], samples=10)
def metadata(cx, kind):
    """names, positions, limits, nominal values and spaces of every shipped drive have the same states in the same order"""
    from gym_electric_motor.physical_systems.mechanical_loads import PolynomialStaticLoad
    from gym_electric_motor.physical_systems.voltage_supplies import IdealVoltageSupply

    cls = MOTORS[kind][0]
    with cx.unchecked():
        s = system_class(kind)(converter=real_converter(kind), motor=cls(), load=PolynomialStaticLoad(), supply=IdealVoltageSupply(u_nominal=100.0), ode_solver=RecordingSolver(), tau=1e-4)
    names = list(s.state_names)
    n = len(names)
    cx.ensure("names unique", len(set(names)) == n)
    cx.ensure("positions", dict(s.state_positions) == {m: i for i, m in enumerate(names)})
    for what, arr in (("limits", s.limits), ("nominal", s.nominal_state), ("low", s.state_space.low), ("high", s.state_space.high)):
        cx.ensure(f"{what}: one entry per state", np.asarray(arr).shape == (n,))
    cx.ensure("space inside [-1, 1]", all(-1 <= l <= h <= 1 for l, h in zip(s.state_space.low, s.state_space.high)))
    for i in range(n):
        cx.ensure(f"limit of {names[i]} positive", bool(s.limits[i] > 0))
        cx.ensure(f"nominal value of {names[i]} within the limit", bool(0 <= s.nominal_state[i] <= s.limits[i] * (1 + 1e-9)))


def env_ids():
    import gymnasium

    import gym_electric_motor  # noqa

    return sorted(i for i, s in gymnasium.registry.items() if "gym_electric_motor" in str(s.entry_point))


@contract("C17", cases=env_ids(), mode="bounded", samples=3, targets=["every registered environment class"])
def registered(cx, env_id):
    """each registered environment: reset and 12 random steps, every action of the space accepted, observations inside their declared shapes and reference range"""
    import gymnasium

    if cx.symbolic:
        return
    seed = cx.int("seed", lo=0, hi=10**6)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env = gymnasium.make(env_id).unwrapped
        env.action_space.seed(int(seed))
        box, refs = env.observation_space.spaces
        (s, r), _ = env.reset(seed=int(seed))
        sp = env.action_space
        corners = [sp.low, sp.high] if hasattr(sp, "low") else [np.zeros(len(sp.nvec), dtype=int), sp.nvec - 1] if hasattr(sp, "nvec") else [0, int(sp.n) - 1]
        for k in range(12):
            cx.ensure("state shape", np.asarray(s).shape == box.shape)
            cx.ensure("state finite", bool(np.all(np.isfinite(s))))
            cx.ensure("reference shape", np.asarray(r).shape == refs.shape)
            cx.ensure("reference inside its space", bool(np.all(np.asarray(r) >= refs.low - 1e-9) and np.all(np.asarray(r) <= refs.high + 1e-9)))
            cx.ensure("as many limits as states", len(env.limits) == len(s) == len(env.state_names) == len(env.nominal_state))
            a = corners[k % 2] if k < 4 else sp.sample()
            (s, r), w, term, trunc, _ = env.step(a)
            cx.ensure("reward finite", bool(np.isfinite(w)))
            if term:
                (s, r), _ = env.reset()
        env.close()
