"""C32 assembled controllers: construction, exchange of components, reported references, running an environment."""
from unittest import mock

import numpy as np
from gymnasium.spaces import Discrete, MultiDiscrete

import gem_controllers as gc
from gem_controllers import gem_controller as gcm
from gem_controllers.stages import base_controllers as bc
from gym_electric_motor.visualization.motor_dashboard_plots import StatePlot

from vc.engine import contract

from .c27 import eid
from .c28 import HavocFF, reals
from .gcstub import ACK, DCK, MOTOR_ID, HavocBase, HavocOps, RecordingCurrentController, StubEnv, n_cur, n_volt, state

GC = "gem_controllers."
BASES = {"P": bc.PController, "I": bc.IController, "PI": bc.PIController, "PID": bc.PIDController, "ThreePoint": bc.ThreePointController}


# ------------------------------------------------------------------ the control loop
class _Controller(gc.GemController):
    block_diagram = None

    def __init__(self, log):
        super().__init__()
        self.log = log

    def control(self, state, reference):
        a = object()
        self.log.append(("control", state, reference, a))
        return a

    def reset(self):
        self.log.append(("controller reset",))


class _Env:
    """environment contract: any observations, rewards and episode ends"""

    def __init__(self, log, ends):
        self.log, self.ends = log, ends

    def _obs(self, what, *a):
        o = (object(), object())
        self.log.append((what, o) + a)
        return o

    def reset(self, **_):
        return self._obs("env reset"), {}

    def step(self, action):
        te, tr = self.ends()
        return self._obs("step", action, te, tr), 0.0, te, tr, {}

    def render(self):
        self.log.append(("render",))


def one_step(cx, ev, obs, length, limit, render):
    """events of one iteration, from the latest observation and the number of steps taken in the episode so far.
    Returns the latest observation and the number of steps afterwards."""
    kinds = [e[0] for e in ev]
    main = [k for k in kinds if k != "render"]
    cx.ensure("an action is computed, then applied", main[:2] == ["control", "step"])
    cx.ensure("rendered once per step exactly when requested", kinds.count("render") == (1 if render else 0))
    c = [e for e in ev if e[0] == "control"][0]
    s = [e for e in ev if e[0] == "step"][0]
    cx.ensure("the action is computed from the latest state", c[1] is obs[0])
    cx.ensure("the action is computed from the latest reference", c[2] is obs[1])
    cx.ensure("the computed action is applied", s[2] is c[3])
    n = length + 1
    ended = bool(s[3]) or bool(s[4]) or (limit is not None and bool(n >= limit))
    if ended:
        cx.ensure("an ended episode is followed by one reset of environment and controller", sorted(main[2:]) == ["controller reset", "env reset"])
        r = [e for e in ev if e[0] == "env reset"]
        return r[0][1], 0
    cx.ensure("no reset within an episode", main[2:] == [])
    return s[1], n


@contract("C32", cases=[(r, m) for r in (False, True) for m in ("no maximum", "maximum")], targets=[GC + "gem_controller.GemController.control_environment"])
def control_loop(cx, render, maximum):
    """any number of steps: invariant of the real loop - the carried observation is the latest one, the carried count is the
    number of steps taken in the current episode"""
    log = []
    limit = cx.int("max_episode_length", lo=1, typ=(1, 5)) if maximum == "maximum" else None
    kw = {} if limit is None else {"max_episode_length": limit}
    ctrl = _Controller(log)
    if not cx.symbolic:
        flags = iter([cx.bool(f"end{k}") for k in range(24)])
        env = _Env(log, lambda: (next(flags) and next(flags), False) if cx.used else (False, False))
        n = cx.int("n_steps", lo=0, hi=8)
        seq = [(cx.bool(f"te{k}") and cx.bool(f"tf{k}"), cx.bool(f"tr{k}") and cx.bool(f"tg{k}")) for k in range(8)]
        it = iter(seq)
        env.ends = lambda: next(it)
        ctrl.control_environment(env, n, render_env=render, **kw)
        cx.ensure("environment and controller are reset before the first step", sorted(e[0] for e in log[:2]) == ["controller reset", "env reset"])
        obs, length, pos = [e for e in log[:2] if e[0] == "env reset"][0][1], 0, 2
        for _ in range(n):
            end = pos
            while end < len(log) and not (end > pos and log[end][0] in ("control", "render") and any(e[0] == "step" for e in log[pos:end])):
                end += 1
            cx.ensure("n_steps steps are taken", end > pos)
            obs, length = one_step(cx, log[pos:end], obs, length, limit, render)
            pos = end
        cx.ensure("nothing after n_steps steps", pos == len(log))
        return
    from vc.loopcut import NoInvariant, cut
    from vc.sym import SymInt

    env = _Env(log, None)
    probe = [True]
    env.ends = lambda: (False, False) if probe[0] else (cx.fresh_bool("terminated"), cx.fresh_bool("truncated"))
    n = cx.int("n_steps", lo=1)
    vals, cur = {}, {}

    def at(i):
        k = str(i)
        if k not in vals:
            if k == "0":
                e = [e for e in log if e[0] == "env reset"]
                vals[k] = (e[0][1], 0)
            else:
                m = SymInt(cx.fresh_int("steps"))
                cx.requires(m >= 0)
                if limit is not None:
                    cx.requires(m < limit)
                vals[k] = ((object(), object()), m)
        return vals[k]

    def observe(what, i):
        if what == "probe":
            cx.ensure("environment and controller are reset before the first step", sorted(e[0] for e in log) == ["controller reset", "env reset"])
            at(0)
        if what == "step":
            probe[0] = False
            cur["mark"] = len(log)
        if what == "stepped":
            obs, length = at(i)
            vals[str(i + 1)] = one_step(cx, log[cur["mark"]:], obs, length, limit, render)
            cx.ensure("the episode is shorter than the maximum", limit is None or vals[str(i + 1)][1] < limit)
            at(n)
        cur["last"] = (what, len(log))

    with cut(cx, gcm, {"latest state": lambda i: at(i)[0][0], "latest reference": lambda i: at(i)[0][1], "steps in this episode": lambda i: at(i)[1]}, observe):
        ctrl.control_environment(env, n, render_env=render, **kw)
    if cur.get("last", ("",))[0] != "exit":
        raise NoInvariant("the loop was not cut")
    cx.ensure("nothing after n_steps steps", len(log) == cur["last"][1])


# ------------------------------------------------------------------ cascade of stages
class _Stage(gc.stages.Stage):
    def __init__(self, log):
        self.log, self.resets = log, 0

    def __call__(self, state, reference):
        out = object()
        self.log.append((self, state, reference, out))
        return out

    def reset(self):
        self.resets += 1


@contract("C32", cases=[0, 1, 2, 3, 5], targets=[GC + "cascaded_controller.CascadedController.control", GC + "gem_controller.GemController.reset", GC + "gem_controller.GemController.stages", GC + "gem_controller.GemController.get_signal_value"])
def cascaded(cx, n):
    log = []
    c = gc.CascadedController()
    st = [_Stage(log) for _ in range(n)]
    c.stages.extend(st)
    x, r = object(), object()
    out = c.control(x, r)
    cx.ensure("every stage once, in order", [e[0] for e in log] == st)
    for e in log:
        cx.ensure("every stage gets the state and the output of the stage before", e[1] is x and e[2] is r)
        r = e[3]
    cx.ensure("the output of the last stage is returned", out is r)
    c.reset()
    cx.ensure("every stage is reset", all(s.resets == 1 for s in st))


# ------------------------------------------------------------------ what the arguments select
def expected_stages(kind):
    s = gc.stages
    ff = {"scim": s.EMFFeedforwardInd, "eesm": s.EMFFeedforwardEESM}.get(kind, s.EMFFeedforward)
    cl = s.clipping_stages
    clip = cl.CombinedClippingStage if kind == "eesm" else (cl.SquaredClippingStage if kind in ACK else cl.AbsoluteClippingStage)
    return ff, clip


@contract("C32", cases=[(k, b, d) for k in DCK + ACK for b in ("P", "PI", "PID", "ThreePoint") for d in (True, False)], targets=[GC + "pi_current_controller.PICurrentController." + f for f in ("__init__", "stages", "tune", "t_n", "emf_feedforward", "current_base_controller", "current_control", "control", "voltage_reference", "reset")])
def current_controller_stages(cx, kind, base, decoupling):
    """stages, time constant and exchange of the components of a current controller, with arbitrary components"""
    env = StubEnv(cx, kind)
    with cx.unchecked():
        c = gc.PICurrentController(env, eid(kind), base_current_controller=base, decoupling=decoupling)
    ff, clip = expected_stages(kind)
    cx.ensure("base controller as selected", type(c.current_base_controller) is BASES[base])
    cx.ensure("feed-forward stage of the machine", type(c.emf_feedforward) is ff)
    cx.ensure("clipping stage of the machine", type(c.clipping_stage) is clip)
    c.tune(env, eid(kind))
    cx.ensure("one voltage reference per voltage", len(c.voltage_reference) == n_volt(kind))
    cx.ensure_eqs("no voltage reference before the first step", [v for v in c.voltage_reference], [0] * n_volt(kind))
    want = [c.current_base_controller] + ([c.emf_feedforward] if decoupling else []) + ([c.transformation_stage] if kind in ACK else []) + [c.clipping_stage]
    cx.ensure("stages: base controller, feed-forward exactly when decoupled, transformation exactly for three-phase machines, clipping", list(c.stages) == want)
    b = c.current_base_controller
    if hasattr(b, "p_gain") and hasattr(b, "i_gain"):
        for k in range(n_cur(kind)):
            cx.ensure_eq("time constant: proportional over integral gain", c.t_n[k] * b.i_gain[k], b.p_gain[k])
    else:
        tau = gc.parameter_reader.tau_current_loop_reader[MOTOR_ID[kind]](env)
        cx.ensure_eqs("time constant of the current loop", [v for v in c.t_n], [v for v in tau])
    # exchanged components are the ones used
    hb, hf = HavocBase(cx, n_volt(kind), "CC"), HavocFF(reals(cx, "ff", n_volt(kind)))
    c.current_base_controller = hb
    c.emf_feedforward = hf
    cx.ensure("the base controller set is the one reported", c.current_base_controller is hb and c.stages[0] is hb)
    cx.ensure("the feed-forward stage set is the one reported", c.emf_feedforward is hf and (hf in c.stages) == decoupling)
    ang = {("psi_angle" if kind == "scim" else "epsilon"): cx.angle("eps")} if kind in ACK else {}
    x, r = state(cx, env, **ang), reals(cx, "r", n_cur(kind))
    seen = []
    cs = c.clipping_stage
    raw = hf.out if decoupling else hb.out

    class Clip(type(cs)):
        def __call__(self, state, reference):
            seen.append(reference)
            return reference

    cs.__class__ = Clip
    out = c.current_control(x, r)
    cx.ensure("base controller, feed-forward and clipping are used once each", len(hb.calls) == 1 and len(seen) == 1)
    cx.ensure("the base controller gets state and reference", hb.calls[0][0] is x and hb.calls[0][1] is r)
    cx.ensure_eqs("the voltage of the exchanged components is clipped", [v for v in seen[0]], [v for v in raw])
    cx.ensure_eqs("the voltage reference is the clipped voltage", [v for v in c.voltage_reference], [v for v in raw])
    if kind in DCK:
        cx.ensure_eqs("voltage", [v for v in out], [v for v in raw])
    else:
        cx.ensure_eqs("voltage in the coordinates of the converter", [v for v in out], [v for v in c.transformation_stage(x, raw)])


class _Clip(gc.stages.clipping_stages.AbsoluteClippingStage):
    def __init__(self, out, n):
        super().__init__("TC")
        self.out, self.calls, self.resets, self.tuned = out, [], 0, []
        self._clipping_difference = out - out

    def __call__(self, state, reference):
        self.calls.append((state, reference))
        return self.out

    def tune(self, env, env_id, **kw):
        self.tuned.append(kw)

    def reset(self):
        self.resets += 1


class _Ops(HavocOps):
    resets = 0

    def reset(self):
        self.resets += 1


@contract("C32", cases=DCK + ACK, targets=[GC + "torque_controller.TorqueController." + f for f in ("__init__", "tune", "references", "referenced_states", "maximum_reference", "control", "torque_control", "reset", "torque_to_current_stage", "current_controller", "clipping_stage", "t_n", "current_reference")])
def torque_controller_parts(cx, kind):
    env = StubEnv(cx, kind, low={"i": 0.0, "i_e": 0.0})
    n, cn = n_cur(kind), gc.parameter_reader.currents[MOTOR_ID[kind]]
    with cx.unchecked():
        c = gc.TorqueController(env, eid(kind, "TC"))
    ff, clip = expected_stages(kind)
    cx.ensure("clipping stage of the machine", type(c.clipping_stage) is clip)
    cx.ensure("operating point selection of the machine", type(c.torque_to_current_stage) is gc.stages.torque_to_current_function[MOTOR_ID[kind]])
    cx.ensure("a current controller by default", isinstance(c.current_controller, gc.PICurrentController))
    # given components are the ones used
    given = gc.TorqueController(env, eid(kind, "TC"), current_controller=RecordingCurrentController(), torque_to_current_stage=HavocOps(cx, n, "given_op"), clipping_stage=_Clip(reals(cx, "given_clip", n), n))
    cx.ensure("given components are used", isinstance(given.current_controller, RecordingCurrentController) and isinstance(given.torque_to_current_stage, HavocOps) and isinstance(given.clipping_stage, _Clip))
    cc = RecordingCurrentController()
    ops = _Ops(cx, n)
    c.current_controller = cc
    c.torque_to_current_stage = ops
    cx.ensure("components set are the ones reported", c.current_controller is cc and c.torque_to_current_stage is ops)
    m = cx.real("margin", lo=0, lt=1, typ=(0, 0.9))
    c.tune(env, eid(kind, "TC"), current_safety_margin=m)
    cx.ensure("time constants of the current controller", c.t_n is not None and list(c.t_n) == list(cc.t_n))
    want = {q: [env.low[q] * env.lim[q] * (1 - m), env.lim[q] * (1 - m)] for q in cn if q in ("i", "i_a", "i_e")}
    cx.ensure("a maximum for the DC currents", set(c.maximum_reference) == set(want))
    for q in want:
        if kind != "eesm":
            cx.ensure_eqs(f"maximum reference {q}: the permitted range", list(c.maximum_reference[q]), want[q])
    cl = _Clip(reals(cx, "clip", n), n)
    c.clipping_stage = cl
    cx.ensure("the clipping stage set is the one reported", c.clipping_stage is cl)
    x, r = state(cx, env), reals(cx, "r", 1)
    out = c.control(x, r)
    cx.ensure("the operating point is selected from state and torque reference", len(ops.calls) == 1 and ops.calls[0][0] is x and ops.calls[0][1] is r)
    cx.ensure_eqs("the selected operating point is clipped", [v for v in cl.calls[0][1]], [v for v in ops.out])
    cx.ensure_eqs("the clipped current is the reference of the current controller", [v for v in cc.refs[0][1]], [v for v in cl.out])
    cx.ensure("the voltage of the current controller is returned", isinstance(out, str) and out == "voltage")
    cx.ensure("the referenced states are the currents", list(c.referenced_states) == list(cn))
    refs = c.references
    cx.ensure("one reported reference per current", set(refs) == set(cn))
    for k, q in enumerate(cn):
        cx.ensure_eq(f"reported reference {q}: the reference of the current controller", refs[q], cl.out[k])
        cx.ensure_eq(f"current reference {q}", c.current_reference[k], cl.out[k])
    c.reset()
    cx.ensure("all parts are reset", cc.resets == 1 and cl.resets == 1 and ops.resets == 1)


class _Torque(gc.TorqueController):
    """torque controller contract: records the torque references, any reported references"""

    def __init__(self, refs):
        super().__init__()
        self.refs, self.resets, self.tuned, self._r = [], 0, [], refs

    references = property(lambda self: dict(self._r))
    referenced_states = property(lambda self: np.array(list(self._r)))
    t_n = property(lambda self: np.array([1e-3, 5e-3]))

    def tune(self, env, env_id, **kw):
        self.tuned.append(kw)

    def control(self, state, reference):
        self.refs.append((state, reference))
        return "voltage"

    def reset(self):
        self.resets += 1


@contract("C32", cases=["P", "PI", "PID", "ThreePoint"], targets=[GC + "pi_speed_controller.PISpeedController." + f for f in ("__init__", "tune", "references", "referenced_states", "maximum_reference", "control", "speed_control", "reset", "torque_controller", "speed_control_stage", "torque_reference", "clipping_stage")])
def speed_controller_parts(cx, base):
    kind = "extex"
    env = StubEnv(cx, kind)
    inner = {"i_a": cx.real("ra"), "i_e": cx.real("re")}
    first, second = _Torque({}), _Torque(inner)
    c = gc.PISpeedController(env, eid(kind, "SC"), torque_controller=first, base_speed_controller=base)
    cx.ensure("base controller as selected", type(c.speed_control_stage) is BASES[base])
    cx.ensure("given torque controller is used", c.torque_controller is first)
    cx.ensure("a torque controller by default", isinstance(gc.PISpeedController(env, eid(kind, "SC")).torque_controller, gc.TorqueController))
    c.torque_controller = second
    cx.ensure("the torque controller set is the one reported", c.torque_controller is second)
    c.tune(env, eid(kind, "SC"), tune_torque_controller=False)
    cx.ensure("no tuning of the torque controller unless requested", len(second.tuned) == 0)
    c.tune(env, eid(kind, "SC"), a=6, current_safety_margin=0.3)
    cx.ensure("arguments are passed on to the torque controller", second.tuned == [{"a": 6, "current_safety_margin": 0.3}])
    hb = HavocBase(cx, 1, "SC")
    c.speed_control_stage = hb
    cx.ensure("the speed control stage set is the one reported", c.speed_control_stage is hb)
    x, r = state(cx, env), reals(cx, "r", 1)
    out = c.control(x, r)
    cx.ensure("the speed control stage gets state and reference", len(hb.calls) == 1 and hb.calls[0][0] is x and hb.calls[0][1] is r)
    cx.ensure("one torque reference", len(second.refs) == 1 and len(first.refs) == 0 and second.refs[0][0] is x)
    T, hi = second.refs[0][1][0], env.lim["torque"]
    cx.ensure_between("torque reference within the limit", T, -hi, hi)
    cx.ensure_implies("admissible torque references are passed on", (hb.out[0] >= -hi) & (hb.out[0] <= hi), T == hb.out[0])
    cx.ensure("the voltage of the torque controller is returned", isinstance(out, str) and out == "voltage")
    refs = c.references
    cx.ensure("reported references: those of the torque controller and the torque", set(refs) == {"i_a", "i_e", "torque"})
    cx.ensure_eqs("reported references of the torque controller", [refs["i_a"], refs["i_e"]], [inner["i_a"], inner["i_e"]])
    cx.ensure_eq("reported torque reference", refs["torque"], T)
    cx.ensure_eq("torque reference", c.torque_reference[0], T)
    cx.ensure("referenced states: currents and torque", list(c.referenced_states) == ["i_a", "i_e", "torque"])
    hb.resets = 0
    hb.reset = lambda: setattr(hb, "resets", hb.resets + 1)
    c.reset()
    cx.ensure("speed control stage and torque controller are reset", hb.resets == 1 and second.resets == 1 and first.resets == 0)


class _In(gc.stages.InputStage):
    def __init__(self, out):
        super().__init__()
        self.out, self.calls, self.resets, self.tuned = out, [], 0, 0

    def __call__(self, state, reference):
        self.calls.append((state, reference))
        return self.out

    def reset(self):
        self.resets += 1

    def tune(self, env, env_id, **kw):
        self.tuned += 1


class _Out(_In):
    pass


class _Rec(gc.GemController):
    references = property(lambda self: dict())
    referenced_states = property(lambda self: np.array([]))
    maximum_reference = property(lambda self: dict())

    def __init__(self):
        super().__init__()
        self.calls, self.resets, self.tuned, self.out = [], 0, [], object()

    def control(self, state, reference):
        self.calls.append((state, reference))
        return self.out

    def reset(self):
        self.resets += 1

    def tune(self, env, env_id, **kw):
        self.tuned.append(kw)


@contract("C32", cases=[(k, a) for k in DCK + ACK for a in ("Cont", "Finite")], targets=[GC + "gem_adapter.GymElectricMotorAdapter." + f for f in ("__init__", "control", "tune", "reset", "input_stage", "output_stage", "controller")])
def adapter_parts(cx, kind, action):
    env = StubEnv(cx, kind)
    first, second = _Rec(), _Rec()
    g = gc.GymElectricMotorAdapter(env, eid(kind, "CC", action), first)
    g.should_plot = False
    cx.ensure("output stage of the action space", type(g.output_stage) is (gc.stages.DiscOutputStage if action == "Finite" else gc.stages.ContOutputStage))
    cx.ensure("input stage", type(g.input_stage) is gc.stages.InputStage)
    cx.ensure("given controller", g.controller is first)
    phys, act = object(), object()
    i, o = _In(phys), _Out(act)
    g.input_stage, g.output_stage, g.controller = i, o, second
    cx.ensure("parts set are the ones reported", g.input_stage is i and g.output_stage is o and g.controller is second)
    g.tune(env, eid(kind, "CC", action), a=7)
    cx.ensure("all parts are tuned, arguments passed on", i.tuned == 1 and o.tuned == 1 and second.tuned == [{"a": 7}])
    g.tune(env, eid(kind, "CC", action), tune_controller=False)
    cx.ensure("no tuning of the controller unless requested", len(second.tuned) == 1)
    x, r = state(cx, env), reals(cx, "r", 1)
    a = g.control(x, r)
    cx.ensure("one pass through input stage, controller and output stage", len(i.calls) == len(o.calls) == len(second.calls) == 1 and not first.calls)
    cx.ensure_eqs("the input stage gets the state", [v for v in i.calls[0][0]], [v for v in x])
    cx.ensure_eqs("the input stage gets the reference", [v for v in i.calls[0][1]], [v for v in r])
    cx.ensure("the controller gets the converted state and reference", second.calls[0][0] is i.calls[0][0] and second.calls[0][1] is phys)
    cx.ensure("the output stage gets the voltages", o.calls[0][1] is second.out)
    cx.ensure("the output is the action", a is act)
    g.reset()
    cx.ensure("all parts are reset", i.resets == 1 and o.resets == 1 and second.resets == 1 and first.resets == 0)


# ------------------------------------------------------------------ settable quantities
SETTABLE = {
    "P": ["p_gain", "action_range", "state_indices"],
    "I": ["i_gain", "tau", "action_range", "state_indices", "integrator"],
    "PI": ["p_gain", "i_gain", "tau", "action_range", "state_indices", "integrator"],
    "PID": ["p_gain", "i_gain", "d_gain", "tau", "action_range", "state_indices", "integrator"],
    "ThreePoint": ["hysteresis", "high_action", "low_action", "idle_action", "action_range", "referenced_state_indices"],
}


@contract("C32", cases=list(SETTABLE), targets=[GC + f"stages.base_controllers.{m}" for m in ("p_controller", "i_controller", "pid_controller", "three_point_controller")])
def settable(cx, base):
    """a quantity that was set is the one reported, and setting another one does not change it"""
    c = BASES[base]("CC")
    want = {}
    for q in SETTABLE[base]:
        if q.endswith("indices"):
            v = [3, 1]
        elif q == "tau":
            v = cx.positive("tau")
        elif q == "action_range":
            v = (reals(cx, "lo", 2), reals(cx, "hi", 2))
        else:
            v = cx.array([cx.nonneg(f"{q}{k}") for k in range(2)])
        setattr(c, q, v)
        want[q] = [list(v[0]), list(v[1])] if q == "action_range" else (v if q == "tau" else list(v))
        for w, u in want.items():
            got = getattr(c, w)
            if w == "tau":
                cx.ensure_eq("tau", got, u)
            elif w == "action_range":
                cx.ensure_eqs(w, [v for v in got[0]] + [v for v in got[1]], u[0] + u[1])
            elif w.endswith("indices"):
                cx.ensure(w, [int(v) for v in got] == u)
            else:
                got = [v for v in got] if np.ndim(got) else [got]
                cx.ensure(f"{w}: one value per value set", len(got) == len(u))
                cx.ensure_eqs(w, got, u)


# ------------------------------------------------------------------ bounded: the factory and closed loops of the registered environments
def _ids():
    out = []
    for k in DCK:
        for t in ("CC", "TC", "SC"):
            for a in ("Cont", "Finite"):
                out.append(f"{a}-{t}-{MOTOR_ID[k]}-v0")
    for m in ("PMSM", "SynRM", "SCIM"):
        for t in ("CC", "TC", "SC"):
            out.append(f"Cont-{t}-{m}-v0")
    out.append("Cont-CC-EESM-v0")
    return out


def _env(i):
    import gym_electric_motor as gem
    from gym_electric_motor.physical_system_wrappers import FluxObserver

    kw = dict(physical_system_wrappers=(FluxObserver(),)) if "SCIM" in i else {}
    return gem.make(i, **kw).unwrapped


def _closed_loop(cx, i):
    if cx.symbolic:
        return
    base, sbase = cx.choice("current base controller", ["PI", "PID", "P", "ThreePoint"]), cx.choice("speed base controller", ["PI", "PID", "P", "ThreePoint"])
    dec, margin, a = cx.bool("decoupling"), cx.choice("current safety margin", [0.1, 0.2, 0.5]), cx.choice("a", [3, 4, 6])
    try:
        _closed_loop_run(cx, i, base, sbase, dec, margin, a)
    except Exception as e:  # the public interface with admissible arguments
        cx.fail("no exception", f"{type(e).__name__}: {e}")


def _closed_loop_run(cx, i, base, sbase, dec, margin, a):
    action, task, motor = i.split("-")[:3]
    kind = {v: k for k, v in MOTOR_ID.items()}[motor]
    env = _env(i)
    g = gc.GemController.make(env, i, decoupling=dec, current_safety_margin=margin, base_current_controller=base, base_speed_controller=sbase, a=a, block_diagram=False)
    cx.ensure("an adapter", isinstance(g, gc.GymElectricMotorAdapter))
    c = g.controller
    if task == "SC":
        cx.ensure("speed controller around a torque controller", isinstance(c, gc.PISpeedController) and type(c.speed_control_stage) is BASES[sbase])
        c = c.torque_controller
    if task in ("SC", "TC"):
        cx.ensure("torque controller around a current controller", isinstance(c, gc.TorqueController))
        rng = c.clipping_stage.action_range if hasattr(c.clipping_stage, "action_range") else None
        if rng is not None and kind in DCK:
            cn = gc.parameter_reader.currents[motor]
            for k, q in enumerate(cn):
                j = env.state_names.index(q)
                cx.ensure_eq(f"permitted current {q}", rng[1][k], env.limits[j] * (1 - margin))
        c = c.current_controller
    cx.ensure("current controller with the selected base controller", isinstance(c, gc.PICurrentController) and type(c.current_base_controller) is BASES[base])
    cx.ensure("decoupling as requested", (c.emf_feedforward in c.stages) == dec)
    sp = env.action_space
    seen = []
    step = env.step

    def checked(act):
        if isinstance(sp, (Discrete, MultiDiscrete)):
            ok = sp.contains(np.asarray(act)) if isinstance(sp, MultiDiscrete) else sp.contains(int(act))
        else:
            act = np.asarray(act, dtype=float)
            ok = act.shape == sp.shape and np.all(np.isfinite(act)) and np.all(act >= sp.low - 1e-6) and np.all(act <= sp.high + 1e-6)
        cx.ensure("actions are elements of the action space", bool(ok), info=str(act))
        out = step(act)
        seen.append(out[2] or out[3])
        return out

    env.step = checked
    n, m = 40, 15
    g.control_environment(env, n, max_episode_length=m)
    cx.ensure("n_steps steps are taken", len(seen) == n)
    refs = g.controller.references
    names = list(g.controller.referenced_states)
    want = ([] if task == "CC" else list(gc.parameter_reader.currents[motor])) + (["torque"] if task == "SC" else [])
    cx.ensure("referenced states: currents, then the torque of a speed controller", names == want)
    cx.ensure("one reported reference per referenced state", set(refs) == set(want))
    for q in want:
        cx.ensure(f"finite reference {q}", bool(np.isfinite(refs[q])))
        lim = env.limits[env.state_names.index(q)]
        cx.ensure(f"reference {q} within the limit", bool(abs(refs[q]) <= lim * (1 + 1e-9)), info=f"{refs[q]} {lim}")


@contract("C32", cases=_ids(), targets=[GC + "gem_controller.GemController.make", GC + "gem_controller.GemController.control_environment"], mode="bounded", samples=6)
def closed_loop(cx, i):
    """40 steps of the registered environment under the controller of the factory, arbitrary choice of its arguments"""
    _closed_loop(cx, i)


# ------------------------------------------------------------------ plots of the references
class _Legend:
    texts = []


class _Axis:
    """matplotlib axis contract: records horizontal lines"""

    def __init__(self):
        self.hlines, self.lines = [], []

    def axhline(self, y, **_):
        self.hlines.append(y)
        self.lines.append(y)

    def get_legend(self):
        return _Legend

    def legend(self, *_, **__):
        pass


class _Plot(StatePlot):
    data_idx = property(lambda self: self.at)

    def __init__(self, state, n=3):
        super().__init__(state)
        self._ref_data = [None] * n
        self._referenced = False
        self._axis = _Axis()
        self.at = 0


class _OtherPlot:
    """any plot that is not a state plot, even of a referenced quantity"""

    def __init__(self, state):
        self.state, self._referenced, self._ref_data, self.data_idx = state, False, [None], 0


class _Dashboard:
    def __init__(self, plots):
        self._time_plots = plots


class _Circuit(_Rec):
    """controller contract: any references of any states"""

    def __init__(self, names, refs, maxima):
        super().__init__()
        self.names, self.refs, self.maxima = names, refs, maxima

    references = property(lambda self: self.refs)
    referenced_states = property(lambda self: np.array(self.names, dtype="<U16"))
    maximum_reference = property(lambda self: self.maxima)


@contract("C32", cases=[(k, p, s) for k in DCK + ACK for p in (True, False, None) for s in (True, False, None)], targets=[GC + "gem_adapter.GymElectricMotorAdapter." + f for f in ("__init__", "control", "tune")] + [GC + "reference_plotter.ReferencePlotter." + f for f in ("__init__", "tune", "update_plots")])
def plotted_references(cx, kind, plot_references, should_plot):
    """the plots of the environment show the references the controller computed, exactly for the referenced states and
    exactly when this was requested for this controller (None: not given; the plots are prepared but not updated)"""
    env = StubEnv(cx, kind)
    names = env.state_names
    plots = [_Plot(n) for n in names[1:]] + [_Plot(names[2])]
    others = [_OtherPlot(n) for n in names]
    env.visualizations = [_Dashboard(others[:1] + plots[:2] + others[1:]), _Dashboard(plots[2:])]
    ref_names = [n for n in names if n.startswith("i") or n == "torque"]
    max_names = [n for n in ref_names if n.startswith("i")]
    maxima = {n: [cx.real("lo_" + n), cx.real("hi_" + n)] for n in max_names}
    refs = [{n: cx.real(f"ref{t}_{n}") for n in ref_names} for t in range(2)]
    ctrl = _Circuit(ref_names, refs[0], maxima)
    g = gc.GymElectricMotorAdapter(env, eid(kind, "CC", "Cont"), ctrl)
    other = gc.GymElectricMotorAdapter(env, eid(kind, "CC", "Cont"), _Circuit([], {}, {}))
    if should_plot is not None:
        g.should_plot = should_plot
    other.should_plot = not should_plot
    i, o = _In(None), _Out("action")
    g.input_stage, g.output_stage = i, o
    g.tune(env, eid(kind, "CC", "Cont"), **({} if plot_references is None else {"plot_references": plot_references}))
    wanted = plot_references is not False
    cx.ensure("the plots of the referenced states show references, the others not", all(bool(p._referenced) == (wanted and p.state in ref_names) for p in plots))
    cx.ensure("other plots are not touched", all(p._referenced is False and p._ref_data == [None] for p in others))
    x, r = state(cx, env), reals(cx, "r", 1)
    for t in range(2):
        ctrl.refs = refs[t]
        for p in plots:
            p.at = t + (p.state == names[1])
        cx.ensure("the action does not depend on the plots", g.control(x, r) == "action")
    g.reset()
    cx.ensure("all parts are reset", i.resets == o.resets == ctrl.resets == 1)
    for p in plots:
        first = 1 if p.state == names[1] else 0
        if should_plot and wanted and p.state in ref_names:
            for t in range(2):
                cx.ensure_eq("the reference of the step is plotted at the step", p._ref_data[first + t], refs[t][p.state])
            cx.ensure("nothing else is written", p._ref_data[2 - 2 * first] is None)
            if p.state in max_names and p.state in ("i", "i_a", "i_e"):
                cx.ensure("the limits of the reference are drawn once", len(p._axis.hlines) == 2)
                cx.ensure_eqs("the limits of the reference", list(p._axis.hlines), maxima[p.state])
            else:
                cx.ensure("no limits without known maximum", p._axis.hlines == [])
        else:
            cx.ensure("not plotted unless requested", p._ref_data == [None] * 3 and p._axis.hlines == [])
    cx.ensure("other plots are not touched", all(p._referenced is False and p._ref_data == [None] for p in others))


@contract("C32", cases=[(a, b) for a in (True, False) for b in (True, False)], targets=[GC + "gem_controller.GemController.make"])
def plot_setting_per_controller(cx, first, second):
    """the plot setting of a controller is the one it was made with, no matter how many others are made"""
    env = StubEnv(cx, "perm", references=["i"])
    env.visualizations = []
    mk = lambda s: gc.GemController.make(env, eid("perm", "CC", "Cont"), should_plot=s, block_diagram=False)
    with mock.patch.object(gc.GymElectricMotorAdapter, "tune", lambda self, env, env_id, **k: None):
        a = mk(first)
        b = mk(second)
        c = mk(False)
    cx.ensure("setting of the first controller", bool(a.should_plot) is first)
    cx.ensure("setting of the second controller", bool(b.should_plot) is second)
    cx.ensure("setting of the third controller", bool(c.should_plot) is False)
