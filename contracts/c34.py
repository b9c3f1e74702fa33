"""C34 the dashboard shows exactly what happened, and only watches."""
import math
from unittest import mock

import numpy as np
from gymnasium.spaces import Box, Discrete, MultiDiscrete

from vc.engine import contract
from vc.sym import printed

V = "gym_electric_motor.visualization."
MD = V + "motor_dashboard.MotorDashboardLegacy."
P = V + "motor_dashboard_plots."
NAMES = ["omega", "i", "u"]
W = 3  # width of the window of the time plots


# ------------------------------------------------------------------ stubs of matplotlib and of the environment
class Line:
    """contract of a matplotlib line: x and y data of the same length"""

    def __init__(self, cx, x, y):
        self.cx, self.sets = cx, 0
        self._set(x, y)

    def _set(self, x, y):
        self.cx.ensure("as many x as y values are plotted", len(x) == len(y))
        self.x, self.y = list(x), list(y)

    def set_data(self, x, y):
        self.sets += 1
        self._set(x, y)

    def set_ydata(self, y):
        self.sets += 1
        self.y = list(y)

    def set_xdata(self, x):
        self.x = list(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Axis:
    """contract of a matplotlib axis: finite limits"""

    def __init__(self, cx):
        self.cx, self.lines, self.vlines, self.hlines, self.xlim, self.ylim = cx, [], [], [], (0.0, 1.0), (0.0, 1.0)

    def plot(self, x, y, *_, **__):
        self.lines.append(Line(self.cx, x, y))
        return (self.lines[-1],)

    def axhline(self, y, **kw):
        self.hlines.append(y)
        return Line(self.cx, [0, 1], [y, y])

    def axvline(self, x, color=None, **kw):
        self.vlines.append((x, color))

    def _lim(self, lo, hi):
        lo, hi = lo if hi is None else (lo, hi)
        for v in (lo, hi):
            self.cx.ensure("limits of the view are numbers", not isinstance(v, float) or math.isfinite(v))
        return lo, hi

    def set_xlim(self, left=None, right=None, xmin=None, xmax=None, **kw):
        self.xlim = self._lim(left if xmin is None else xmin, right if xmax is None else xmax)

    def set_ylim(self, bottom=None, top=None, ymin=None, ymax=None, **kw):
        self.ylim = self._lim(bottom if ymin is None else ymin, top if ymax is None else ymax)

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None


class Anything:
    """figure, canvas, ...: accepts everything"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class Plt(Anything):
    def __init__(self, cx):
        self.cx, self.axes = cx, []

    def subplots(self, nrows=1, ncols=1, **k):
        n = nrows * ncols
        axes = [Axis(self.cx) for _ in range(n)]
        self.axes.append(axes)
        return Anything(), axes[0] if n == 1 else axes

    def get_backend(self):
        return "stub"


class Watched:
    """an object a visualization may read but not write"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __setattr__(self, n, v):
        raise AssertionError(f"the visualization writes {n}")


ACTIONS = {"continuous": lambda: Box(np.array([-1.0, 0.0]), np.array([1.0, 1.0])), "discrete": lambda: Discrete(8), "multi": lambda: MultiDiscrete([4, 8])}


def stub_env(cx, actions="continuous", referenced=(True, False, False), scale=False):
    lims = cx.array([cx.positive("lim_" + n, typ=(0.5, 20.0)) for n in NAMES])
    space = ACTIONS[actions]()
    ps = Watched(state_names=list(NAMES), state_positions={n: k for k, n in enumerate(NAMES)}, limits=lims, tau=cx.positive("tau", typ=(1e-4, 1e-2)),
                 state_space=Watched(low=np.array([-1.0, 0.0, -1.0]), high=np.ones(3), shape=(3,)), action_space=space, k=0)
    rg = Watched(referenced_states=np.array(referenced))
    return Watched(physical_system=ps, reference_generator=rg, reward_range=(-3.0, 1.0), scale_plots=scale, action_space=space, limits=lims[[2, 0]], state_names=[NAMES[2], NAMES[0]])


class Step:
    """arbitrary data of one step"""

    def __init__(self, cx, name, actions="continuous"):
        self.state = cx.array([cx.real(f"{name}_{n}", typ=(-1, 1)) for n in NAMES])
        self.reference = cx.array([cx.real(f"{name}_ref_{n}", typ=(-1, 1)) for n in NAMES])
        self.reward = cx.real(name + "_reward", typ=(-3, 1))
        self.action = cx.int(name + "_a", lo=0, hi=7) if actions == "discrete" else cx.array([cx.real(f"{name}_a0", typ=(-1, 1)), cx.real(f"{name}_a1", typ=(0, 1))])
        self.kept = [list(v) for v in (self.state, self.reference)] + ([] if actions == "discrete" else [list(self.action)])

    def unchanged(self, cx):
        for name, v, kept in zip(("state", "reference", "action"), (self.state, self.reference, self.action), self.kept):
            cx.ensure_eqs(f"{name} is not changed by the plots", list(v), kept)


def isnan(v):
    return isinstance(v, float) and math.isnan(v)


def only(cx, axis):
    cx.ensure("one line in the axis", len(axis.lines) == 1)
    return axis.lines[0] if axis.lines else Line(cx, [], [])


def shows(cx, name, line, want):
    cx.ensure(f"{name}: as many x as y values", len(line.x) == len(line.y))
    """the points of the line: exactly those of want (list of (x, y) by position, None: nothing shown)"""
    cx.ensure(f"{name}: number of points", len(line.y) == len(want))
    if len(line.y) != len(want):
        return
    for k, w in enumerate(want):
        if w is None:
            cx.ensure(f"{name}: nothing shown where nothing happened yet", isnan(line.y[k]))
        else:
            cx.ensure(f"{name}: something is shown", not isnan(line.y[k]))
            cx.ensure_eq(f"{name}: time of point {k}", line.x[k], w[0])
            cx.ensure_eq(f"{name}: value of point {k}", line.y[k], w[1])


def time_plot(kind, cx):
    from gym_electric_motor.visualization import motor_dashboard_plots as mp

    if kind.startswith("state"):
        return mp.StatePlot(NAMES[int(kind[-1])])
    if kind.startswith("action"):
        return mp.ActionPlot(0 if kind == "action discrete" else 1)
    return mp.RewardPlot()


def point(cx, kind, env, s, t):
    """what a time plot shows of a step beginning at time t: (points in the window after the step begin: 0/1, values per line)"""
    lim, tau = env.physical_system.limits, env.physical_system.tau
    if kind.startswith("state"):
        i = int(kind[-1])
        ys = [s.state[i] * lim[i]] + ([s.reference[i] * lim[i]] if env.reference_generator.referenced_states[i] else [])
        return 1, t + tau, ys
    if kind == "reward":
        return 0, t, [s.reward]
    return 0, t, [s.action if kind == "action discrete" else s.action[1]]


TIME = ["state 0", "state 1", "state 2", "action continuous", "action discrete", "action multi", "reward"]


@contract("C34", cases=[(k, r) for k in TIME for r in range(W)], targets=[P + "state_plot.StatePlot", P + "action_plot.ActionPlot", P + "reward_plot.RewardPlot", P + "base_plots.TimePlot", P + "base_plots.MotorDashboardPlot"])
def any_step(cx, kind, r):
    """two steps after any number of earlier ones: the points of these steps are written, at their place of the window"""
    actions = kind.split(" ")[1] if kind.startswith("action") else "continuous"
    env = stub_env(cx, actions)
    with cx.unchecked():
        p = time_plot(kind, cx)
    p.set_width(W)
    p.set_env(env)
    tau = env.physical_system.tau
    axis = Axis(cx)
    p.initialize(axis)
    want = [[None] * W for _ in axis.lines]
    if "_k" in vars(p) and "_t" in vars(p):  # documented attributes of the base class
        k0 = W * cx.int("k", lo=0, hi=10**6) + r
        p._k, p._t = k0, k0 * tau
    else:
        k0 = r
        for j in range(r):
            s = Step(cx, f"first{j}", actions)
            p.on_step_begin(j, s.action)
            p.on_step_end(j + 1, s.state, s.reference, s.reward, False)
            off, t, ys = point(cx, kind, env, s, j * tau)
            for line, y in zip(want, ys):
                line[(j + off) % W] = (t, y)
    steps = [Step(cx, f"s{j}", actions) for j in range(2)]
    for j, s in enumerate(steps):
        p.on_step_begin(j, s.action)
        p.on_step_end(j + 1, s.state, s.reference, s.reward, False)
        off, t, ys = point(cx, kind, env, s, (k0 + j) * tau)
        for line, y in zip(want, ys):
            line[(r + j + off) % W] = (t, y)
        s.unchanged(cx)
        p.render()
        end = (k0 + j + 1) * tau
        if bool(end <= (W - 1) * tau):
            end = (W - 1) * tau
        cx.ensure_eqs("the window follows the time", list(axis.xlim), [end - W * tau, end])
    cx.ensure("one line per shown quantity", len(axis.lines) == len(ys))
    for line, w in zip(axis.lines, want):
        shows(cx, kind, line, w)


@contract("C34", cases=[(k, n) for k in TIME for n in (0, 1, 2)], targets=[P + "base_plots.TimePlot._scale_y_axis"])
def scaled_to_data(cx, kind, n):
    """with scale_plots every shown value lies inside the view"""
    actions = kind.split(" ")[1] if kind.startswith("action") else "continuous"
    env = stub_env(cx, actions, scale=True)
    with cx.unchecked():
        p = time_plot(kind, cx)
    p.set_width(W)
    p.set_env(env)
    axis = Axis(cx)
    p.initialize(axis)
    for j in range(n):
        s = Step(cx, f"s{j}", actions)
        p.on_step_begin(j, s.action)
        p.on_step_end(j + 1, s.state, s.reference, s.reward, False)
    before = axis.ylim
    p.render()
    lo, hi = axis.ylim
    shown = [v for line in axis.lines for v in line.y if not isnan(v)]
    cx.ensure("values are shown", (len(shown) > 0) == (n > 0))
    for v in shown:
        cx.ensure_le("shown above the lower end of the view", lo, v)
        cx.ensure_le("shown below the upper end of the view", v, hi)
    if n == 0:
        cx.ensure("no new view without values", axis.ylim is before)


# ------------------------------------------------------------------ whole dashboard: any sequence of events (R reset, S step, T terminating step, V render, F new figures)
SCRIPTS = ["RSVSVRSV", "RRRSVRV", "RSSTVRSSVTRSV", "RSRTRSVRV", "RSTRSVSFSVSRSTRSVRSV", "RSTVFRSTVRSSTRV", "RSVFVFSV", "RSSSSSVRSSSSTVRV", "RFRSRSVTRSV", "RTRTVRTV", "RSSFRRSTRSV", "RSSFSRRSTRSV"]


class Oracle:
    """the history since the figures were (re)started"""

    def __init__(self):
        self.time, self.k, self.pending, self.marked = {}, 0, [], []
        self.done = None
        self.ep_no, self.eps, self.cur = -1, [], []
        self.viol = [(0, 0)]

    def fresh(self):
        done, cur = self.done, self.cur
        self.__init__()
        self.done, self.cur = done, cur


@contract("C34", cases=[(s, a, i) for s in SCRIPTS for a, i in (("continuous", 1), ("discrete", 1), ("continuous", 2))], targets=[MD + f for f in ("__init__", "set_env", "on_reset_begin", "on_reset_end", "on_step_begin", "on_step_end", "render", "reset_figures", "initialize", "_initialize_figures_window", "_update")] + [V + "motor_dashboard.MotorDashboard.set_env", P + "base_plots.EpisodePlot", P + "base_plots.StepPlot", P + "mean_episode_reward_plot.MeanEpisodeRewardPlot", P + "episode_length_plot.EpisodeLengthPlot", P + "cumulative_constraint_violation_plot.CumulativeConstraintViolationPlot"], samples=20)
def dashboard(cx, script, actions, interval):
    from gym_electric_motor.visualization import MotorDashboard
    from gym_electric_motor.visualization import motor_dashboard as md
    from gym_electric_motor.visualization import motor_dashboard_plots as mp

    env = stub_env(cx, actions)
    tau = env.physical_system.tau
    with cx.unchecked():
        mean, length, cum = mp.MeanEpisodeRewardPlot(), mp.EpisodeLengthPlot(), mp.CumulativeConstraintViolationPlot()
        d = MotorDashboard(state_plots="all", action_plots="all", reward_plot=True, additional_plots=(mean, length, cum), update_interval=interval, time_plot_width=W)
    d.set_env(env)
    plt = Plt(cx)
    n_act = 1 if actions == "discrete" else 2
    kinds = ["state 0", "state 1", "state 2"] + [f"action {j}" for j in range(n_act)] + ["reward"]
    o = Oracle()
    ep_k = total = 0
    due = False
    with mock.patch.object(md, "plt", plt):
        for j, e in enumerate(script):
            if e == "R":
                d.on_reset_begin()
                if o.done is not None:
                    o.pending.append((o.k * tau, "red" if o.done else "blue"))
                o.done = False
                if o.ep_no >= 0:
                    o.eps.append(o.cur)
                o.ep_no += 1
                o.cur, ep_k = [], 0
                s = Step(cx, f"r{j}", actions)
                d.on_reset_end(s.state, s.reference)
                s.unchanged(cx)
            elif e in "ST":
                s = Step(cx, f"s{j}", actions)
                d.on_step_begin(ep_k, s.action)
                ep_k += 1
                total += 1
                d.on_step_end(ep_k, s.state, s.reference, s.reward, e == "T")
                s.unchanged(cx)
                o.time[o.k] = s
                o.k += 1
                o.done = e == "T"
                o.cur = o.cur + [s.reward]
                if e == "T":
                    n = o.viol[-1][1]
                    o.viol += [(o.k - 1, n), (o.k, n + 1)]
                due = due or total % interval == 0
            elif e == "F":
                d.reset_figures()
                o.fresh()
                plt.axes.clear()
            else:
                known = len(plt.axes) > 0
                old = [ln.sets for axes in plt.axes for ax in axes for ln in ax.lines]
                d.render()
                cx.ensure("figures for episodes, steps and time", [len(a) for a in plt.axes] == [2, 1, len(kinds)])
                new = [ln.sets for axes in plt.axes for ax in axes for ln in ax.lines]
                if not due:
                    cx.ensure("no update before the interval has passed", new == (old if known else [0] * len(new)))
                    continue
                due = False
                cx.ensure("every line is updated", new == [v + 1 for v in (old if known else [0] * len(new))])
                (ax_mean, ax_len), (ax_cum,), ax_time = plt.axes
                want = [(n, sum(c) / len(c)) if c else None for n, c in enumerate(o.eps)]
                shows(cx, "mean reward", only(cx, ax_mean), want)
                shows(cx, "episode length", only(cx, ax_len), [(n, len(c)) for n, c in enumerate(o.eps)])
                shows(cx, "violations", only(cx, ax_cum), o.viol)
                for kind, ax in zip(kinds, ax_time):
                    lines = [[None] * W for _ in ax.lines]
                    for k, s in o.time.items():
                        if kind.startswith("action"):
                            off, t, ys = 0, k * tau, [s.action if actions == "discrete" else s.action[int(kind[-1])]]
                        else:
                            off, t, ys = point(cx, kind, env, s, k * tau)
                        cx.ensure(f"{kind}: one line per quantity", len(lines) == len(ys))
                        for line, y in zip(lines, ys):
                            line[(k + off) % W] = (t, y)
                    for ln, w in zip(ax.lines, lines):
                        shows(cx, kind, ln, w)
                    new_v = ax.vlines[len(o.marked):]
                    cx.ensure(f"{kind}: one mark per reset", sorted(c for _, c in new_v) == sorted(c for _, c in o.pending))
                    for colour in ("red", "blue"):
                        cx.ensure_eqs(f"{kind}: {colour} marks at the times of the resets", [t for t, c in new_v if c == colour], [t for t, c in o.pending if c == colour])
                o.marked += o.pending
                o.pending = []


# ------------------------------------------------------------------ console
CONSOLE = ["RSVSVRV", "SVRSVTVRSV", "RSSTRSRRSVV", "RVSTVRVSSRV", "RSTRSTRSVSSV"]


@contract("C34", cases=[(s, f) for s in CONSOLE for f in ((0, 1), (1, 1), (2, 1), (2, 2))], targets=[V + "console_printer.ConsolePrinter." + m for m in ("set_env", "on_reset_begin", "on_reset_end", "on_step_begin", "on_step_end", "render")], samples=40)
def console(cx, script, how):
    """every finished episode is printed once, with its number, its reason to end, its number of steps and its reward; every update_freq-th step with its values"""
    from gym_electric_motor.visualization import console_printer as cp

    verbose, freq = how
    options, lines = np.get_printoptions(), []
    try:
        env = stub_env(cx)
        c = cp.ConsolePrinter(verbose=verbose, update_freq=freq)
        c.set_env(env)
        with mock.patch.object(cp, "print", lambda *a, **k: lines.append(" ".join(map(str, a))), create=True):
            episode, k, rewards, done, pending, last = -1, 0, [], False, [], None
            for j, e in enumerate(script):
                if e == "R":
                    if episode >= 0:
                        pending.append((episode, done, k, sum(rewards)))
                    episode, k, rewards, done = episode + 1, 0, [], False
                    c.on_reset_begin()
                    last = Step(cx, f"r{j}")
                    c.on_reset_end(last.state, last.reference)
                elif e in "ST":
                    last = Step(cx, f"s{j}")
                    c.on_step_begin(k, last.action)
                    k, done = k + 1, e == "T"
                    rewards.append(last.reward)
                    c.on_step_end(k, last.state, last.reference, last.reward, done)
                else:
                    lines.clear()
                    c.render()
                    texts = [t for t in lines if "Number of steps" in t]
                    steps = [t for t in lines if "State" in t]
                    cx.ensure("nothing else is printed", len(lines) == len(texts) + len(steps))
                    cx.ensure("every finished episode is printed once", len(texts) == (len(pending) if verbose else 0))
                    for t, (no, end, n, total) in zip(texts, pending):
                        vals = list(printed(t))
                        cx.ensure("reason of the end", ("Constraint Violation" in t) == end and ("External Reset" in t) == (not end))
                        cx.ensure("episode number, steps and reward", len(vals) == 3 and vals[:2] == [no, n])
                        cx.ensure_eq("reward of the episode", vals[2], total, tol=6e-4)
                    pending = []
                    cx.ensure("steps are printed as often as configured", len(steps) == (verbose == 2 and k % freq == 0))
                    for t in steps if k > 0 else ():
                        vals = list(printed(t))
                        cx.ensure("number of printed values", len(vals) == 10)
                        cx.ensure("episode and step", vals[:2] == [episode, k])
                        lim = list(env.physical_system.limits)
                        want = [last.state[i] * lim[i] for i in range(3)] + [last.reference[i] * lim[i] for i in range(3)] + [rewards[-1], sum(rewards)]
                        cx.ensure_eqs("state, reference, reward and cumulative reward", vals[2:], want, tol=6e-4)
                    if last is not None:
                        last.unchanged(cx)
    finally:
        np.set_printoptions(**options)


# ------------------------------------------------------------------ choice of the plots
CHOICES = {
    "one state": (("omega",), (), False, ""), "order": (("u", "omega"), (1,), True, "me"), "all": ("all", "all", True, "mlc"), "first action": ((), (0,), False, "c"), "reward": ([], [], True, ""),
    "custom": (["i"], "all", False, "tl"), "episodes": ((), (), False, "lm"), "steps": ((), (), False, "c"), "only custom": ((), (), False, "t"),
}


@contract("C34", cases=[(c, a, b) for c in CHOICES for a in ACTIONS for b in ("window", "nbAgg") if not (a == "discrete" and c == "order")], samples=4, targets=[MD + f for f in ("__init__", "set_env", "initialize", "_initialize_figures_notebook", "_initialize_figures_window")] + [V + "motor_dashboard.MotorDashboard.set_env"])
def selection(cx, choice, actions, backend):
    """exactly the selected plots are shown, each in an axis of its own, in the documented order"""
    from gym_electric_motor.visualization import MotorDashboard
    from gym_electric_motor.visualization import motor_dashboard as md
    from gym_electric_motor.visualization import motor_dashboard_plots as mp

    env = stub_env(cx, actions)
    tau = env.physical_system.tau
    states, acts, reward, extra = CHOICES[choice]
    with cx.unchecked():
        own = {"m": mp.MeanEpisodeRewardPlot(), "l": mp.EpisodeLengthPlot(), "c": mp.CumulativeConstraintViolationPlot(), "t": mp.StatePlot("u"), "e": mp.EpisodeLengthPlot()}
        d = MotorDashboard(state_plots=states, action_plots=acts, reward_plot=reward, additional_plots=tuple(own[e] for e in extra), update_interval=2, time_plot_width=W)
    d.set_env(env)
    n_act = 1 if actions == "discrete" else 2
    want = {
        "time": [f"state {NAMES.index(n)}" for n in (NAMES if states == "all" else states)] + [f"action {j}" for j in (range(n_act) if acts == "all" else acts)] + ["reward"] * reward + ["state 2"] * ("t" in extra),
        "episode": [e for e in extra if e in "mle"],
        "step": [e for e in extra if e == "c"],
    }
    plt = Plt(cx)
    plt.get_backend = lambda: "nbAgg" if backend == "nbAgg" else "stub"
    with mock.patch.object(md, "plt", plt):
        steps = []
        for e in range(2):
            d.on_reset_begin()
            s = Step(cx, f"r{e}", actions)
            d.on_reset_end(s.state, s.reference)
            s = Step(cx, f"s{e}", actions)
            d.on_step_begin(0, s.action)
            d.on_step_end(1, s.state, s.reference, s.reward, e == 1)
            steps.append(s)
        d.render()
    order = ["time", "episode", "step"] if backend == "nbAgg" else ["episode", "step", "time"]
    if backend == "nbAgg":
        cx.ensure("one figure for all plots", len(plt.axes) == 1)
        axes = list(plt.axes[0])
    else:
        cx.ensure("one figure per kind of plots", [len(a) for a in plt.axes] == [len(want[o]) for o in order if want[o]])
        axes = [a for axs in plt.axes for a in axs]
    kinds = [k for o in order for k in want[o]]
    cx.ensure("one axis per plot", len(axes) == len(kinds))
    for ax, kind in zip(axes, kinds):
        if kind == "m":
            shows(cx, "mean reward", only(cx, ax), [(0, steps[0].reward)])
        elif kind in ("l", "e"):
            shows(cx, "episode length", only(cx, ax), [(0, 1)])
        elif kind == "c":
            shows(cx, "violations", only(cx, ax), [(0, 0), (1, 0), (2, 1)])
        else:
            lines = [[None] * W for _ in ax.lines]
            for k, s in enumerate(steps):
                if kind.startswith("action"):
                    off, t, ys = 0, k * tau, [s.action if actions == "discrete" else s.action[int(kind[-1])]]
                else:
                    off, t, ys = point(cx, kind, env, s, k * tau)
                cx.ensure(f"{kind}: one line per quantity", len(lines) == len(ys))
                for line, y in zip(lines, ys):
                    line[(k + off) % W] = (t, y)
            for ln, w in zip(ax.lines, lines):
                shows(cx, kind, ln, w)


@contract("C34", cases=["none", "unknown state", "no plot"], samples=4, targets=[MD + "__init__", MD + "set_env", MD + "render"])
def selection_refused(cx, case):
    """a dashboard without plots shows nothing, unknown states and foreign plots are refused"""
    from gym_electric_motor.visualization import MotorDashboard
    from gym_electric_motor.visualization import motor_dashboard as md

    env, plt = stub_env(cx), Plt(cx)
    kw = {"none": {}, "unknown state": dict(state_plots=("omega", "torque")), "no plot": dict(additional_plots=(object(),))}[case]
    try:
        d = MotorDashboard(update_interval=1, **kw)
        d.set_env(env)
    except AssertionError:
        cx.ensure("refused", case != "none")
        return
    cx.ensure("accepted", case == "none")
    with mock.patch.object(md, "plt", plt):
        s = Step(cx, "s")
        d.on_reset_begin()
        d.on_reset_end(s.state, s.reference)
        d.on_step_begin(0, s.action)
        d.on_step_end(1, s.state, s.reference, s.reward, False)
        d.render()
        cx.ensure("nothing to show", plt.axes == [])
