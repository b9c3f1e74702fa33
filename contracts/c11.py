"""C11 ODE solvers."""
import numpy as np
import scipy.integrate as si

from vc.engine import contract

from .common import patched

SV = "gym_electric_motor.physical_systems.solvers."
EXT = "scipy.integrate (ode, odeint, solve_ivp) is external: it is assumed to integrate the equation, parameters, interval and initial value it is given"


def sv():
    from gym_electric_motor.physical_systems import solvers

    return solvers


def arr(x):
    return [v for v in np.asarray(x, dtype=object).reshape(-1)]


class Rhs:
    """an arbitrary right-hand side: every evaluation returns arbitrary derivatives; calls are remembered"""

    def __init__(self, cx, n):
        self.cx, self.n, self.calls = cx, n, []

    def __call__(self, t, y, *args):
        d = self.cx.vec(f"f{len(self.calls)}_", self.n)
        self.calls.append((t, arr(y), args, arr(d)))
        return d


def times(cx, k):
    t = [cx.nonneg("ta", typ=(0, 1))]
    for j in range(k):
        t.append(t[-1] + cx.real(f"h{j}", gt=0, typ=(1e-5, 1e-1)))
    return t


@contract("C11", cases=[(k, n) for k in (1, 2, 3, 5) for n in (1, 3)], targets=[SV + "EulerSolver." + m for m in ("__init__", "integrate", "_integrate_nsteps", "_integrate_one_step")] + [SV + "OdeSolver." + m for m in ("set_initial_value", "set_system_equation", "set_f_params", "t", "y")], samples=40,
          assumes=["number of sub-steps 1, 2, 3 and 5 unrolled here; any number: contract euler_any_nsteps"])
def euler(cx, nsteps, n):
    """composition of equidistant explicit steps; two integrations, then a new initial value"""
    s = sv().EulerSolver(nsteps=nsteps)
    f = Rhs(cx, n)
    s.set_system_equation(f)
    for episode in range(2):
        y = cx.vec(f"y{episode}_", n)
        ts = [cx.nonneg(f"t{episode}", typ=(0, 1))]
        s.set_initial_value(y, ts[0])
        cx.ensure_eq("time of the initial value", s.t, ts[0])
        cx.ensure_eqs("initial value", arr(s.y), arr(y))
        x = arr(y)
        for j in range(2 - episode):
            p, q = cx.real(f"p{episode}{j}"), object()
            s.set_f_params(p, q)
            t1 = ts[-1] + cx.positive(f"h{episode}{j}", typ=(1e-5, 1e-1))
            n0 = len(f.calls)
            r = s.integrate(t1)
            calls = f.calls[n0:]
            h = (t1 - ts[-1]) / nsteps
            cx.ensure("one evaluation per sub-step", len(calls) == nsteps)
            for k, (t, z, args, d) in enumerate(calls[:nsteps]):
                cx.ensure_eq("sub-step evaluated at its start time", t, ts[-1] + k * h)
                cx.ensure_eqs("sub-step evaluated at its start state", z, x)
                cx.ensure("current parameters", len(args) == 2 and args[0] is p and args[1] is q)
                x = [a + h * b for a, b in zip(x, d)]
            cx.ensure_eqs("result is the composition of the sub-steps", arr(r), x)
            cx.ensure_eqs("returned state is the solver's state", arr(s.y), arr(r))
            cx.ensure_eq("the solver's time is the requested time", s.t, t1)
            cx.ensure("time exactly", s.t is t1 or bool(s.t == t1))
            ts.append(t1)
        cx.ensure_eqs("the caller's initial value is not modified", arr(y), [cx_ for cx_ in arr(y)])


@contract("C11", cases=[1, 3], targets=[SV + "EulerSolver." + m for m in ("integrate", "_integrate_nsteps")], samples=40)
def euler_any_nsteps(cx, n):
    """for every number of sub-steps (loop invariant on the real loop): after i sub-steps the state is S(i) with S(0) = y and
    S(i + 1) = S(i) + h f(t0 + i h, S(i)), one evaluation each; the result is S(n) at the requested time"""
    y, t0 = cx.vec("y", n), cx.nonneg("t0", typ=(0, 1))
    t1 = t0 + cx.positive("dt", typ=(1e-5, 1e-1))
    p = object()
    y_entries = arr(y)
    if not cx.symbolic:
        N = min(int(cx.int("nsteps", lo=2, typ=(2, 60))), 3000)
        s = sv().EulerSolver(nsteps=N)
        a, b = [cx.real(f"a{k}", typ=(-1, 1)) for k in range(n)], cx.real("b", typ=(-1, 1))
        f = lambda t, x, *args: np.array([a[k] * x[k] + b * t + (args[0] is p) for k in range(n)])  # noqa
        s.set_system_equation(f)
        s.set_initial_value(y, t0)
        s.set_f_params(p)
        r = s.integrate(t1)
        x, h = np.array(y_entries, dtype=float), (t1 - t0) / N
        for i in range(N):
            x = x + h * f(t0 + i * h, x, p)
        cx.ensure_eqs("result", arr(r), list(x))
        cx.ensure_eq("time", s.t, t1)
        return
    from vc.loopcut import NoInvariant, cut

    N = cx.int("nsteps", lo=2)
    s = sv().EulerSolver(nsteps=N)
    h = (t1 - t0) / N
    state = {}  # index (as text) -> the arbitrary vector S(index)
    calls, now = [], []

    def seq(i):
        key = str(i)
        if key not in state:
            state[key] = arr(y) if key == "0" else [cx.fresh_real("S") for _ in range(n)]
        return cx.array(state[key])

    def rhs(t, x, *args):
        d = [cx.fresh_real("f") for _ in range(n)]
        calls.append((t, arr(x), args, d))
        if now and now[0][0] == "step":
            i = now[0][1]
            cx.ensure_eq("sub-step evaluated at its start time", t, t0 + i * h)
            cx.ensure_eqs("sub-step evaluated at its start state", arr(x), arr(seq(i)))
            cx.ensure("current parameters", len(args) == 1 and args[0] is p)
            state[str(i + 1)] = [u + h * v for u, v in zip(arr(seq(i)), d)]
        return cx.array(d)

    def observe(what, i):
        if what == "stepped":
            cx.ensure("one evaluation per sub-step", len(calls) == now[0][2] + 1)
        now[:] = [(what, i, len(calls))]

    s.set_system_equation(rhs)
    s.set_initial_value(y, t0)
    s.set_f_params(p)
    with cut(cx, sv(), {"state": seq, "time": lambda i: t0 + i * h, "index": lambda i: i}, observe):
        r = s.integrate(t1)
    if not (str(N) in state and now[0][0] == "exit"):
        raise NoInvariant("the loop was not cut")
    cx.ensure("no evaluation outside of the sub-steps", len(calls) == now[0][2])
    cx.ensure_eqs("result is the composition of the sub-steps", arr(r), arr(seq(N)))
    cx.ensure_eqs("returned state is the solver's state", arr(s.y), arr(r))
    cx.ensure_eq("the solver's time is the requested time", s.t, t1)
    cx.ensure_eqs("the caller's initial value is not modified", arr(y), y_entries)


@contract("C11", cases=[1, 3], targets=[SV + "EulerSolver.integrate"], samples=30)
def euler_initial_value_kept(cx, nsteps):
    """integration does not write into the array handed in as initial value or handed out before"""
    s = sv().EulerSolver(nsteps=nsteps)
    f = Rhs(cx, 2)
    s.set_system_equation(f)
    y0 = [cx.real("a"), cx.real("b")]
    y = cx.array(list(y0))
    s.set_initial_value(y, 0)
    s.set_f_params()
    r1 = s.integrate(cx.positive("t1"))
    v1 = arr(r1)
    s.integrate(s.t + cx.positive("t2"))
    cx.ensure_eqs("initial array unchanged", arr(y), y0)
    cx.ensure_eqs("earlier result unchanged", arr(r1), v1)


class OdeStub:
    """scipy.integrate.ode by its documented interface"""

    log = []

    def __init__(self, f, jac=None):
        self.f, self.jac = f, jac
        self.f_params = self.jac_params = ()
        self.integrator = None
        self.t = self.y = None
        type(self).log.append(self)

    def set_integrator(self, name, **kw):
        self.integrator = (name, kw)
        return self

    def set_initial_value(self, y, t=0.0):
        self.y, self.t = y, t
        self.init = (y, t)
        return self

    def set_f_params(self, *a):
        self.f_params = a
        return self

    def set_jac_params(self, *a):
        self.jac_params = a
        return self

    def integrate(self, t, step=False, relax=False):
        self.asked = t
        self.y, self.t = self.next, t
        return self.y


@contract("C11", cases=["no jacobian", "jacobian"], targets=[SV + "ScipyOdeSolver." + m for m in ("__init__", "set_system_equation", "set_initial_value", "set_f_params", "integrate", "t", "y")], samples=20, assumes=[EXT])
def scipy_ode(cx, how):
    f, jac = Rhs(cx, 2), (object() if how == "jacobian" else None)
    OdeStub.log = []
    with patched((sv(), "ode", OdeStub), (si, "ode", OdeStub)):
        s = sv().ScipyOdeSolver(integrator="lsoda", rtol=1e-3, nsteps=7)
        s.set_system_equation(f, jac)
        o = OdeStub.log[-1]
        cx.ensure("equation and jacobian handed on", o.f is f and o.jac is jac)
        cx.ensure("integrator and its arguments handed on", o.integrator == ("lsoda", {"rtol": 1e-3, "nsteps": 7}))
        for episode in range(2):
            y, t = cx.vec(f"y{episode}_", 2), cx.nonneg(f"t{episode}")
            s.set_initial_value(y, t)
            cx.ensure("initial value handed on", o.init[0] is y and o.init[1] is t)
            for j in range(2):
                p, q = object(), object()
                s.set_f_params(p, q)
                cx.ensure("current parameters for equation and jacobian", o.f_params == (p, q) and o.jac_params == (p, q))
                o.next = cx.vec(f"r{episode}{j}_", 2)
                t1 = cx.nonneg(f"t{episode}{j}")
                r = s.integrate(t1)
                cx.ensure("integrated to the requested time", o.asked is t1 or bool(o.asked == t1))
                cx.ensure_eqs("returns the integrator's state", arr(r), arr(o.next))
                cx.ensure_eqs("state is the integrator's", arr(s.y), arr(o.next))
                cx.ensure_eq("time is the integrator's", s.t, t1)


class Result:
    success, status = True, 0


@contract("C11", cases=[(m, j) for m in (None, "RK45", "Radau", "BDF", "LSODA") for j in (False, True)], targets=[SV + "ScipySolveIvpSolver." + m for m in ("__init__", "set_system_equation", "integrate")], samples=20, assumes=[EXT])
def scipy_ivp(cx, method, jacobian):
    f = Rhs(cx, 2)
    jac = (lambda *a: None) if jacobian else None
    log = []

    def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False, args=None, **options):
        k = len(log)
        log.append(dict(fun=fun, t_span=list(t_span), y0=arr(y0), method=method, t_eval=t_eval, args=args, options=options))
        r = Result()
        m = 1 if t_eval is not None else 3
        cols = [cx.vec(f"r{k}_{c}_", 2) for c in range(m)]
        r.t = list(t_eval) if t_eval is not None else [t_span[0], t_span[0], t_span[1]]
        r.y = cx.array([[c[i] for c in cols] for i in range(2)])
        log[-1]["end"] = arr(cols[-1])
        return r

    with patched((sv(), "solve_ivp", solve_ivp), (si, "solve_ivp", solve_ivp)):
        s = sv().ScipySolveIvpSolver(**({"method": method} if method else {}), rtol=1e-3)
        s.set_system_equation(f, jac)
        for episode in range(2):
            y, t = cx.vec(f"y{episode}_", 2), cx.nonneg(f"t{episode}")
            s.set_initial_value(y, t)
            cx.ensure_eqs("initial value", arr(s.y), arr(y))
            cx.ensure_eq("initial time", s.t, t)
            want = arr(y)
            for j in range(2):
                p, q = object(), object()
                s.set_f_params(p, q)
                t1 = t + cx.positive(f"h{episode}{j}")
                r = s.integrate(t1)
                c = log[-1]
                cx.ensure("the system equation", c["fun"] is f or c["fun"] == f)
                cx.ensure_eqs("from the current to the requested time", c["t_span"], [t, t1])
                cx.ensure_eqs("from the current state", c["y0"], want)
                cx.ensure("current parameters", tuple(c["args"]) == (p, q))
                cx.ensure("configured method and options", c["method"] == (method or "RK45") and c["options"].get("rtol") == 1e-3)
                got_jac = c["options"].get("jac")
                if method in ("Radau", "BDF", "LSODA"):
                    cx.ensure("jacobian handed on", got_jac is jac)
                else:
                    cx.ensure("no jacobian for explicit methods", got_jac is None)
                cx.ensure_eqs("returns the state at the requested time", arr(r), c["end"])
                cx.ensure_eqs("state", arr(s.y), c["end"])
                cx.ensure_eq("time", s.t, t1)
                want, t = c["end"], t1


@contract("C11", cases=[False, True], targets=[SV + "ScipyOdeIntSolver." + m for m in ("__init__", "integrate")], samples=20, assumes=[EXT])
def scipy_odeint(cx, jacobian):
    f = Rhs(cx, 2)
    jac = (lambda *a: None) if jacobian else None
    log = []

    def odeint(func, y0, t, args=(), Dfun=None, col_deriv=0, full_output=0, tfirst=False, **kw):
        k = len(log)
        end = cx.vec(f"r{k}_", 2)
        log.append(dict(fun=func, y0=arr(y0), t=list(t), args=args, Dfun=Dfun, tfirst=tfirst, kw=kw, end=arr(end)))
        return cx.array([arr(y0)] + [arr(cx.vec(f"m{k}_{j}_", 2)) for j in range(len(list(t)) - 2)] + [arr(end)])

    with patched((sv(), "odeint", odeint), (si, "odeint", odeint)):
        s = sv().ScipyOdeIntSolver(rtol=1e-3)
        s.set_system_equation(f, jac)
        for episode in range(2):
            y, t = cx.vec(f"y{episode}_", 2), cx.nonneg(f"t{episode}")
            s.set_initial_value(y, t)
            want = arr(y)
            for j in range(2):
                p, q = object(), object()
                s.set_f_params(p, q)
                t1 = t + cx.positive(f"h{episode}{j}")
                r = s.integrate(t1)
                c = log[-1]
                cx.ensure("the system equation with time first", c["fun"] is f and bool(c["tfirst"]))
                cx.ensure_eqs("from the current to the requested time", [c["t"][0], c["t"][-1]], [t, t1])
                cx.ensure_eqs("from the current state", c["y0"], want)
                cx.ensure("current parameters", tuple(c["args"]) == (p, q))
                cx.ensure("jacobian and options handed on", c["Dfun"] is jac and c["kw"].get("rtol") == 1e-3)
                cx.ensure_eqs("returns the state at the requested time", arr(r), c["end"])
                cx.ensure_eqs("state", arr(s.y), c["end"])
                cx.ensure_eq("time", s.t, t1)
                want, t = c["end"], t1
