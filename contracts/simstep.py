"""One simulation step / one reset of a real physical system, with supply, converter and solver replaced by their contracts.

The stubs return arbitrary values (fresh inputs) on every call and record the arguments.  `Step` holds the record and the
independently computed physical quantities, from which C05 and C12 state their postconditions."""
import math

import numpy as np

from .c04 import abs_, shim_sqrt3, trig
from .common import AC, DC, RecordingSolver, motor, real_converter, system_class

NODE = {"perm": 1, "extex": 2, "series": 1, "shunt": 2, "pmsm": 3, "synrm": 3, "eesm": 4, "scim": 5, "dfim": 5}  # number of motor quantities that are integrated
NV = {"perm": 1, "extex": 2, "series": 1, "shunt": 1, "pmsm": 3, "synrm": 3, "eesm": 4, "scim": 3, "dfim": 6}
PSP = "gym_electric_motor.physical_systems.physical_systems."


def cos_sin_ab(cx, a, b):
    """cos and sin of atan2(b, a)"""
    if cx.symbolic:
        from vc import sym as S

        e = S.arctan2(b, a)
        return (1, 0) if isinstance(e, float) and e == 0.0 else (e.cos(), e.sin())
    e = math.atan2(b, a)
    return math.cos(e), math.sin(e)


def rot(cs, v):
    c, s = cs
    return [c * v[0] - s * v[1], s * v[0] + c * v[1]]


def rot_inv(cs, v):
    c, s = cs
    return [c * v[0] + s * v[1], -s * v[0] + c * v[1]]


def to_abc(cx, v):
    s3 = shim_sqrt3(cx)
    return [v[0], (-v[0] + s3 * v[1]) / 2, (-v[0] - s3 * v[1]) / 2]


def to_ab(cx, v):
    s3 = shim_sqrt3(cx)
    return [(2 * v[0] - v[1] - v[2]) / 3, (v[1] - v[2]) / s3]


class StubConverter:
    """contract of a converter: any outputs, any supply current; remembers every call"""

    def __init__(self, cx, real, n, times):
        self.cx, self.real, self.n, self.times = cx, real, n, times
        self.log = []
        self.tau = None
        self.outs, self.isups = [], []

    def __getattr__(self, name):
        return getattr(self.__dict__["real"], name)

    def set_action(self, action, t):
        self.log.append(("set_action", action, t))
        return self.times

    def convert(self, i_out, t):
        k = len(self.outs)
        self.outs.append([self.cx.real(f"g{k}_{j}", lo=-1, hi=1) for j in range(self.n)])
        self.cx.ensure("the converter is given its currents and a time", np.iterable(i_out) and not np.iterable(t))
        self.log.append(("convert", list(i_out) if np.iterable(i_out) else [i_out], t))
        return list(self.outs[-1])

    def i_sup(self, i_out):
        k = len(self.isups)
        self.isups.append(self.cx.real(f"isup{k}"))
        self.log.append(("i_sup", list(i_out) if np.iterable(i_out) else [i_out]))
        return self.isups[-1]

    def reset(self):
        self.outs.append([self.cx.real(f"gr_{j}", lo=-1, hi=1) for j in range(self.n)])
        self.log.append(("reset",))
        return list(self.outs[-1])


class StubSupply:
    voltage_len = 1
    u_nominal = 100.0
    supply_range = (0.0, 100.0)

    def __init__(self, cx, log):
        self.cx, self.log = cx, log
        self.us = []

    def get_voltage(self, t, i_sup, *a, **k):
        u = self.cx.real(f"us{len(self.us)}")
        self.us.append(u)
        self.log.append(("supply", t, i_sup))
        return [u]

    def reset(self):
        self.us.append(self.cx.real("us_r"))
        self.log.append(("supply_reset",))
        return [self.us[-1]]


class StubSolver(RecordingSolver):
    def __init__(self, cx):
        super().__init__()
        self.cx, self.calls, self.ys = cx, [], []

    def set_f_params(self, *args):
        self.params = args
        self.calls.append(("params", args))

    def integrate(self, t):
        k = len(self.ys)
        self.y = self.cx.vec(f"y{k}_", self.n)
        self.t = t
        self.ys.append(self.y)
        self.calls.append(("integrate", t))
        return self.y


def arr(x):
    return [v for v in np.asarray(x, dtype=object).reshape(-1)]


class Step:
    """builds the system; .simulate(n) or .reset() run the real code"""

    def __init__(self, cx, kind, control="abc"):
        from gym_electric_motor.physical_systems.mechanical_loads import ConstantSpeedLoad

        self.cx, self.kind = cx, kind
        self.tau = cx.real("tau", gt=0, typ=(1e-5, 1e-2))
        with cx.unchecked():
            self.m, self.mp = motor(cx, kind)
            self.conv = StubConverter(cx, real_converter(kind), NV[kind], None)
            self.log = self.conv.log
            self.supply = StubSupply(cx, self.log)
            self.solver = StubSolver(cx)
            kw = {}
            if control != "abc":
                kw["control_space"] = control
            self.s = system_class(kind)(converter=self.conv, motor=self.m, load=ConstantSpeedLoad(omega_fixed=1.0), supply=self.supply, ode_solver=self.solver, tau=self.tau, **kw)
        self.names = list(self.s.state_names)
        self.lim = [cx.positive(f"lim_{n}", typ=(0.5, 50.0)) for n in self.names]
        self.s._limits = cx.array(self.lim)
        self.n = 1 + NODE[kind]
        self.solver.n = self.n

    # -------------------------------------------------------------- the physics, written independently
    def field(self, x):
        """(cos, sin) of the frame in which dq quantities are given"""
        if self.kind in ("scim", "dfim"):
            return cos_sin_ab(self.cx, x[3], x[4])
        return trig(self.cx, x[-1])

    def i_rotor_ab(self, x):
        lr = self.mp["l_m"] + self.mp["l_sigr"]
        return [(x[3] - self.mp["l_m"] * x[1]) / lr, (x[4] - self.mp["l_m"] * x[2]) / lr]

    def terminal_currents(self, x):
        k, cx = self.kind, self.cx
        i = list(x[1:])
        if k in ("perm", "series"):
            return [i[0]]
        if k == "extex":
            return [i[0], i[1]]
        if k == "shunt":
            return [i[0] + i[1]]
        if k in ("pmsm", "synrm"):
            return to_abc(cx, rot(self.field(x), i[:2]))
        if k == "eesm":
            return to_abc(cx, rot(self.field(x), i[:2])) + [i[2]]
        if k == "scim":
            return to_abc(cx, i[:2])
        return to_abc(cx, i[:2]) + to_abc(cx, rot_inv(trig(cx, x[-1]), self.i_rotor_ab(x)))

    def motor_voltage(self, u, x):
        """the voltages the motor model gets (in its own frame), for terminal voltages u and state x"""
        k, cx = self.kind, self.cx
        if k in DC:
            return list(u)
        if k in ("pmsm", "synrm"):
            return rot_inv(self.field(x), to_ab(cx, u))
        if k == "eesm":
            return rot_inv(self.field(x), to_ab(cx, u[:3])) + [u[3]]
        if k == "scim":
            return to_ab(cx, u)
        return to_ab(cx, u[:3]) + rot(trig(cx, x[-1]), to_ab(cx, u[3:]))

    def dq_voltages(self, u, x):
        """dq voltages reported for terminal voltages u applied at state x"""
        k, cx = self.kind, self.cx
        if k in DC:
            return {}
        if k in ("pmsm", "synrm", "scim", "eesm"):
            d, q = rot_inv(self.field(x), to_ab(cx, u[:3]))
            return {"u_sd": d, "u_sq": q}
        f = self.field(x)
        d, q = rot_inv(f, to_ab(cx, u[:3]))
        rd, rq = rot_inv(f, rot(trig(cx, x[-1]), to_ab(cx, u[3:])))
        return {"u_sd": d, "u_sq": q, "u_rd": rd, "u_rq": rq}

    # -------------------------------------------------------------- running
    def simulate(self, nint, action):
        cx, s = self.cx, self.s
        self.x0 = cx.vec("x", self.n)
        self.t0 = cx.nonneg("t0", typ=(0, 1.0))
        self.k0 = cx.int("k0", lo=0)
        fr, ts, prev = [], [], self.t0
        rest = self.tau
        for j in range(nint - 1):
            d = cx.real(f"d{j}", gt=0, typ=(0, 1e-3))
            cx.requires(d < rest)
            rest = rest - d
            prev = prev + d
            ts.append(prev)
        ts.append(self.t0 + self.tau)
        self.times = ts
        self.conv.times = list(ts)
        self.solver.y, self.solver.t = self.x0, self.t0
        s._t, s._k = self.t0, self.k0
        x0 = list(self.x0)
        self.xs = [x0]
        self.state = s.simulate(action)
        self.xs += [list(y) for y in self.solver.ys]
        self.phys = dict(zip(self.names, [v * l for v, l in zip(arr(self.state), self.lim)]))
        self.u = [[g * us for g in gs] for gs, us in zip(self.conv.outs, self.supply.us)]
        return self

    def reset(self):
        cx, s = self.cx, self.s
        self.k0 = cx.int("k0", lo=0)
        s._t, s._k = cx.real("t_old", lo=0), self.k0
        x = cx.vec("x", self.n)
        self.xs = [list(x)]
        self.m.reset = lambda *a, **k: cx.array(list(x[1:]))
        s.mechanical_load.reset = lambda *a, **k: cx.array([x[0]])
        self.state = s.reset()
        self.phys = dict(zip(self.names, [v * l for v, l in zip(arr(self.state), self.lim)]))
        self.u = [[g * self.supply.us[-1] for g in self.conv.outs[-1]]]
        return self

    def scale(self):
        cx = self.cx
        return 0.0 if cx.symbolic else max(abs(float(v)) for v in cx.used.values() if isinstance(v, float)) * 10
