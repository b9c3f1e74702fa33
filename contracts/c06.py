"""C06 converter outputs."""
import numpy as np

from vc.engine import contract

from .conv import CONT, CVP, FIN, NOUT, Timing, currents, cv, finite, half_bridge, leg_currents, legs, output, prior_step

HIST = "history: every half-bridge state reachable by any action history is produced by at most one complete preceding step (the state after a step is its action, proved as 'state after a complete step')"


def in_range(cx, name, u, space):
    for k, v in enumerate(u):
        cx.ensure_between(f"{name}[{k}] in the declared range", v, float(space.low[k]), float(space.high[k]))


@contract("C06", targets=[CVP + "FiniteOneQuadrantConverter.convert"], samples=80)
def finite_1qc(cx):
    c = cv().FiniteOneQuadrantConverter(tau=1e-4)
    i = cx.real("i")
    a = cx.choice("action", [0, 1])
    c.set_action(a, cx.nonneg("t0"))
    u = c.convert([i], cx.nonneg("t"))
    cx.ensure_eqs("transistor / diode", u, [a if bool(i >= 0) else 1])
    in_range(cx, "u", u, c.voltages)


def _finite(cx, kind, a):
    tm = Timing(cx)
    c = finite(cx, kind, tm, cx.choice("setter", [False, True]))
    n = FIN[kind][1]
    prev = cx.choice("previous", [None] + list(range(n)))
    i0 = [1.0] * NOUT[kind]
    before = [0] * len(legs(kind, 0))
    if prev is not None:
        prior_step(cx, c, kind, prev, tm, i0)
        before = legs(kind, prev)
    i = currents(cx, kind)
    t1 = tm.t0 + tm.tau
    c.set_action(a, t1)
    want = legs(kind, a)
    has_il = bool(tm.il > 0)
    dead = [has_il and {b, w} == {1, 2} for b, w in zip(before, want)]
    early = cx.choice("moment", ["dead", "after"])
    if early == "dead":
        t = cx.real("t", typ=(0, 1e-3))
        cx.requires(t > t1)
        cx.requires(t <= t1 + tm.il)
        state = [0 if d else w for d, w in zip(dead, want)]
    else:
        t = cx.real("t", typ=(0, 1e-3))
        cx.requires(t > t1 + tm.il + tm.tau / 1000)
        cx.requires(t <= t1 + tm.tau)
        state = want
    if not cx.symbolic:
        cx.sample_requires(abs(t - t1 - tm.il) > 1e-12)
    u = c.convert(i, t)
    cx.ensure_eqs("output of the conducting switches and diodes", u, output(kind, state, i))
    in_range(cx, "u", u, c.voltages)


@contract("C06", cases=[("2qc", a) for a in range(3)] + [("4qc", a) for a in range(4)] + [("b6", a) for a in range(8)], targets=[CVP + FIN[k][0] + ".convert" for k in ("2qc", "4qc", "b6")], samples=60, assumes=[HIST])
def finite_output(cx, kind, a):
    if not cx.symbolic and cx.values is None:
        # draw a time that fits (rejection sampling would waste the samples)
        return _finite_sample(cx, kind, a)
    _finite(cx, kind, a)


def _finite_sample(cx, kind, a):
    r = cx.rng
    tau, t0 = r.uniform(1e-5, 1e-3), r.uniform(0, 0.1)
    il = r.choice([0.0, r.uniform(0, 0.9) * tau])
    early = r.randrange(2) if il else 1
    t = t0 + tau + (r.uniform(0.01, 1) * il if early == 0 else il + tau / 1000 + r.uniform(0.01, 1) * (tau - il - tau / 1000))
    n = FIN[kind][1]
    vals = {"tau": tau, "t0": t0, "interlocking": il, "setter": r.randrange(2), "previous": r.randrange(n + 1), "moment": early, "t": t}
    cx.values = {**vals, **{f"i{k}": r.choice([0.0, r.uniform(-10, 10), r.uniform(-10, 10)]) for k in range(NOUT[kind])}}
    try:
        _finite(cx, kind, a)
    finally:
        cx.values = None


@contract("C06", cases=["2qc", "4qc", "b6"], targets=[CVP + FIN[k][0] + ".set_action" for k in ("2qc", "4qc", "b6")], samples=60)
def invalid_actions_rejected(cx, kind):
    c = getattr(cv(), FIN[kind][0])(tau=1e-4)
    bad = cx.choice("action", [-1, FIN[kind][1], FIN[kind][1] + 3, 10**6, 0.5, None])
    try:
        c.set_action(bad, 0.0)
    except (AssertionError, ValueError, TypeError, IndexError):
        cx.ensure("rejected", True)
        return
    cx.fail("invalid action is rejected", repr(bad))


def clip(x, lo, hi):
    if bool(x < lo):
        return lo
    if bool(x > hi):
        return hi
    return x


def sign(x):
    return 1 if bool(x > 0) else (-1 if bool(x < 0) else 0)


def cont(cx, kind, tau, il, setter):
    cls = getattr(cv(), CONT[kind])
    if setter:
        c = cls(tau=1e-2, interlocking_time=il)
        c.tau = tau
        return c
    return cls(tau=tau, interlocking_time=il)


def cont_leg(a, i, il, tau):
    """averaged half bridge: duty cycle, minus the interlocking discount against the current direction, within [0, 1]"""
    return clip(clip(a, 0, 1) - sign(i) * il / tau, 0, 1)


@contract("C06", cases=[("1qc", 0), ("2qc", 0), ("b6", 0), ("b6", 1), ("b6", 2)], targets=[CVP + CONT[k] + ".convert" for k in ("1qc", "2qc", "b6")] + [CVP + CONT[k] + ".set_action" for k in ("1qc", "2qc", "b6")] + [CVP + "ContDynamicallyAveragedConverter." + m for m in ("set_action", "convert", "_interlock")], samples=120)
def cont_output(cx, kind, one):
    """phase `one` is arbitrary; the output of a phase does not depend on the others (their values are arbitrary in an open set)"""
    tau, t0 = cx.real("tau", gt=0, typ=(1e-5, 1e-3)), cx.nonneg("t0", typ=(0, 0.1))
    il = cx.real("interlocking", lo=0, typ=(0, 2e-4))
    c = cont(cx, kind, tau, il, cx.choice("setter", [False, True]))
    n = NOUT[kind]
    i, a = [], []
    for k in range(n):
        i.append(cx.real(f"i{k}") if k == one else cx.real(f"i{k}", gt=0))
        a.append(cx.real(f"a{k}", typ=(-2, 2), special=(0.5, -0.5)) if k == one else cx.real(f"a{k}", lt=-1, typ=(-2, -1)))
    c.set_action(cx.array(a), t0)
    u = c.convert(i, t0 + tau)
    k = one
    if kind == "1qc":
        want = clip(a[k], 0, 1) if bool(i[k] >= 0) else 1
    elif kind == "2qc":
        want = cont_leg(a[k], i[k], il, tau)
    else:
        want = cont_leg(0.5 * (clip(a[k], -1, 1) + 1), i[k], il, tau) - 0.5
    cx.ensure_eq("averaged output voltage", u[k], want)
    cx.ensure_between("declared range", u[k], float(c.voltages.low[k]), float(c.voltages.high[k]))
    cx.ensure_between("documented range", u[k], -0.5 if kind == "b6" else 0, 0.5 if kind == "b6" else 1)
    cx.ensure("number of outputs", len(u) == n)


@contract("C06", targets=[CVP + "ContFourQuadrantConverter.convert", CVP + "ContFourQuadrantConverter.set_action"], samples=120)
def cont_4qc_ideal(cx):
    tau = cx.real("tau", gt=0, typ=(1e-5, 1e-3))
    c = cont(cx, "4qc", tau, 0.0, cx.choice("setter", [False, True]))
    a, i, t0 = cx.real("a", typ=(-2, 2)), cx.real("i"), cx.nonneg("t0")
    c.set_action(cx.array([a]), t0)
    u = c.convert([i], t0 + tau)
    cx.ensure_eqs("output equals the action", u, [clip(a, -1, 1)])


@contract("C06", targets=[CVP + "ContFourQuadrantConverter.convert", CVP + "ContFourQuadrantConverter.set_action"], samples=120)
def cont_4qc_range(cx):
    tau = cx.real("tau", gt=0, typ=(1e-5, 1e-3))
    il = cx.real("interlocking", lo=0, typ=(0, 2e-4))
    c = cont(cx, "4qc", tau, il, cx.choice("setter", [False, True]))
    a, i, t0 = cx.real("a", typ=(-2, 2)), cx.real("i"), cx.nonneg("t0")
    c.set_action(cx.array([a]), t0)
    u = c.convert([i], t0 + tau)
    cx.ensure_between("declared range", u[0], -1, 1)
    cx.ensure("one output", len(u) == 1)


def _cont_4qc(cx):
    tau = cx.real("tau", gt=0, typ=(1e-5, 1e-3))
    il = cx.real("interlocking", gt=0, typ=(0, 2e-4))
    cx.requires(il < tau)
    c = cont(cx, "4qc", tau, il, cx.choice("setter", [False, True]))
    a, i = cx.real("a", lo=-1, hi=1), cx.real("i")
    c.set_action(cx.array([a]), 0.0)
    u = c.convert([i], tau)
    first = cont_leg(0.5 * (a + 1), i, il, tau)
    return u[0], first - cont_leg(0.5 * (1 - a), -i, il, tau), first - cont_leg(0.5 * (1 - a), i, il, tau)


@contract("C06", targets=[CVP + "ContFourQuadrantConverter.convert"], samples=120)
def cont_4qc_interlocking(cx):
    """each half bridge is discounted against its own current direction (the second leg carries -i)"""
    u, right, _ = _cont_4qc(cx)
    cx.ensure_eq("interlocking discount of the second half bridge", u, right)


@contract("C06", targets=[CVP + "ContFourQuadrantConverter.convert"], samples=120)
def cont_4qc_interlocking_first_leg(cx):
    """nothing but the recorded finding (the second half bridge is given +i) is wrong: the output is the documented one for one of the two current directions of the second leg"""
    u, right, known = _cont_4qc(cx)
    if cx.symbolic:
        from vc.sym import SymBool
        import z3
        from vc.sym import to_real

        cx.ensure("output", SymBool(z3.Or(to_real(u) == to_real(right), to_real(u) == to_real(known))))
    else:
        cx.ensure("output", min(abs(u - right), abs(u - known)) < 1e-9, info=f"{u} not in {right}, {known}")


MULTI = [("1qc", "2qc"), ("2qc", "1qc"), ("4qc", "4qc"), ("2qc", "4qc"), ("b6", "2qc"), ("b6", "4qc"), ("4qc", "b6"), ("1qc", "4qc", "2qc")]


def twins(cx, fam, kinds, tau, ils):
    names = {k: (FIN[k][0] if fam == "finite" else CONT[k]) for k in kinds}
    mk = lambda: [getattr(cv(), names[k])(tau=tau, interlocking_time=il) for k, il in zip(kinds, ils)]
    multi = (cv().FiniteMultiConverter if fam == "finite" else cv().ContMultiConverter)(mk(), tau=1e-2)
    multi.tau = tau
    return multi, mk()


def slices(kinds, x):
    out, k = [], 0
    for kind in kinds:
        out.append(x[k : k + NOUT[kind]])
        k += NOUT[kind]
    return out


@contract("C06", cases=[("finite", m) for m in MULTI] + [("cont", m) for m in MULTI], targets=[CVP + "FiniteMultiConverter." + m for m in ("set_action", "convert", "reset")] + [CVP + "ContMultiConverter." + m for m in ("set_action", "convert", "reset")], samples=60)
def multi_converter(cx, fam, kinds):
    """a multi converter behaves like its sub-converters standing alone, in order"""
    tau = 1e-4
    ils = [2e-6 * (j + 1) for j in range(len(kinds))]
    multi, singles = twins(cx, fam, kinds, tau, ils)
    rng = np.random.default_rng(cx.choice("draw", list(range(12))) + 17)
    n = sum(NOUT[k] for k in kinds)
    for step in range(2):
        i = [float(v) for v in rng.uniform(-5, 5, n)]
        one = step and n
        if step:  # the current and the continuous action of one output is arbitrary
            p = int(rng.integers(n))
            i[p] = cx.real("i")
        if fam == "finite":
            action = [int(rng.integers(FIN[k][1])) for k in kinds]
            parts = action
        else:
            action = [float(v) for v in rng.uniform(-1.2, 1.2, n)]
            if step:
                action[p] = cx.real("a", typ=(-2, 2))
            action = cx.array(action)
            parts = slices(kinds, action)
        t0 = step * tau
        got = multi.set_action(action, t0)
        want = [s.set_action(a, t0) for s, a in zip(singles, parts)]
        times = sorted({float(t) for w in want for t in w})
        cx.ensure("switching times: union of the sub-converters'", [float(t) for t in got] == times)
        for t in times:
            u = multi.convert(i, t)
            cx.ensure_eqs("outputs: concatenation of the sub-converters'", u, [v for s, ii in zip(singles, slices(kinds, i)) for v in s.convert(ii, t)])
            lo, hi = multi.voltages.low, multi.voltages.high
            cx.ensure("declared range has one entry per output", len(lo) == len(u) == n)
    cx.ensure_eqs("declared range: concatenation", list(multi.voltages.low) + list(multi.voltages.high), [v for s in singles for v in s.voltages.low] + [v for s in singles for v in s.voltages.high])
    cx.ensure_eqs("reset voltages: concatenation", multi.reset(), [v for s in singles for v in s.reset()])


@contract("C06", cases=["1qc", "2qc", "4qc", "b6"], targets=[CVP + FIN[k][0] + ".reset" for k in FIN] + [CVP + CONT[k] + ".reset" for k in CONT], samples=10)
def reset_voltage(cx, kind):
    for c in (getattr(cv(), FIN[kind][0])(), getattr(cv(), CONT[kind])()):
        u = c.reset()
        cx.ensure("one value per output", len(u) == NOUT[kind])
        cx.ensure_eqs("no differential voltage after reset", [v - u[0] for v in u] if len(u) == 3 else u, [0] * len(u))
