"""C07 switching instants."""
from vc.engine import contract

from .conv import CONT, CVP, FIN, NOUT, Timing, cv, finite, legs, prior_step
from .c06 import HIST, MULTI, cont, slices, twins


def check_times(cx, times, start, end):
    cx.ensure("at least one switching time", len(times) >= 1)
    if not len(times):
        return
    cx.ensure_eq("the last switching time is the end of the step", times[-1], end)
    prev = start
    for k, t in enumerate(times):
        cx.ensure("switching times strictly increase from the step start", t > prev)
        prev = t


def need_dead(before, want, il):
    return [bool(il > 0) and {b, w} == {1, 2} for b, w in zip(before, want)]


@contract("C07", cases=[("2qc", a) for a in range(3)] + [("4qc", a) for a in range(4)] + [("b6", a) for a in range(8)], targets=[CVP + FIN[k][0] + m for k in ("2qc", "4qc", "b6") for m in (".set_action", ".tau", ".reset")] + [CVP + "FiniteTwoQuadrantConverter._set_switching_pattern"], samples=60, assumes=[HIST])
def finite_switching_times(cx, kind, a):
    tm = Timing(cx)
    c = finite(cx, kind, tm, cx.choice("setter", [False, True]))
    n = FIN[kind][1]
    prev2 = cx.choice("previous2", [None] + ([0, n - 1] if kind == "b6" else list(range(n))))
    prev = cx.choice("previous", [None] + list(range(n)))
    i0 = [1.0] * NOUT[kind]
    before = [0] * len(legs(kind, 0))
    start = tm.t0
    for p in (prev2, prev):
        if p is not None:
            times = c.set_action(p, start)
            for t in times:
                c.convert(i0, t)
            before = legs(kind, p)
            start = start + tm.tau
    if prev is not None and cx.choice("reset", [False, True]):
        c.reset()
        before = [0] * len(before)
        start = 0.0
    times = c.set_action(a, start)
    check_times(cx, times, start, start + tm.tau)
    dead = any(need_dead(before, legs(kind, a), tm.il))
    cx.ensure("dead interval exactly when a half bridge changes over", len(times) == (2 if dead else 1))
    if dead and len(times) == 2:
        cx.ensure_eq("the dead interval lasts the interlocking time", times[0], start + tm.il)


@contract("C07", cases=["2qc", "4qc", "b6"], targets=[CVP + FIN[k][0] + ".convert" for k in ("2qc", "4qc", "b6")], samples=60, assumes=[HIST])
def dead_interval_content(cx, kind):
    """neither transistor conducts in the dead interval (both current directions see their diode), the new action conducts in the rest of the step"""
    from .conv import output

    tm = Timing(cx)
    cx.requires(tm.il > 0)
    cx.requires(tm.il * 1000 < tm.tau * 998)
    c = finite(cx, kind, tm)
    n = FIN[kind][1]
    prev, a = cx.choice("previous", list(range(n))), cx.choice("action", list(range(n)))
    s = 1.0 if cx.choice("direction", [False, True]) else -1.0
    i = [s] if NOUT[kind] == 1 else [s, -s, s]
    prior_step(cx, c, kind, prev, tm, i)
    t1 = tm.t0 + tm.tau
    times = c.set_action(a, t1)
    dead = need_dead(legs(kind, prev), legs(kind, a), tm.il)
    u = [c.convert(i, t) for t in times]
    cx.ensure("two intervals exactly with a change-over", len(times) == (2 if any(dead) else 1))
    if len(times) == 2:
        cx.ensure_eqs("first interval: free-wheeling", u[0], output(kind, [0 if d else w for d, w in zip(dead, legs(kind, a))], i))
    cx.ensure_eqs("last interval: the action", u[-1], output(kind, legs(kind, a), i))


@contract("C07", cases=["finite1qc"] + list(CONT), targets=[CVP + CONT[k] + ".set_action" for k in CONT] + [CVP + "PowerElectronicConverter._set_switching_pattern", CVP + "PowerElectronicConverter.tau"], samples=60)
def single_interval(cx, kind):
    """averaged converters and the one-quadrant converter announce the end of the step only"""
    tau, t0 = cx.real("tau", gt=0, typ=(1e-5, 1e-3)), cx.nonneg("t0", typ=(0, 0.1))
    il = cx.real("interlocking", lo=0, typ=(0, 1e-4))
    setter = cx.choice("setter", [False, True])
    if kind == "finite1qc":
        c = cv().FiniteOneQuadrantConverter(tau=1e-2 if setter else tau, interlocking_time=il)
        if setter:
            c.tau = tau
        a = cx.choice("action", [0, 1])
    else:
        c = cont(cx, kind, tau, il, setter)
        a = cx.array([cx.real(f"a{k}", typ=(-2, 2)) for k in range(NOUT[kind])]) if NOUT[kind] == 1 else cx.array([cx.real("a0", typ=(-2, 2)), 0.3, -0.4])
    for k in range(2):
        times = c.set_action(a, t0)
        cx.ensure("one interval", len(times) == 1)
        check_times(cx, times, t0, t0 + tau)
        t0 = t0 + tau


@contract("C07", cases=[("finite", m) for m in MULTI] + [("cont", m) for m in MULTI], targets=[CVP + "FiniteMultiConverter.set_action", CVP + "ContMultiConverter.set_action", CVP + "FiniteMultiConverter.tau", CVP + "ContMultiConverter.tau"], samples=40)
def multi_switching_times(cx, fam, kinds):
    """ordered, complete and inside the step, with different interlocking times of the sub-converters; the step size set on the multi converter reaches every sub-converter"""
    tau, t0 = cx.real("tau", gt=0, typ=(1e-5, 1e-3)), cx.nonneg("t0", typ=(0, 0.1))
    ils = [0.0 if j == 2 else cx.real(f"il{j}", gt=0, typ=(0, 1e-4)) for j in range(len(kinds))]
    for il in ils:
        cx.requires(il * 1000 < tau * 999)
    multi, singles = twins(cx, fam, kinds, tau, ils)
    if fam == "cont":
        n = sum(NOUT[k] for k in kinds)
        times = multi.set_action(cx.array([0.25 * (k + 1) / n for k in range(n)]), t0)
        check_times(cx, times, t0, t0 + tau)
        cx.ensure("one interval", len(times) == 1)
        return
    n_act = [FIN[k][1] for k in kinds]
    start = t0
    wants = None
    for step in range(2):
        action = [cx.choice(f"action{step}_{j}", [1, m - 1]) for j, m in enumerate(n_act)]
        times = multi.set_action(action, start)
        check_times(cx, times, start, start + tau)
        want = [s.set_action(a, start) for s, a in zip(singles, action)]
        # completeness: every instant of every sub-converter is announced
        for w in want:
            for t in w:
                cx.ensure("every sub-converter's instant is announced", any(bool(t == x) for x in times) if cx.symbolic else min(abs(t - x) for x in times) < 1e-12)
        for t in times:
            i = [1.0] * sum(NOUT[k] for k in kinds)
            multi.convert(i, t)
            for s, ii in zip(singles, slices(kinds, i)):
                s.convert(ii, t)
        start = start + tau
