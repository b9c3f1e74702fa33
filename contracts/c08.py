"""C08 losslessness: supply power equals output power."""
from vc.engine import contract

from .conv import CONT, CVP, FIN, NOUT, Timing, currents, cv, finite, legs, prior_step
from .c06 import HIST, MULTI, cont, slices, twins


@contract("C08", targets=[CVP + "FiniteOneQuadrantConverter.i_sup"], samples=60)
def finite_1qc(cx):
    c = cv().FiniteOneQuadrantConverter(tau=1e-4)
    i = cx.nonneg("i")  # the declared current range of the converter
    c.set_action(cx.choice("action", [0, 1]), 0.0)
    u = c.convert([i], 1e-4)
    cx.ensure_eq("power balance", c.i_sup([i]), u[0] * i)


@contract("C08", cases=[("2qc", a) for a in range(3)] + [("4qc", a) for a in range(4)] + [("b6", a) for a in range(8)], targets=[CVP + FIN[k][0] + ".i_sup" for k in ("2qc", "4qc", "b6")], samples=60, assumes=[HIST])
def finite_lossless(cx, kind, a):
    """in every interval of a step (dead interval included), for every preceding action and every current"""
    tm = Timing(cx)
    c = finite(cx, kind, tm)
    n = FIN[kind][1]
    prev = cx.choice("previous", [None] + list(range(n)))
    if prev is not None:
        prior_step(cx, c, kind, prev, tm, [1.0] * NOUT[kind])
    times = c.set_action(a, tm.t0 + tm.tau)
    for k, t in enumerate(times):
        i = currents(cx, kind, f"i{k}_", zero_sum=True)
        u = c.convert(i, t)
        p = 0
        for x, y in zip(u, i):
            p = p + x * y
        cx.ensure_eq("power balance", c.i_sup(i), p, scale=100.0)


@contract("C08", cases=[("1qc", 0), ("2qc", 0), ("4qc", 0), ("b6", 0), ("b6", 1), ("b6", 2)], targets=[CVP + CONT[k] + ".i_sup" for k in CONT], samples=100)
def cont_lossless(cx, kind, one):
    """averaged converters without interlocking time, clipped actions included"""
    c = cont(cx, kind, cx.real("tau", gt=0, typ=(1e-5, 1e-3)), 0.0, cx.choice("setter", [False, True]))
    n = NOUT[kind]
    i = currents(cx, kind, zero_sum=True) if kind != "1qc" else [cx.nonneg("i0")]
    a = [cx.real(f"a{k}", typ=(-2, 2)) if k == one else cx.real(f"a{k}", gt=-1, lt=1) for k in range(n)]  # clipping of one phase at a time
    c.set_action(cx.array(a), 0.0)
    u = c.convert(i, 1e-5)
    p = 0
    for x, y in zip(u, i):
        p = p + x * y
    cx.ensure_eq("power balance", c.i_sup(i), p, scale=100.0)


@contract("C08", targets=[CVP + "ContTwoQuadrantConverter.i_sup"], samples=100)
def cont_2qc_interlocking(cx):
    """with interlocking time the half bridge conducts the upper path for duty cycle a in the share (1 - il/tau) and the diode of the current direction in the rest"""
    tau = cx.real("tau", gt=0, typ=(1e-5, 1e-3))
    il = cx.real("interlocking", lo=0, typ=(0, 2e-4))
    cx.requires(il < tau)
    c = cont(cx, "2qc", tau, il, cx.choice("setter", [False, True]))
    a, i = cx.real("a", lo=0, hi=1), cx.real("i")
    c.set_action(cx.array([a]), 0.0)
    c.convert([i], tau)
    d = 1 if bool(i < 0) else 0
    cx.ensure_eq("supply current", c.i_sup([i]), (a * (1 - il / tau) + d * il / tau) * i)


@contract("C08", cases=[("finite", m) for m in MULTI] + [("cont", m) for m in MULTI], targets=[CVP + "FiniteMultiConverter.i_sup", CVP + "ContMultiConverter.i_sup"], samples=40)
def multi_converter(cx, fam, kinds):
    """supply current: sum over the sub-converters, each with its own slice of the currents"""
    tau = 1e-4
    multi, singles = twins(cx, fam, kinds, tau, [0.0] * len(kinds))
    n = sum(NOUT[k] for k in kinds)
    i = []
    for k in kinds:
        i += currents(cx, k, f"i{len(i)}_", zero_sum=True) if k != "1qc" else [cx.nonneg(f"i{len(i)}_0")]
    if fam == "finite":
        action = [cx.choice(f"action{j}", [FIN[k][1] - 1] if k == "b6" else [1, 3] if k == "4qc" else list(range(FIN[k][1]))) for j, k in enumerate(kinds)]
        parts = action
    else:
        action = cx.array([cx.real(f"a{j}", lo=0 if len(kinds) == 3 else -1, hi=1) if j == n - 1 else 0.1 * (j + 1) for j in range(n)])
        parts = slices(kinds, action)
    multi.set_action(action, 0.0)
    u = multi.convert(i, tau)
    s = 0
    for c, a, ii in zip(singles, parts, slices(kinds, i)):
        c.set_action(a, 0.0)
        c.convert(ii, tau)
        s = s + c.i_sup(ii)
    cx.ensure_eq("sum of the sub-converters' supply currents", multi.i_sup(i), s, scale=100.0)
    p = 0
    for x, y in zip(u, i):
        p = p + x * y
    cx.ensure_eq("power balance", multi.i_sup(i), p, scale=100.0)
