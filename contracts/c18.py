"""C18 weighted sum of errors."""
import math

import numpy as np

from vc.engine import contract

from .envstub import StubReference, StubSystem

W = "gym_electric_motor.reward_functions.weighted_sum_of_errors.WeightedSumOfErrors."
T = [W + "set_modules", W + "reward", W + "_wse_reward", "gym_electric_motor.utils.set_state_array", "gym_electric_motor.utils.state_dict_to_state_array"]
NAMES = ["omega", "i_a", "u_sup"]
SPACES = {"symmetric": ([-1.0, -1.0, -1.0], [1.0, 1.0, 1.0]), "positive": ([0.0, -1.0, 0.0], [1.0, 1.0, 1.0]), "physical": ([-4.0, 0.0, 2.0], [4.0, 3.0, 2.5])}


def build(cx, n, space, weights, normed, bias, power, violation, referenced=(0,)):
    """real reward function + the documented values written independently"""
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    names = NAMES[:n]
    low, high = (v[:n] for v in SPACES[space])
    length = [h - l for l, h in zip(low, high)]
    ps = StubSystem(cx, [], names, low=low, high=high)
    rg = StubReference(cx, [])
    rg.set_modules(ps)
    rg._referenced_states = np.array([i in referenced for i in range(n)])
    kw, given = {}, {}
    if weights == "default":
        w = [1.0 / len(referenced) if i in referenced else 0.0 for i in range(n)] if referenced else [1.0 / n] * n
    elif weights == "float":
        v = cx.nonneg("w")
        w, given["reward_weights"] = [v] * n, v
    else:
        w = [cx.nonneg(f"w{i}") for i in range(n)]
        if weights == "dict":
            w = [w[i] if i == n - 1 else 0.0 for i in range(n)]
            given["reward_weights"] = {names[-1]: w[-1]}
        else:
            given["reward_weights"] = list(w) if weights == "list" else cx.array(w)
    total = 0
    for v in w:
        total = total + v
    if normed:
        cx.requires(total > 0)
        given["normed_reward_weights"] = True
        cx.sample_requires(total > 1e-3)
    wn = [v / total for v in w] if normed else w
    tot = 1.0 if normed else total
    if bias == "default":
        b = 0.0
    elif bias == "positive":
        b, given["bias"] = tot, "positive"
    else:
        b = cx.real("bias", typ=(-2, 2))
        given["bias"] = b
    if power == "symbolic":
        v = cx.nonneg("power", typ=(0.2, 3))
        p, given["reward_power"] = [v] * n, v
    elif power == "dict":
        p, given["reward_power"] = [2.0] + [0.0] * (n - 1), {names[0]: 2.0}
    elif power == "list":
        p = [1.0, 0.5, 2.0][:n]
        given["reward_power"] = list(p)
    else:
        p = [float(power)] * n
        if power != 1:
            given["reward_power"] = power
    lo = b - tot
    if violation == "given":
        viol = cx.real("violation_reward", typ=(-20, 5))
        given["violation_reward"] = viol
    else:
        if violation == "gamma":
            g = cx.real("gamma", lo=0, lt=1)
            given["gamma"] = g
        else:
            g = 0.9
        viol = lo / (1.0 - g)
        viol = (viol if bool(viol < 0) else 0) if cx.symbolic else min(viol, 0)
    before = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in given.items()}
    rf = WeightedSumOfErrors(**given)
    rf.set_modules(ps, rg, None)
    cx.ensure("the user's arguments are not modified", all(_same(before[k], given[k]) for k in given))
    return rf, dict(names=names, length=length, w=wn, p=p, b=b, lo=lo, viol=viol, n=n, low=low, high=high)


def _same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    return a is b


def wse(cx, d, state, ref):
    from vc import sym as S

    s = 0
    for i in range(d["n"]):
        if isinstance(d["w"][i], float) and d["w"][i] == 0.0:
            continue
        e = state[i] - ref[i]
        if cx.symbolic:
            e = e if bool(e >= 0) else -e
            s = s + d["w"][i] * S.power(e / d["length"][i], d["p"][i])
        else:
            s = s + d["w"][i] * (abs(e) / d["length"][i]) ** d["p"][i]
    return d["b"] - s


CASES = [(n, sp, w, nm, b, p, v) for n, sp, w, nm, b, p, v in [
    (1, "symmetric", "default", False, "default", 1, "default"), (2, "positive", "default", False, "default", 1, "default"), (2, "symmetric", "list", False, "number", 1, "gamma"), (2, "positive", "list", True, "number", 1, "given"),
    (2, "physical", "array", False, "positive", 2, "gamma"), (2, "positive", "array", True, "positive", 2, "default"), (2, "symmetric", "dict", False, "positive", 0.5, "given"), (2, "positive", "dict", True, "default", "symbolic", "gamma"),
    (2, "symmetric", "float", False, "number", "dict", "default"), (2, "physical", "float", True, "positive", "list", "gamma"), (1, "positive", "float", True, "number", "symbolic", "gamma"), (1, "physical", "list", False, "positive", "symbolic", "default"),
    (3, "positive", "list", False, "number", 1, "given"), (3, "symmetric", "array", True, "number", 2, "default"), (3, "positive", "default", False, "positive", "list", "gamma"), (3, "physical", "dict", False, "number", "dict", "gamma"), (2, "symmetric", "list", False, "default", 3, "default"),
    (2, "physical", "list", True, "default", "list", "default"), (2, "symmetric", "list", False, "number", "symbolic", "given")]]


@contract("C18", cases=CASES, targets=T, samples=80)
def value(cx, n, space, weights, normed, bias, power, violation):
    """the reward has the documented value for every state, reference and violation degree"""
    rf, d = build(cx, n, space, weights, normed, bias, power, violation)
    state, ref = cx.vec("s", n, typ=(-1.2, 1.2)), cx.vec("r", n, typ=(-1, 1))
    v = cx.real("degree", lo=0, hi=1, special=(0.0, 1.0))
    k = cx.int("k", lo=0)
    r = rf.reward(state, ref, k, 0, v)
    want = (1 - v) * wse(cx, d, state, ref) + v * d["viol"]
    cx.ensure_eq("documented reward", r, want, tol=1e-7)
    cx.ensure_eq("same value when called", rf(state, ref, k, 0, v), want, tol=1e-7)
    cx.ensure_eqs("announced range", rf.reward_range, (d["lo"], d["b"]))


@contract("C18", cases=CASES, targets=T, samples=80)
def bounds(cx, n, space, weights, normed, bias, power, violation):
    """no violation and errors within the state range: the reward lies in the announced range and is maximal at zero error"""
    rf, d = build(cx, n, space, weights, normed, bias, power, violation)
    state, ref = cx.vec("s", n, typ=(-1, 1)), cx.vec("r", n, typ=(-1, 1))
    for i in range(n):
        e = state[i] - ref[i]
        cx.requires(e <= d["length"][i])
        cx.requires(-d["length"][i] <= e)
    r = rf.reward(state, ref, 0, 0, 0.0)
    lo, hi = rf.reward_range
    cx.ensure_between("in the announced range", r, lo, hi, tol=1e-9)
    r0 = rf.reward(ref, ref, 0, 0, 0.0)
    cx.ensure_le("maximal at zero error", r, r0, tol=1e-9)
    if all(isinstance(p, float) and p > 0 for p in d["p"]):
        cx.ensure_eq("zero error gives the bias", r0, d["b"])


@contract("C18", cases=[c for c in CASES if c[0] <= 2], targets=T, samples=60)
def monotone(cx, n, space, weights, normed, bias, power, violation):
    """a larger error of a state never gives a larger reward"""
    rf, d = build(cx, n, space, weights, normed, bias, power, violation)
    state, ref = cx.vec("s", n, typ=(-1, 1)), cx.vec("r", n, typ=(-1, 1))
    j = cx.choice("grown", list(range(n)))
    other = cx.real("other", typ=(-1.5, 1.5))
    e1, e2 = state[j] - ref[j], other - ref[j]
    if cx.symbolic:
        cx.requires(e1 * e1 <= e2 * e2)
        cx.requires(((e1 <= e2) | (e1 <= -e2)) & ((-e1 <= e2) | (-e1 <= -e2)))
    else:
        cx.requires(abs(e1) <= abs(e2))
    s2 = cx.array([other if i == j else state[i] for i in range(n)])
    cx.ensure_le("not increased", rf.reward(s2, ref, 0, 0, 0.0), rf.reward(state, ref, 0, 0, 0.0), tol=1e-9)


@contract("C18", cases=[(n, refs) for n in (1, 2, 3) for refs in [(0,), (1,), (0, 1), (0, 2), (0, 1, 2), (2,), ()] if all(r < n for r in refs)], targets=T, samples=40)
def default_weights(cx, n, refs):
    """default weights: equally distributed over the referenced states; the others have no influence"""
    rf, d = build(cx, n, "positive", "default", False, "default", 1, "default", referenced=refs)
    ref = cx.vec("r", n, typ=(-1, 1))
    s = cx.vec("s", n, typ=(-1, 1))
    t = [s[i] if i in refs or not refs else cx.real(f"t{i}", typ=(-5, 5)) for i in range(n)]
    v = cx.real("degree", lo=0, hi=1)
    a, b = rf.reward(s, ref, 0, 0, v), rf.reward(cx.array(t), ref, 0, 0, v)
    cx.ensure_eq("unreferenced states have no influence", a, b)
    cx.ensure_eq("value", a, (1 - v) * wse(cx, d, s, ref) + v * d["viol"])


@contract("C18", cases=[(w, v) for w in ("list", "default", "dict") for v in ("default", "gamma", "given")], targets=T, samples=40)
def history(cx, weights, violation):
    """the reward depends on its arguments only: resets, other steps and step numbers do not change it"""
    rf, d = build(cx, 2, "symmetric", weights, False, "default", 1, violation)
    s, r = cx.vec("s", 2, typ=(-1, 1)), cx.vec("r", 2, typ=(-1, 1))
    s2, r2 = cx.vec("x", 2, typ=(-1, 1)), cx.vec("y", 2, typ=(-1, 1))
    v, v2 = cx.real("degree", lo=0, hi=1), cx.real("degree2", lo=0, hi=1)
    keep = (list(s), list(r))
    a = rf.reward(s, r, 0, 0, v)
    rf.reward(s2, r2, 1, 1, v2)
    rf.reset(s2, r2)
    b = rf.reward(s, r, 17, 3, v)
    cx.ensure_eq("same arguments, same reward", a, b)
    cx.ensure("state and reference not modified", all(x is y or x == y for x, y in zip(keep[0] + keep[1], list(s) + list(r))))
