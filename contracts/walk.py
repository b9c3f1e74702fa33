"""Random walks over sub-episodes of any length: loop invariant on the real loop of `_reset_reference`.

At the head of iteration i the carried value is the value of the walk so far (the start value for i = 0, element i - 1
afterwards); the body writes element i, once, as that value plus draw i limited to the margins."""
import importlib

from .rng import Rng, with_rng


class Draws:
    """a vector of symbolic length: draw i of the distribution"""

    def __init__(self, rng, loc, scale):
        self.rng, self.loc, self.scale, self.d = rng, loc, scale, {}

    def __getitem__(self, i):
        k = str(i)
        if k not in self.d:
            self.d[k] = self.rng.cx.fresh_real("draw")
        return self.loc + self.scale * self.d[k]

    def ghost_zeros_like(self):
        self.rng.out = Written(self.rng)
        return self.rng.out

    def __getattr__(self, n):
        from vc.loopcut import NoInvariant

        raise NoInvariant("the draws are used in another way: " + n)


class Written:
    """the trajectory: an array of symbolic length; writes are recorded, reads give an arbitrary proven element"""

    def __init__(self, rng):
        self.rng, self.writes = rng, []

    def __setitem__(self, i, v):
        self.writes.append((i, v))

    def __getitem__(self, i):
        return self.rng.read(i)

    def __getattr__(self, n):
        from vc.loopcut import NoInvariant

        raise NoInvariant("the trajectory is used in another way: " + n)


class WalkRng(Rng):
    reads = None

    def _walk(self, loc, scale, size):
        from vc import sym as S

        if isinstance(size, S.SymInt):
            self.draws = Draws(self, loc, scale)
            return self.draws
        return None

    def normal(self, loc=0.0, scale=1.0, size=None):
        w = self._walk(loc, scale, size)
        return super().normal(loc, scale, size) if w is None else w

    def laplace(self, loc=0.0, scale=1.0, size=None):
        w = self._walk(loc, scale, size)
        return super().laplace(loc, scale, size) if w is None else w


def any_length(cx, kind, recurrence):
    from .c19 import CLS, R, build, cls_of, system

    from vc.loopcut import NoInvariant, cut

    rng = WalkRng(cx)
    g, ps, lo, hi, _ = build(cx, kind, "default", -1.0, "tuple", (1, 1), rng)
    mod = importlib.import_module(R + CLS[kind][0])
    L = cx.int("length", lo=1)
    g._current_episode_length = L
    start = cx.real("start", lo=None)
    if recurrence:
        cx.requires(lo <= start)
        cx.requires(start <= hi)
    g._reference_value = start
    val, now = {}, []

    def seq(i):
        k = str(i)
        if k not in val:
            val[k] = start if k == "0" else cx.fresh_real("walk")
            if k != "0" and recurrence:
                cx.requires(lo <= val[k])
                cx.requires(val[k] <= hi)
        return val[k]

    def observe(what, i):
        if what == "stepped":
            w = rng.out.writes[now[0][2]:]
            cx.ensure("one element per iteration", len(w) == 1)
            cx.ensure_eq("element i in iteration i", w[0][0], i)
            v = w[0][1]
            cx.ensure_between("inside the margin", v, lo, hi)
            if recurrence:
                n = seq(i) + rng.draws[i]
                cx.ensure_implies("the previous value plus the draw", (n >= lo) & (n <= hi), v == n)
                cx.ensure_implies("limited to the upper margin", n > hi, v == hi)
                cx.ensure_implies("limited to the lower margin", n < lo, v == lo)
            val[str(i + 1)] = v
        now[:] = [(what, i, len(rng.out.writes) if hasattr(rng, "out") else 0)]

    with cut(cx, mod, {"value of the walk": seq}, observe):
        g._reset_reference()
    if not (now and now[0][0] == "exit" and hasattr(rng, "out")):
        raise NoInvariant("the loop was not cut")
    cx.ensure("nothing is written after the loop", len(rng.out.writes) == now[0][2])
    cx.ensure("the trajectory is the written one", g._reference is rng.out)
    cx.ensure("the draws belong to the sub-episode", rng.draws is not None)
