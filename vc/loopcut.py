"""Loop invariants on a `for _ in range(n)` of the real code, n symbolic.

The loop is cut in the running frame of the unmodified function: `range` (looked up in the module's globals) is replaced by
an iterable that (1) lets the body run once from the entry state to see which local variables and attributes of `self` the
body changes, (2) checks the invariant at entry, (3) sets the changed ones to arbitrary values satisfying the invariant at an
arbitrary index 0 <= i < n, clears every local that exists only inside the body, lets the body run once more and checks the
invariant at i + 1, (4) sets them to arbitrary values satisfying the invariant at n and leaves the loop.

The invariant is given as roles: name -> function of the index giving the value at the head of iteration i. A changed
variable gets the role whose value at 0 it has at entry, so the names used by the code do not matter. A local
variable changed by the body without such a role is removed before the second run and after the loop (a read of it raises:
only variables that are dead at the loop head pass); a changed attribute without a role makes the proof impossible:
`NoInvariant`. Both are reported as undecided, never as a violation.
"""
import builtins
import contextlib
import ctypes
import sys

import numpy as np

from . import sym as S


class NoInvariant(S.Unsupported):
    pass


def same(cx, a, b):
    """equal as polynomials in the symbols"""
    return len(a) == len(b) and all(cx.n.zero(S.to_real(u) - S.to_real(v)) for u, v in zip(a, b))


def _flat(v):
    return list(np.asarray(v, dtype=object).reshape(-1))


def _isnum(v):
    return isinstance(v, (int, float, S.SymReal, S.SymInt, np.ndarray, np.generic)) and not isinstance(v, bool)


def _snap(v):
    return _flat(v) if isinstance(v, np.ndarray) else v


def _unchanged(old_obj, old, new):
    if new is not old_obj:
        return False
    if isinstance(new, np.ndarray):
        n = _flat(new)
        return len(n) == len(old) and all(a is b for a, b in zip(old, n))
    if isinstance(new, list):
        return True
    return True


def _set(frame, values, delete=()):
    loc = frame.f_locals
    for k, v in values.items():
        loc[k] = v
    for k in delete:
        loc.pop(k, None)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(1))


class Cut:
    def __init__(self, cx, n, roles, observe):
        self.cx, self.n, self.roles, self.observe = cx, n, roles, observe

    def __iter__(self):
        self.phase = 0
        return self

    # state of the loop: locals and attributes of self
    def _state(self, frame):
        loc = dict(frame.f_locals)
        st = {("l", k): v for k, v in loc.items()}
        me = loc.get("self")
        if me is not None:
            st.update({("a", k): v for k, v in vars(me).items()})
        return st

    def _restore(self, frame, values, delete=()):
        _set(frame, {k: v for (w, k), v in values.items() if w == "l"}, [k for w, k in delete if w == "l"])
        me = frame.f_locals.get("self")
        for (w, k), v in values.items():
            if w == "a":
                setattr(me, k, v)
        for w, k in delete:
            if w == "a":
                delattr(me, k)

    def _at(self, i):
        return {k: self.roles[r](i) for k, r in self.carried.items()}

    def __next__(self):
        frame = sys._getframe(1)
        cx = self.cx
        self.phase += 1
        if self.phase == 1:
            if not bool(self.n > 0):
                raise StopIteration
            cx.loop_cut = True  # a refuted obligation may mean that the invariant does not fit: no alarm without a failing input
            self.entry = self._state(frame)
            self.snap = {k: _snap(v) for k, v in self.entry.items()}
            self.observe("probe", 0)
            return 0
        if self.phase == 2:
            now = self._state(frame)
            changed = [k for k in self.entry if k in now and not _unchanged(self.entry[k], self.snap[k], now[k])]
            self.inner = [k for k in now if k not in self.entry]
            self.carried, self.dead = {}, []
            for k in changed:
                v = self.entry[k]
                for r, f in self.roles.items():
                    w = f(0)
                    if (same(cx, _flat(v), _flat(w)) if _isnum(v) and _isnum(w) else v is w):
                        self.carried[k] = r
                        break
                else:
                    if k[0] == "a":
                        raise NoInvariant(f"no invariant for the loop-carried attribute {k[1]}")
                    self.dead.append(k)
            self.inner += self.dead
            self.i = S.SymInt(cx.fresh_int("iteration"))
            cx.requires(self.i >= 0)
            cx.requires(self.i < self.n)
            self._restore(frame, self._at(self.i), self.inner)
            self.observe("step", self.i)
            return self.i
        if self.phase == 3:
            self.observe("stepped", self.i)
            now = self._state(frame)
            for k, v in self._at(self.i + 1).items():
                if k in now and not _isnum(v):
                    cx.ensure(f"loop invariant preserved ({self.carried[k]})", now[k] is v)
                elif k in now:
                    cx.ensure_eqs(f"loop invariant preserved ({self.carried[k]})", _flat(now[k]), _flat(v))
            bad = [k for k in self.entry if k in now and k not in self.carried and k not in self.dead and not _unchanged(self.entry[k], self.snap[k], now[k])]
            if bad:
                raise NoInvariant(f"no invariant for the loop-carried variable {bad[0][1]}")
            inner = [k for k in now if k not in self.entry] + self.dead
            self._restore(frame, self._at(self.n), inner)
            self.observe("exit", self.n)
            raise StopIteration
        raise AssertionError


@contextlib.contextmanager
def cut(cx, module, roles, observe):
    """inside: `range(n)` with a symbolic n in `module` is cut with the invariant `roles`"""

    def rng(*a):
        if len(a) == 1 and isinstance(a[0], S.SymInt):
            return Cut(cx, a[0], roles, observe)
        return builtins.range(*a)

    had = "range" in vars(module)
    old = vars(module).get("range")
    module.range = rng
    try:
        yield
    finally:
        if had:
            module.range = old
        else:
            del module.range
