"""Deductive verification of the real Python functions of /repo.

A contract is a Python function  contract(cx)  that builds arbitrary inputs (cx.real, cx.vec, ...),
states the precondition (cx.requires), calls the real function / method of /repo, and states the
postcondition (cx.ensure, cx.ensure_eq, ...).  The same contract text has two readings:

* SymCtx: inputs are unconstrained symbols.  The real function body is executed over symbols, every
  branch on a symbolic condition forks, and each postcondition on each path becomes a proof
  obligation  (precondition /\\ path condition ==> postcondition)  that must be discharged for all
  values by (1) the polynomial normaliser, (2) z3, (3) z3 nlsat, (4) cvc5.
* ConCtx: inputs are numbers and the *unpatched* real code runs (replay of counterexamples, search
  for a failing input, and cross-check of the idealised semantics).
"""
import math
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import shim
from . import sym as S
from .shim import SArr, vec
from .sym import Infeasible, Normaliser, OutOfTime, Poly, PolyOverflow, SymBool, SymInt, SymReal, Unsupported, is_sym, to_bool, to_real

REPO = "/repo"
CVC5 = "cvc5"


class Reject(BaseException):
    """concrete precondition not met by this sample"""


class Failed(BaseException):
    """concrete postcondition violated"""

    def __init__(self, name, info=""):
        self.name, self.info = name, info


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "model", "goal", "path", "note")

    def __init__(self, name, status, backend="", t=0.0, model=None, goal="", path="", note=""):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.goal, self.path, self.note = model, goal, path, note


def flat(x):
    if isinstance(x, np.ndarray):
        return [v for v in np.asarray(x.view(np.ndarray)).reshape(-1)]
    if isinstance(x, (list, tuple)):
        r = []
        for v in x:
            r.extend(flat(v))
        return r
    return [x]


class Budget:
    def __init__(self, tier="quick"):
        k = 1 if tier == "quick" else 4
        self.smt = 4000 * k
        self.nl = 6000 * k
        self.cvc5 = 6 * k
        self.branch = 800
        self.paths = 600 * k
        self.contract_s = 150 * k


class _Common:
    symbolic = False

    def vec(self, prefix, n, **kw):
        xs = [self.real(f"{prefix}{i}", **kw) for i in range(n)]
        return self.array(xs)

    def positive(self, name, typ=(0.05, 5.0)):
        return self.real(name, gt=0, typ=typ)

    def nonneg(self, name, typ=(0.0, 5.0)):
        return self.real(name, lo=0, typ=typ)

    def ensure_eqs(self, name, a, b, **kw):
        fa, fb = flat(a), flat(b)
        self.ensure(name + ":len", len(fa) == len(fb), info=f"{len(fa)} vs {len(fb)}")
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.ensure_eq(f"{name}[{i}]", x, y, **kw)

    def ensure_between(self, name, x, lo, hi, **kw):
        self.ensure_le(name + ":lo", lo, x, **kw)
        self.ensure_le(name + ":hi", x, hi, **kw)

    def unchecked(self):
        """definedness (divisor, sqrt) inside this block is not an obligation of this contract"""
        return _Unchecked(self)

    def sample_requires(self, c):
        """restricts only the random samples (conditioning), never the proof"""


class _Unchecked:
    def __init__(self, cx):
        self.cx = cx

    def __enter__(self):
        self.old = getattr(self.cx, "div_obligations", True)
        self.cx.div_obligations = False

    def __exit__(self, *a):
        self.cx.div_obligations = self.old


class SymCtx(_Common):
    symbolic = True

    def __init__(self, decisions, budget):
        self.forced = list(decisions)
        self.taken = []
        self.alternatives = []  # [(prefix)]
        self.pc = []
        self.defs = []
        self.inputs = {}
        self.n = Normaliser()
        self.budget = budget
        self.obls = []
        self.counter = {}
        self.trig = {}
        self.sqrts = {}
        self.divs = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", budget.branch)
        self.solver.add(*S.CONST_AXIOMS)
        self.covers = {}
        self.substs = []
        self.div_obligations = True
        self.post_only = False
        self.solver_time = 0.0
        self.angles = {}  # input name -> (scale, c, s)
        self._keep = []

    # ----------------------------------------------------------- inputs
    def _in(self, name, e):
        if name in self.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.inputs[name] = e

    def real(self, name, lo=None, hi=None, gt=None, lt=None, typ=None, ne=None, special=()):
        e = z3.Real(name)
        self._in(name, e)
        x = SymReal(e)
        for c, op in ((lo, lambda v: e >= to_real(v)), (hi, lambda v: e <= to_real(v)), (gt, lambda v: e > to_real(v)), (lt, lambda v: e < to_real(v)), (ne, lambda v: e != to_real(v))):
            if c is not None:
                self._assume(op(c))
        return x

    def angle(self, name):
        return self.real(name)

    def int(self, name, lo=None, hi=None, typ=None):
        e = z3.Int(name)
        self._in(name, e)
        if lo is not None:
            self._assume(e >= S.to_int(lo))
        if hi is not None:
            self._assume(e <= S.to_int(hi))
        return SymInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        self._in(name, e)
        return SymBool(e)

    def choice(self, name, options):
        options = list(options)
        i = self._decide(len(options), None)
        self.inputs[name] = ("choice", i)
        return options[i]

    def array(self, xs):
        xs = list(xs)
        if xs and isinstance(xs[0], (list, tuple, np.ndarray)):
            rows = [list(r) for r in xs]
            return vec([v for r in rows for v in r]).reshape(len(rows), len(rows[0]))
        return vec(xs)

    def requires(self, c):
        b = z3.simplify(to_bool(c))
        if z3.is_true(b):
            return
        if z3.is_false(b):
            raise Infeasible()
        ok = self._feasible(b)
        self._assume(b)
        if not ok:
            raise Infeasible()

    def _assume(self, b):
        self.pc.append(b)
        self.solver.add(b)

    def define(self, ax):
        self.defs.append(ax)
        self.solver.add(ax)

    def _check(self, *a):
        t = time.time()
        try:
            return self.solver.check(*a)
        finally:
            self.solver_time += time.time() - t

    # ----------------------------------------------------------- decisions
    def _decide(self, n, feasible):
        k = len(self.taken)
        if k < len(self.forced):
            i = self.forced[k]
        else:
            i = None
            for j in range(n):
                if feasible is None or feasible(j):
                    if i is None:
                        i = j
                    else:
                        self.alternatives.append(self.taken + [j])
            if i is None:
                raise Infeasible()
        self.taken.append(i)
        return i

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        res = self._struct(e)
        if res is not None:
            return res
        conds = [e, z3.Not(e)]
        k = len(self.taken)
        if k < len(self.forced):
            i = self.forced[k]
            self.taken.append(i)
        else:
            ok = [self._feasible(c) for c in conds]
            if not any(ok):
                raise Infeasible()
            if all(ok):
                i = 0
                self.alternatives.append(self.taken + [1])
            else:
                i = 0 if ok[0] else 1
                # implied: no decision recorded as alternative, but keep the position stable
            self.taken.append(i)
        self._assume(conds[i])
        return i == 0

    def _feasible(self, c):
        """False only if the path condition excludes c (checked on the constraints connected to c)"""
        t = time.time()
        key = z3.simplify(c)
        neg = z3.simplify(z3.Not(c))
        for p in self.pc:
            if p.eq(c) or p.eq(key):
                return True
            if p.eq(neg):
                return False
        hyps = self._relevant(c)
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*hyps)
        s.add(c)
        r = s.check()
        if r == z3.unknown and not _has_int(hyps + [c]):
            s = z3.Then("simplify", "purify-arith", "solve-eqs", "propagate-values", "simplify", "qfnra-nlsat").solver()
            s.set("timeout", self.budget.branch)
            s.add(*hyps)
            s.add(c)
            try:
                r = s.check()
            except z3.Z3Exception:
                pass
        self.solver_time += time.time() - t
        return r != z3.unsat

    def _struct(self, e):
        """decide ground/identical comparisons with the normaliser"""
        try:
            if z3.is_eq(e) and z3.is_arith(e.arg(0)):
                n, d = self.n.norm(e.arg(0) - e.arg(1))
                n = self.n.reduce(n)
                if n.is_zero():
                    return True
                if n.is_const():
                    return False
        except (PolyOverflow, Unsupported, RecursionError):
            pass
        return None

    def concretise_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        k = len(self.taken)
        if k < len(self.forced):
            v = self.forced[k]
            self.taken.append(v)
        else:
            vals = self._values(self.solver, e)
            if vals is None:
                # only the hypotheses about the index: at most more values, none lost
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*self._relevant(e))
                vals = self._values(s, e)
            if not vals:
                raise Unsupported("unbounded symbolic index")
            vals.sort()
            v = vals[0]
            for w in vals[1:]:
                self.alternatives.append(self.taken + [w])
            self.taken.append(v)
        self._assume(e == v)
        return v

    def _values(self, solver, e):
        """all values of an integer under the solver's assertions; None when they cannot be listed"""
        vals, t = [], time.time()
        solver.push()
        try:
            while True:
                r = solver.check()
                if r != z3.sat or len(vals) >= 24:
                    return vals if r == z3.unsat else None
                v = solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                solver.add(e != v)
        finally:
            solver.pop()
            self.solver_time += time.time() - t

    # ----------------------------------------------------------- fresh symbols and operations
    def _name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def fresh_real(self, base="r"):
        return SymReal(z3.Real(self._name(base)))

    def fresh_int(self, base="k"):
        return z3.Int(self._name(base))

    def fresh_bool(self, base="b"):
        return SymBool(z3.Bool(self._name(base)))

    def division(self, eb):
        eb = z3.simplify(eb)
        if z3.is_rational_value(eb):
            if eb.numerator_as_long() == 0:
                raise ZeroDivisionError("division by zero")
            return
        k = eb.get_id()
        if k in self.divs:
            return
        self._keep.append(eb)
        self.divs.add(k)
        if self.div_obligations:
            self._oblige("defined: divisor != 0", eb != 0)
        self._assume(eb != 0)

    def floor_of(self, e):
        v = z3.simplify(e)
        if z3.is_rational_value(v):
            return z3.IntVal(v.numerator_as_long() // v.denominator_as_long())
        if v.decl().kind() == z3.Z3_OP_TO_REAL:
            return v.arg(0)
        if not hasattr(self, "floors"):
            self.floors = {}
        key = self._key(e)
        if key not in self.floors:
            k = self.fresh_int("fl")
            self.define(z3.And(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1))
            self.floors[key] = k
        return self.floors[key]

    def quotient(self, a, b):
        """a / b, exactly cancelled when a is a multiple of the integer-valued b"""
        ea, eb = z3.simplify(to_real(a)), z3.simplify(to_real(b))
        try:
            for x in _int_atoms(eb):
                c = z3.simplify(z3.substitute(ea, (x, z3.IntVal(2))) - z3.substitute(ea, (x, z3.IntVal(1))))
                if self.n.zero(ea - c * eb):
                    return SymReal(c)
        except (PolyOverflow, Unsupported):
            pass
        return SymReal(ea) / SymReal(eb)

    def _key(self, e):
        try:
            rf = self.n.norm(e)
            num = self.n.reduce(rf[0])
            return repr((num.key(), tuple(sorted((k2, v[1]) for k2, v in rf[1].items()))))
        except (PolyOverflow, Unsupported):
            return e.sexpr()

    def pow_of(self, a, n):
        """a ** n for a real exponent and a >= 0: an atom with the order axioms of the power function"""
        a, n = z3.simplify(to_real(a)), z3.simplify(to_real(n))
        if not hasattr(self, "pows"):
            self.pows = []
        ka, kn = self._key(a), self._key(n)
        for ka2, kn2, _, _, r in self.pows:
            if ka == ka2 and kn == kn2:
                return SymReal(r)
        r = z3.Real(self._name("pow"))
        if self.div_obligations:
            self._oblige("defined: power of a non-negative base", z3.And(a >= 0, z3.Or(a > 0, n >= 0)))
        I = z3.Implies
        ax = [r >= 0, I(a > 0, r > 0), I(n == 0, r == 1), I(n == 1, r == a), I(a == 1, r == 1), I(z3.And(a == 0, n > 0), r == 0), I(z3.And(a >= 1, n >= 0), r >= 1), I(z3.And(a <= 1, n >= 0), r <= 1)]
        for ka2, kn2, b, m, q in self.pows:
            if kn == kn2:
                ax += [I(z3.And(n >= 0, a <= b), r <= q), I(z3.And(n >= 0, b <= a), q <= r)]
        self.define(I(a >= 0, z3.And(*ax)))
        self.n._atom(r)
        self.pows.append((ka, kn, a, n, r))
        return SymReal(r)

    def sqrt_of(self, e):
        e = z3.simplify(e)
        key = None
        rf = None
        try:
            rf = self.n.norm(e)
            num = self.n.reduce(rf[0])
            key = (num.key(), tuple(sorted((k2, v[1]) for k2, v in rf[1].items()))) if True else None
            key = repr(key)
        except (PolyOverflow, Unsupported):
            key = e.sexpr()
        if key in self.sqrts:
            return self.sqrts[key]
        r = z3.Real(self._name("sqrt"))
        if self.div_obligations:
            self._oblige("defined: sqrt argument >= 0", e >= 0)
        self.define(z3.And(r >= 0, r * r == e))
        self.n._atom(r)
        if rf is not None and not rf[1]:
            self.n.square_rule(r.decl().name(), num)
        self.sqrts[key] = r
        return r

    # trigonometry
    def _const_trig(self, c):
        q = c / S.PI
        fr = q.limit_denominator(12)
        if abs(float(q) - float(fr)) > 1e-12:
            return None
        fr = fr % 2
        d = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        half = z3.Q(1, 2)
        if fr in d:
            x, y = d[fr]
            return z3.RealVal(x), z3.RealVal(y)
        base = fr % Fraction(1, 2)
        quad = int(fr // Fraction(1, 2))
        if base == Fraction(1, 3):
            c_, s_ = half, S.S3 / 2
        elif base == Fraction(1, 6):
            c_, s_ = S.S3 / 2, half
        elif base == Fraction(1, 4):
            c_, s_ = S.S2 / 2, S.S2 / 2
        else:
            return None
        for _ in range(quad):
            c_, s_ = -s_, c_
        return c_, s_

    def _base_trig(self, key, unit):
        if key not in self.trig:
            c, s = z3.Real(self._name("cos")), z3.Real(self._name("sin"))
            self.define(z3.And(c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1))
            self.n._atom(c), self.n._atom(s)
            # cos^2 := 1 - sin^2
            self.n.square_rule(c.decl().name(), Poly.const(1) - Poly({((s.decl().name(), 2),): Fraction(1)}))
            self.trig[key] = (c, s)
            self._keep.append(unit)
            if unit is not None:
                self.angles[key] = (unit, c, s)
        return self.trig[key]

    def trig_of(self, e):
        e = z3.simplify(e)
        try:
            num, den = self.n.norm(e)
            num = self.n.reduce(num)
        except (PolyOverflow, Unsupported):
            return self._base_trig(e.sexpr(), e)
        if num.t and (den or (getattr(self, "opaque_trig", False) and len(num.t) > 1)):
            if min(num.t.items(), key=lambda kv: repr(kv[0]))[1] < 0:  # cos(-a) = cos(a), sin(-a) = -sin(a)
                c, s = self.trig_of(-e)
                return c, z3.simplify(-s)
            return self._base_trig(repr((num.key(), sorted(map(repr, den.items())))), e)
        C, Sn = z3.RealVal(1), z3.RealVal(0)
        first = True
        for m, coef in sorted(num.t.items(), key=lambda kv: repr(kv[0])):
            if m == ():
                ct = self._const_trig(coef)
                if ct is None:
                    fl = float(coef)
                    ct = self._base_trig(("const", coef), None)
                    self.define(z3.And(ct[0] > z3.RealVal(Fraction(math.cos(fl)) - Fraction(1, 10**12)), ct[0] < z3.RealVal(Fraction(math.cos(fl)) + Fraction(1, 10**12))))
                    self.define(z3.And(ct[1] > z3.RealVal(Fraction(math.sin(fl)) - Fraction(1, 10**12)), ct[1] < z3.RealVal(Fraction(math.sin(fl)) + Fraction(1, 10**12))))
                c, s = ct
            else:
                # integer atom times a multiple of 2*pi: full turns
                ints = all(self.n.atoms[a].sort() == z3.IntSort() for a, _ in m)
                q = coef / (2 * S.PI)
                fr = q.limit_denominator(12)
                simple_pi = abs(q - fr) <= abs(q) * Fraction(1, 10**14) and fr != 0
                if ints and simple_pi and fr.denominator == 1:
                    continue
                if simple_pi:
                    fr = fr * 2
                    key, mult, den_ = ("pi", m, fr.denominator), fr.numerator, fr.denominator
                    unit_c = S.PI / den_
                    if abs(mult) > 8:  # a base angle of its own (no relation to smaller multiples needed)
                        key, unit_c, mult = ("pi*", m, abs(fr)), unit_c * abs(mult), (1 if mult > 0 else -1)
                else:
                    f1 = coef.limit_denominator(12)
                    if f1 == coef and abs(f1.numerator) <= 12:
                        key, mult = ("", m, f1.denominator), f1.numerator
                        unit_c = Fraction(1, f1.denominator)
                    else:
                        key, mult = ("c", m, abs(coef)), (1 if coef > 0 else -1)
                        unit_c = abs(coef)
                unit = z3.Q(unit_c.numerator, unit_c.denominator) * self.n.poly_to_z3(Poly({m: Fraction(1)}))
                bc, bs = self._base_trig(key, unit)
                if mult < 0:
                    bs, mult = -bs, -mult
                c, s = bc, bs
                for _ in range(mult - 1):
                    c, s = c * bc - s * bs, s * bc + c * bs
            if first:
                C, Sn, first = c, s, False
            else:
                C, Sn = C * c - Sn * s, Sn * c + C * s
        return z3.simplify(C), z3.simplify(Sn)

    def arctan2_of(self, y, x):
        ey, ex = to_real(y), to_real(x)
        if self.branch(z3.And(ex == 0, ey == 0)):
            return 0.0
        r = self.sqrt_of(ex * ex + ey * ey)
        self.define(r > 0)
        key = ("at", z3.simplify(ey).sexpr(), z3.simplify(ex).sexpr())
        if key in self.counter:
            return SymReal(self.counter[key])
        a = z3.Real(self._name("atan2"))
        self.counter[key] = a
        PIq = z3.Q(S.PI.numerator, S.PI.denominator)
        self.define(z3.And(a > -PIq, a <= PIq, (ey > 0) == z3.And(a > 0, a < PIq), (ey < 0) == (a < 0), z3.Implies(ey == 0, z3.If(ex > 0, a == 0, a == PIq)),
                           z3.Implies(ex > 0, z3.And(a > -PIq / 2, a < PIq / 2)), z3.Implies(z3.And(ex < 0, ey >= 0), a > PIq / 2), z3.Implies(z3.And(ex < 0, ey < 0), a < -PIq / 2),
                           z3.Implies(ex == 0, z3.If(ey > 0, a == PIq / 2, a == -PIq / 2))))
        self.n._atom(a)
        self.divs.add(r.get_id())
        self._keep.append(r)
        self.trig[("", ((a.decl().name(), 1),), 1)] = (ex / r, ey / r)
        return SymReal(a)

    # ----------------------------------------------------------- obligations
    def _oblige(self, name, goal):
        if len(self.taken) < len(self.forced):
            return  # already an obligation of the parent path (same prefix)
        self.obls.append(self.prove(name, goal))

    def prove(self, name, goal):
        t0 = time.time()
        g = z3.simplify(goal)
        path = f"{self.taken}"
        if z3.is_true(g):
            return Obligation(name, "proved", "simplifier", time.time() - t0, path=path)
        # 1. polynomial identity
        try:
            if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
                d = goal.arg(0) - goal.arg(1)
                if self.n.zero(d):
                    return Obligation(name, "proved", "polynomial-normaliser", time.time() - t0, path=path)
                subs = self._equalities()
                if subs:
                    d2 = z3.substitute(d, *subs)
                    if self.n.zero(d2):
                        return Obligation(name, "proved", "polynomial-normaliser", time.time() - t0, path=path)
        except (PolyOverflow, Unsupported, RecursionError):
            pass
        ng = self._normal_goal(goal)
        if ng is not None:
            g2 = z3.simplify(ng)
            if z3.is_true(g2):
                return Obligation(name, "proved", "polynomial-normaliser", time.time() - t0, path=path)
            if len(g2.sexpr()) < 20000 and _quick_unsat(self._relevant(g2), g2, 1200):
                return Obligation(name, "proved", "z3", time.time() - t0, path=path)
        hyps = self._relevant(g)
        # 2. z3 default
        s = z3.Solver()
        s.set("timeout", self.budget.smt)
        s.add(*hyps)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return Obligation(name, "proved", "z3", time.time() - t0, path=path)
        model = None
        if r == z3.sat:
            model = s.model()
        else:
            t = z3.Then("simplify", "purify-arith", "solve-eqs", "propagate-values", "simplify", "qfnra-nlsat").solver() if not _has_int(hyps + [g]) else z3.SolverFor("QF_NIRA")
            t.set("timeout", self.budget.nl)
            t.add(*hyps)
            t.add(z3.Not(g))
            try:
                r = t.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                return Obligation(name, "proved", "z3-nlsat", time.time() - t0, path=path)
            if r == z3.sat:
                model = t.model()
            else:
                r2, out = run_cvc5(hyps, g, self.budget.cvc5)
                if r2 == "unsat":
                    return Obligation(name, "proved", "cvc5", time.time() - t0, path=path)
        if model is None:
            return Obligation(name, "unknown", "", time.time() - t0, goal=_short(g), path=path)
        feasible = self._rest_feasible(g)
        if feasible is False:
            return Obligation(name, "proved", "z3", time.time() - t0, path=path)
        # nicer model: keep the inputs moderate
        nice = self._nice_model(g)
        return Obligation(name, "refuted", "z3", time.time() - t0, model=self.model_values(nice or model), goal=_short(g), path=path, note="open path" if not feasible else "loop cut" if getattr(self, "loop_cut", False) else "")

    def _rest_feasible(self, g):
        """can the hypotheses that share no variable with the goal hold?  True / False / None (open)"""
        rel = {id(h) for h in self._relevant(g)}
        groups = []
        for h in self._all_hyps():
            if id(h) in rel:
                continue
            v, hs = set(_vars(h)), [h]
            keep = []
            for gv, gh in groups:
                if gv & v:
                    v |= gv
                    hs = gh + hs
                else:
                    keep.append((gv, gh))
            groups = keep + [(v, hs)]
        res = True
        for v, hs in groups:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*hs)
            r = s.check()
            if r == z3.unknown and not _has_int(hs):
                s = z3.Then("simplify", "purify-arith", "solve-eqs", "propagate-values", "simplify", "qfnra-nlsat").solver()
                s.set("timeout", 2000)
                s.add(*hs)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
            if r == z3.unsat:
                return False
            if r != z3.sat:
                res = None
        return res

    def _normal_goal(self, g):
        """a <= b, a < b, a != b, a == b  over a common denominator (divisors are known to be nonzero)"""
        try:
            neg = False
            while z3.is_not(g):
                neg, g = not neg, g.arg(0)
            if z3.is_distinct(g) and g.num_args() == 2:
                neg = not neg
                op = "eq"
            elif z3.is_eq(g) and z3.is_arith(g.arg(0)):
                op = "eq"
            elif z3.is_le(g):
                op = "le"
            elif z3.is_lt(g):
                op = "lt"
            elif z3.is_ge(g):
                op = "ge"
            elif z3.is_gt(g):
                op = "gt"
            else:
                return None
            num, den = self.n.norm(g.arg(0) - g.arg(1))
            num = self.n.reduce(num)
            if len(num.t) > 400:
                return None
            e = self.n.poly_to_z3(num)
            if op != "eq":
                for _, (p, k) in den.items():
                    if k % 2:
                        e = e * self.n.poly_to_z3(p)
            r = {"eq": e == 0, "le": e <= 0, "lt": e < 0, "ge": e >= 0, "gt": e > 0}[op]
            return z3.Not(r) if neg else r
        except (PolyOverflow, Unsupported, RecursionError):
            return None

    def _nice_model(self, g):
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*self._all_hyps())
        s.add(z3.Not(g))
        for n, e in self.inputs.items():
            if z3.is_expr(e) and e.sort() == z3.RealSort():
                s.add(e <= 1000, e >= -1000)
        try:
            if s.check() == z3.sat:
                return s.model()
        except z3.Z3Exception:
            pass
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*self._all_hyps())
        s.add(z3.Not(g))
        if s.check() == z3.sat:
            return s.model()
        return None

    def _equalities(self):
        subs = []
        for p in self.pc:
            for q in (p.children() if z3.is_and(p) else [p]):
                if z3.is_eq(q) and z3.is_arith(q.arg(0)):
                    a, b = q.arg(0), q.arg(1)
                    for x, y in ((a, b), (b, a)):
                        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_rational_value(y) or z3.is_int_value(y)):
                            subs.append((x, y))
                            break
        return subs

    def _all_hyps(self):
        return S.CONST_AXIOMS + self.defs + self.pc

    def _relevant(self, g):
        hyps = self._all_hyps()
        vs = _vars(g)
        pool = [(h, _vars(h)) for h in hyps]
        out, changed = [], True
        used = [False] * len(pool)
        while changed:
            changed = False
            for i, (h, v) in enumerate(pool):
                if not used[i] and (v & vs or not v):
                    used[i] = True
                    out.append(h)
                    if not v <= vs:
                        vs |= v
                    changed = True
        return out

    def model_values(self, m):
        vals = {}
        for n, e in self.inputs.items():
            if isinstance(e, tuple):
                vals[n] = e[1]
                continue
            v = m.eval(e, model_completion=True)
            vals[n] = _num_of(v)
        # angles: recover from cos/sin
        for key, (unit, c, s) in self.angles.items():
            if not isinstance(key, tuple) or len(key) < 2:
                continue
            mono = key[1]
            if not (isinstance(mono, tuple) and len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in self.inputs):
                continue
            cv, sv = _num_of(m.eval(c, model_completion=True)), _num_of(m.eval(s, model_completion=True))
            name = mono[0][0]
            u = z3.simplify(z3.substitute(unit, (z3.Real(name), z3.RealVal(1)))) if True else None
            try:
                uv = _num_of(u)
                vals[name] = math.atan2(sv, cv) / uv
            except Exception:
                pass
        return vals

    # ----------------------------------------------------------- public contract API
    def _cond(self, c):
        return to_bool(c)

    def ensure(self, name, c, info=""):
        if isinstance(c, np.ndarray):
            c = shim.FUNCS["all"](c)
        self._oblige(name, to_bool(c))

    def ensure_eq(self, name, a, b, tol=None, scale=0.0):
        if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
            self.ensure(name, bool(abs(a - b) <= (tol or 1e-9) * max(1.0, abs(a), abs(b), scale)))
            return
        self._oblige(name, to_real(a) == to_real(b))

    def ensure_le(self, name, a, b, tol=None, scale=0.0):
        if isinstance(b, (float, np.floating)) and b == math.inf or isinstance(a, (float, np.floating)) and a == -math.inf:
            return self.ensure(name, True)
        self._oblige(name, to_real(a) <= to_real(b))

    def ensure_implies(self, name, p, q):
        self._oblige(name, z3.Implies(to_bool(p), to_bool(q)))

    def ensure_some(self, name, thunks, info=""):
        """at least one of the alternatives holds (tried one by one before their disjunction)"""
        if len(self.taken) < len(self.forced):
            return
        t0, goals = time.time(), []
        for f in thunks:
            g = to_bool(f())
            s = z3.simplify(g)
            if z3.is_true(s) or _quick_unsat(self._relevant(s), s, 800):
                self.obls.append(Obligation(name, "proved", "simplifier" if z3.is_true(s) else "z3", time.time() - t0, path=f"{self.taken}"))
                return
            goals.append(g)
        self._oblige(name, z3.Or(*goals))

    def fail(self, name, info=""):
        self.ensure(name, False, info)

    def ensure_derivatives(self, name, f, xs, jac, **kw):
        """jac[i][j] == d f_i / d x_j; f: callable on list of inputs"""
        y = flat(f(self.array(list(xs))))
        J = np.asarray(jac, dtype=object)
        self.ensure(name + ":shape", J.shape == (len(y), len(xs)))
        for j, x in enumerate(xs):
            nm = x.e.decl().name()
            for i, yi in enumerate(y):
                yi = to_real(yi)
                try:
                    rf = self.n.norm(yi)
                    d = self.n.rf_to_z3(self.n.diff(rf, nm))
                except PolyOverflow:
                    self.obls.append(Obligation(f"{name}[{i},{j}]", "unknown", note="normal form too large"))
                    continue
                self._oblige(f"{name}[{i},{j}]", to_real(J[i, j]) == d)

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def note(self, *_):
        pass


def _int_atoms(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def _quick_unsat(hyps, g, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*hyps)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def _short(g, n=600):
    s = g.sexpr() if z3.is_expr(g) else str(g)
    return s if len(s) < n else s[:n] + "..."


_vcache = {}


def _vars(e):
    k = e.get_id()
    if k in _vcache:
        return _vcache[k][1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        else:
            st.extend(x.children())
    _vcache[k] = (e, out)
    return out


def _has_int(es):
    for e in es:
        seen, st = set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(x) and x.sort() == z3.IntSort() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            st.extend(x.children())
    return False


def _num_of(v):
    if z3.is_bool(v):
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0.0


def run_cvc5(hyps, g, timeout):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(g))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run([CVC5, "--lang=smt2", f"--tlimit={int(timeout * 1000)}", "--nl-ext-tplanes", "-"], input=txt, capture_output=True, text=True, timeout=timeout + 3)
        o = p.stdout.strip().split("\n")[0] if p.stdout else ""
        return o, p.stdout
    except Exception as ex:  # noqa
        return "unknown", str(ex)


# ----------------------------------------------------------------------------- concrete context
class ConCtx(_Common):
    def __init__(self, values=None, rng=None, mode=0):
        self.values = values
        self.rng = rng or random.Random(0)
        self.used = {}
        self.mode = mode
        self.checks = 0
        self.failures = []
        self.first_only = None
        self.covers = {}
        self.nontrivial = 0
        self.strict_tol = 1.0

    def real(self, name, lo=None, hi=None, gt=None, lt=None, typ=None, ne=None, special=()):
        if self.values is not None and name in self.values:
            v = float(self.values[name])
        else:
            a, b = typ or (None, None)
            lo_, hi_ = (lo if lo is not None else gt), (hi if hi is not None else lt)
            if a is None:
                a = float(lo_) if lo_ is not None else (float(hi_) - 20.0 if hi_ is not None else -10.0)
            if b is None:
                b = float(hi_) if hi_ is not None else max(10.0, a + 10.0)
            if lo_ is not None:
                a = max(a, float(lo_))
            if hi_ is not None:
                b = min(b, float(hi_))
            u = self.rng.random()
            if u < 0.22:
                cands = [c for c in (0.0, 1.0, -1.0, a, b, *special) if a <= c <= b] or [a]
                v = self.rng.choice(cands)
            elif u < 0.3 and a >= 0 and b > 0:
                v = b * 10 ** (-3 * self.rng.random())
            else:
                v = self.rng.uniform(a, b)
            if (gt is not None and v <= gt) or (lt is not None and v >= lt) or (ne is not None and v == ne):
                v = self.rng.uniform(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (lt is not None and v >= lt) or (ne is not None and v == ne):
            raise Reject()
        self.used[name] = v
        return v

    def angle(self, name):
        if self.values is not None and name in self.values:
            v = float(self.values[name])
        else:
            v = self.rng.choice([0.0, math.pi / 3, -math.pi / 2, math.pi, -math.pi]) if self.rng.random() < 0.2 else self.rng.uniform(-7, 7)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, typ=None):
        if self.values is not None and name in self.values:
            v = int(self.values[name])
        else:
            a, b = typ or (lo if lo is not None else -5, hi if hi is not None else (lo or 0) + 10)
            v = self.rng.randint(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.values[name]) if self.values is not None and name in self.values else self.rng.random() < 0.5
        self.used[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        i = int(self.values[name]) if self.values is not None and name in self.values else self.rng.randrange(len(options))
        self.used[name] = i
        return options[i]

    def array(self, xs):
        return np.array(xs, dtype=float) if not any(isinstance(x, (list, tuple, np.ndarray)) for x in xs) else np.array(xs)

    def requires(self, c):
        if not bool(np.all(c)):
            raise Reject()

    def define(self, ax):
        pass

    def sample_requires(self, c):
        if self.values is None and not bool(np.all(c)):
            raise Reject()

    def _bad(self, name, info):
        self.failures.append((name, info))

    def ensure(self, name, c, info=""):
        self.checks += 1
        if not bool(np.all(c)):
            self._bad(name, info)

    def ensure_eq(self, name, a, b, tol=None, scale=0.0):
        self.checks += 1
        if not _is_number(a) or not _is_number(b):
            if not (a is b or (np.shape(a) == np.shape(b) and bool(np.all(a == b)))):
                self._bad(name, f"{a!r} != {b!r}")
            return
        a, b = float(np.asarray(a).reshape(-1)[0]), float(np.asarray(b).reshape(-1)[0])
        if a == b:
            return
        t = (tol or 1e-8) * self.strict_tol * max(1.0, abs(a), abs(b), scale, self._scale())
        if not abs(a - b) <= t:
            self._bad(name, f"{a!r} != {b!r}")

    def _scale(self):
        return 1e-3 * max([abs(v) for v in self.used.values() if isinstance(v, float) and math.isfinite(v)] or [0.0])

    def ensure_le(self, name, a, b, tol=None, scale=0.0):
        self.checks += 1
        a, b = float(np.asarray(a).reshape(-1)[0]), float(np.asarray(b).reshape(-1)[0])
        if a <= b:
            return
        t = (tol or 1e-8) * self.strict_tol * max(1.0, scale, *(abs(v) for v in (a, b) if math.isfinite(v)))
        if not a <= b + t:
            self._bad(name, f"{a!r} > {b!r}")

    def ensure_some(self, name, thunks, info=""):
        self.ensure(name, any(bool(f()) for f in thunks), info)

    def ensure_implies(self, name, p, q):
        self.ensure(name, (not bool(np.all(p))) or bool(np.all(q)))

    def fail(self, name, info=""):
        self.checks += 1
        self._bad(name, info)

    def ensure_derivatives(self, name, f, xs, jac, tol=1e-4, **kw):
        xs = [float(x) for x in xs]
        y0 = np.array(flat(f(np.array(xs))), dtype=float)
        J = np.asarray(jac, dtype=float)
        self.ensure(name + ":shape", J.shape == (len(y0), len(xs)), info=f"{J.shape}")
        if J.shape != (len(y0), len(xs)):
            return
        for j in range(len(xs)):
            h = 1e-4 * max(1.0, abs(xs[j]))
            d = []
            for hh in (h, h / 2):
                p, q = list(xs), list(xs)
                p[j] += hh
                q[j] -= hh
                d.append((np.array(flat(f(np.array(p))), dtype=float) - np.array(flat(f(np.array(q))), dtype=float)) / (p[j] - q[j]))
            num = (4 * d[1] - d[0]) / 3
            for i in range(len(y0)):
                self.checks += 1
                # kinks: the two step sizes disagree -> not differentiable here, skip
                if abs(d[0][i] - d[1][i]) > 1e-3 * max(1.0, abs(d[0][i]), abs(J[i, j])):
                    continue
                if not abs(num[i] - J[i, j]) <= tol * max(1.0, abs(num[i]), abs(J[i, j])) + 1e-9 * abs(y0[i]) / h:
                    self._bad(f"{name}[{i},{j}]", f"numeric {num[i]!r} vs reported {J[i, j]!r}")

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def fresh_real(self, base="r"):
        raise Reject()


def _is_number(x):
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return True
    return isinstance(x, np.ndarray) and x.size == 1 and x.dtype != object


# ----------------------------------------------------------------------------- contracts registry
class Contract:
    def __init__(self, prop, name, fn, **kw):
        self.prop, self.name, self.fn = prop, name, fn
        self.targets = kw.get("targets", [])
        self.case = kw.get("case")
        self.mode = kw.get("mode", "prove")  # prove | bounded
        self.samples = kw.get("samples", 40)
        self.search = kw.get("search", 1500)
        self.div = kw.get("div", True)
        self.why_bounded = kw.get("why", "")
        self.thorough_only = kw.get("thorough", False)
        self.known = kw.get("known")
        self.inject = kw.get("inject")
        self.merge = kw.get("merge", False)
        self.opaque_trig = kw.get("opaque_trig", False)
        self.exc_ok = kw.get("exc_ok", ())
        self.assumes = kw.get("assumes", [])

    @property
    def id(self):
        return self.name

    def run(self, cx):
        if self.case is None:
            return self.fn(cx)
        return self.fn(cx, *self.case) if isinstance(self.case, tuple) else self.fn(cx, self.case)


REGISTRY = {}


def contract(prop, name=None, cases=None, **kw):
    def deco(fn):
        base = name or fn.__name__
        if cases is None:
            REGISTRY.setdefault(prop, []).append(Contract(prop, base, fn, **kw))
        else:
            for c in cases:
                label = c if isinstance(c, str) else "-".join(getattr(x, "__name__", str(x)) for x in (c if isinstance(c, tuple) else (c,)))
                REGISTRY.setdefault(prop, []).append(Contract(prop, f"{base}[{label}]", fn, case=c, **kw))
        return fn

    return deco


# ----------------------------------------------------------------------------- running one contract
class _Alarm:
    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*_):
            raise OutOfTime()

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, self.s))

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def _in_repo(fname):
    return fname.startswith(REPO + "/") and "/tests/" not in fname


def _repo_frame(tb):
    """innermost frame of the traceback is inside /repo code (directly or through a library it called)"""
    last = None
    for f in traceback.extract_tb(tb):
        if _in_repo(f.filename):
            last = f
    return last


class SymResult:
    def __init__(self):
        self.obls = []
        self.paths = 0
        self.reached = 0
        self.problem = None  # text when the proof attempt is incomplete
        self.exceptions = []
        self.functions = set()
        self.solver_time = 0.0


def run_symbolic(c, budget):
    res = SymResult()
    stack = [[]]
    t0 = time.time()
    S_old = S._current
    try:
        with _Alarm(budget.contract_s):
            while stack:
                dec = stack.pop()
                if res.paths >= budget.paths:
                    res.problem = f"path budget ({budget.paths}) exceeded"
                    break
                cx = SymCtx(dec, budget)
                cx.div_obligations = c.div
                cx.merge = bool(c.merge)
                cx.opaque_trig = bool(c.opaque_trig)
                S.set_current(cx)
                res.paths += 1
                prof = res.paths <= 3
                funcs = res.functions

                def tracer(frame, event, arg):
                    if event == "call":
                        co = frame.f_code
                        if _in_repo(co.co_filename):
                            funcs.add(f"{os.path.relpath(co.co_filename, REPO)}:{co.co_qualname}")

                try:
                    with shim.injected(c.inject(cx) if c.inject else None):
                        if prof:
                            sys.setprofile(tracer)
                        try:
                            c.run(cx)
                        finally:
                            if prof:
                                sys.setprofile(None)
                    res.reached += 1
                except Infeasible:
                    pass
                except Unsupported as ex:
                    res.problem = f"unsupported: {ex}"
                except OutOfTime:
                    raise
                except Reject:
                    pass
                except (z3.Z3Exception, RecursionError) as ex:
                    res.problem = f"engine: {type(ex).__name__}: {ex}"
                except Exception as ex:
                    fr = _repo_frame(ex.__traceback__)
                    # an exception is an obligation "no exception" that the path refutes
                    ob = Obligation(f"no exception ({type(ex).__name__})", "refuted", "path", 0.0, path=str(cx.taken))
                    try:
                        m = None
                        if cx.solver.check() == z3.sat:
                            m = cx.solver.model()
                        ob.model = cx.model_values(m) if m is not None else None
                    except Exception:  # noqa
                        pass
                    ob.goal = f"{type(ex).__name__}: {ex} at {fr.filename + ':' + str(fr.lineno) if fr else traceback.format_exc()[-800:]}"
                    ob.note = "exception"
                    cx.obls.append(ob)
                res.obls.extend(cx.obls)
                res.solver_time += cx.solver_time + sum(o.time for o in cx.obls)
                stack.extend(reversed(cx.alternatives))
                if sum(1 for o in res.obls if o.status == "refuted") >= 6:
                    res.problem = res.problem or "stopped after 6 refuted obligations"
                    break
    except OutOfTime:
        res.problem = f"time budget ({budget.contract_s} s) exceeded"
    finally:
        sys.setprofile(None)
        S.set_current(S_old)
    return res


def run_concrete(c, values=None, rng=None, raise_exc=False):
    """-> (status, ConCtx, info) with status ok | reject | fail"""
    cx = ConCtx(values, rng)
    S.set_current(None)
    try:
        with np.errstate(all="ignore"):
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c.run(cx)
    except Reject:
        return ("fail" if cx.failures else "reject"), cx, cx.failures
    except (Unsupported, Infeasible):
        return "reject", cx, []
    except OutOfTime:
        raise
    except Exception as ex:
        fr = _repo_frame(ex.__traceback__)
        cx.failures.append((f"no exception ({type(ex).__name__})", f"{type(ex).__name__}: {ex} at {fr.filename + ':' + str(fr.lineno) if fr else traceback.format_exc()[-1500:]}"))
        cx.exception = ex
        cx.exc_frame = fr
        return "fail", cx, cx.failures
    return ("fail" if cx.failures else "ok"), cx, cx.failures


def stable_failure(c, cx):
    """A concrete failure counts if it survives a tiny change of the real inputs (no rounding or measure-zero
    artefact): re-run with the same values must fail again with the same obligation name."""
    st, cx2, _ = run_concrete(c, dict(cx.used), random.Random(1))
    if st != "fail":
        return False
    return bool({n for n, _ in cx2.failures} & {n for n, _ in cx.failures})
