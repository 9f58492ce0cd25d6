"""Path exploration and SMT discharge.

A harness is a Python function h(ctx) that builds inputs with ctx.real/ctx.angle,
runs the real AMAT code on them and states obligations with ctx.eq / ctx.check.
`Explorer.run(h)` executes h on symbolic inputs once per feasible path (forking at
every branch the code takes on a symbolic value) and hands
    path condition  and  defining facts  and  not(obligation)
to z3.  unsat on every path = the obligation holds for all inputs inside the
declared bounds.  sat = candidate counterexample, replayed by running the same
harness on floats against the untouched modules before it is reported.
"""
import functools
import inspect
import json
import math
import os
import random
import subprocess
import time
import traceback
import types
from fractions import Fraction as Fr

import z3

from . import core
from .core import Sym, SymBool, Unsupported, ATOMS, And, Or, Implies, negate, lift

z3.set_param('memory_max_size', 6000)


def positional(real, fn):
    """fn called with the arguments in the order of the real function's parameters, whatever mix of keywords the caller uses"""
    sig = inspect.signature(real)

    @functools.wraps(fn)
    def stand_in(*a, **k):
        if k:
            b = sig.bind(*a, **k)
            a, k = b.args, b.kwargs
        return fn(*a, **k)
    stand_in.__signature__ = sig
    return stand_in


class Abort(BaseException):
    """stop this path (assumption false)"""


class PathLimit(BaseException):
    pass


# ------------------------------------------------------------------ z3 encoding
class Enc:
    def __init__(self):
        self.vars = {}
        self.roots = {}
        self.invs = {}
        self.facts = []
        self.done = set()
        self.atoms = []

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = ATOMS[aid]
            v = z3.Real('%s_%d' % (a.kind, aid))
            self.vars[aid] = v
            self.atoms.append(aid)
            self.define(aid, a, v)
        return v

    def root(self, aid, f):
        """z3 term for atom**f, 0<f<1"""
        k = (aid, f)
        w = self.roots.get(k)
        if w is None:
            a = ATOMS[aid]
            w = z3.Real('root_%d_%d_%d' % (aid, f.numerator, f.denominator))
            self.roots[k] = w
            q = f.denominator
            if f.numerator == 1:
                base = self.atomterm(aid)
                if q <= 4:
                    t = w
                    for _ in range(q - 1):
                        t = t * w
                    self.facts.append(t == base)
                    self.facts.append(base >= 0)
                    self.facts.append(w > 0 if a.sign == 'pos' else w >= 0)
                else:
                    base = self.atomterm(aid)
                    self.facts.append(w > 0 if a.sign == 'pos' else w >= 0)
                    # monotone anchor points (exact): w vs 1
                    self.facts.append(z3.Implies(base == 0, w == 0))
                    self.facts.append((base > 1) == (w > 1))
                    self.facts.append((base == 1) == (w == 1))
                    self.facts.append(base >= 0)
            else:
                if q <= 4:
                    r = self.root(aid, Fr(1, q))
                    t = r
                    for _ in range(f.numerator - 1):
                        t = t * r
                    self.facts.append(w == t)
                else:
                    base = self.atomterm(aid)
                    self.facts.append(w > 0 if a.sign == 'pos' else w >= 0)
                    self.facts.append((base > 1) == (w > 1))
                    self.facts.append((base == 1) == (w == 1))
                    self.facts.append(z3.Implies(base == 0, w == 0))
                    self.facts.append(base >= 0)
        return w

    def atomterm(self, aid):
        a = ATOMS[aid]
        if a.kind == 'sum':
            self.var(aid)
            return self.vars[aid]
        return self.var(aid)

    def inv(self, aid):
        i = self.invs.get(aid)
        if i is None:
            i = z3.Real('inv_%d' % aid)
            self.invs[aid] = i
            self.facts.append(i * self.atomterm(aid) == 1)
            if ATOMS[aid].sign == 'pos':
                self.facts.append(i > 0)
        return i

    def rinv(self, aid, f):
        k = ('r', aid, f)
        i = self.invs.get(k)
        if i is None:
            i = z3.Real('rinv_%d_%d_%d' % (aid, f.numerator, f.denominator))
            self.invs[k] = i
            self.facts.append(i * self.root(aid, f) == 1)
            self.facts.append(i > 0)
        return i

    def power(self, aid, e):
        t = []
        if abs(e) > 12:
            # large powers are opaque (with sign and order facts): sound for unsat, models are replayed
            k = ('big', aid, e)
            w = self.invs.get(k)
            if w is None:
                w = self.invs[k] = z3.Real('big_%d_%d' % (aid, len(self.invs)))
                v = self.atomterm(aid)
                if ATOMS[aid].sign == 'pos':
                    self.facts += [w > 0, z3.Implies(v > 1, w > v if e > 0 else w < 1), z3.Implies(v == 1, w == 1),
                                   z3.Implies(v < 1, w < 1 if e > 0 else w > 1)]
                elif e == int(e) and e % 2 == 0:
                    self.facts.append(w >= 0)
            return [w]
        if isinstance(e, int):
            n, f = e, None
        else:
            n = math.floor(e)
            f = e - n
            if n < 0:      # use 1/root * integer part closer to zero
                # a^e = a^(n+1) * a^(f-1) ; a^(f-1) = 1/a^(1-f)
                g = 1 - f
                t.append(self.rinv(aid, g))
                n, f = n + 1, None
        if n > 0:
            v = self.atomterm(aid)
            t += [v] * n
        elif n < 0:
            v = self.inv(aid)
            t += [v] * (-n)
        if f:
            t.append(self.root(aid, f))
        return t

    def sym(self, s):
        tot = []
        for m, c in s.key:
            t = []
            for aid, e in m:
                t += self.power(aid, e)
            q = z3.Q(c.numerator, c.denominator)
            if not t:
                tot.append(q)
                continue
            p = t[0]
            for x in t[1:]:
                p = p * x
            if c != 1:
                p = q * p
            tot.append(p)
        if not tot:
            return z3.RealVal(0)
        if len(tot) == 1:
            return tot[0]
        return z3.Sum(tot)

    def bool(self, c):
        if not isinstance(c, SymBool):
            return z3.BoolVal(bool(c))
        if c.op == 'and':
            return z3.And([self.bool(x) for x in c.a])
        if c.op == 'or':
            return z3.Or([self.bool(x) for x in c.a])
        t = self.sym(c.a)
        return {'<': t < 0, '<=': t <= 0, '==': t == 0, '!=': t != 0}[c.op]

    def define(self, aid, a, v):
        F = self.facts
        k = a.kind
        if a.sign == 'pos':
            F.append(v > 0)
        elif a.sign == 'nonneg':
            F.append(v >= 0)
        if k == 'var':
            if a.lo is not None:
                F.append(v >= z3.Q(Fr(a.lo).numerator, Fr(a.lo).denominator))
            if a.hi is not None:
                F.append(v <= z3.Q(Fr(a.hi).numerator, Fr(a.hi).denominator))
        elif k == 'pi':
            F.append(v > z3.Q(314159265358979, 10 ** 14))
            F.append(v < z3.Q(314159265358980, 10 ** 14))
        elif k == 'ln10':
            F.append(v > z3.Q(2302585092994, 10 ** 12))
            F.append(v < z3.Q(2302585092995, 10 ** 12))
        elif k == 'num':
            F.append(v == a.args[0])
        elif k in ('sum', 'let'):
            F.append(v == self.sym(a.extra))
        elif k == 'C' or k == 'S':
            ca = a if k == 'C' else a.extra
            sa = core._TABLE[('S', ca.args)]
            if ('cs', ca.id) not in self.done:
                self.done.add(('cs', ca.id))
                c, s = self.var(ca.id), self.var(sa.id)
                F.append(c * c + s * s == 1)
                F.append(c <= 1)
                F.append(c >= -1)
                F.append(s <= 1)
                F.append(s >= -1)
                self.angle_facts(ca.extra, c, s)
        elif k in ('acos', 'asin', 'atan', 'atan2'):
            p = self.var(pi_atom().id)
            if k == 'acos':
                F += [v >= 0, v <= p]
                u = self.sym(a.extra)
                F += [u <= 1, u >= -1, (v == 0) == (u == 1), (v == p) == (u == -1), (2 * v < p) == (u > 0), (2 * v == p) == (u == 0)]
                self.inverse_link(a, v, p)
            elif k == 'asin':
                F += [2 * v >= -p, 2 * v <= p]
                u = self.sym(a.extra)
                F += [u <= 1, u >= -1, (v > 0) == (u > 0), (v == 0) == (u == 0), (2 * v == p) == (u == 1), (2 * v == -p) == (u == -1)]
                self.inverse_link(a, v, p)
            elif k == 'atan':
                F += [2 * v > -p, 2 * v < p]
                u = self.sym(a.extra)
                F += [(v > 0) == (u > 0), (v == 0) == (u == 0), (4 * v > p) == (u > 1), (4 * v == p) == (u == 1),
                      (4 * v < -p) == (u < -1)]
            else:
                y, x = self.sym(a.extra[0]), self.sym(a.extra[1])
                F += [v > -p, v <= p, z3.Or(y != 0, x != 0)]
                F += [(v > 0) == z3.Or(y > 0, z3.And(y == 0, x < 0)), (v < 0) == (y < 0),
                      z3.And(2 * v < p, 2 * v > -p) == (x > 0)]
        elif k in ('asinh', 'atanh'):
            u = self.sym(a.extra)
            F += [(v > 0) == (u > 0), (v == 0) == (u == 0)]
            F.append(z3.Implies(u > 0, v < u if k == 'asinh' else v > u))
            F.append(z3.Implies(u < 0, v > u if k == 'asinh' else v < u))
            if k == 'atanh':
                F += [u < 1, u > -1, z3.Implies(u > 0, v * (1 - u * u) < u), z3.Implies(u < 0, v * (1 - u * u) > u)]
            else:
                F.append(z3.Implies(u != 0, v * v * (1 + u * u) > u * u))
        elif k == 'log10':
            b = self.sym(a.extra)
            F += [b > 0, (v > 0) == (b > 1), (v == 0) == (b == 1), (v > 1) == (b > 10), (v < -1) == (b < z3.Q(1, 10))]
            if a.extra.is_const():
                lv = math.log10(float(a.extra.cval()))
                F += [v > z3.RealVal(repr(lv - 1e-12)), v < z3.RealVal(repr(lv + 1e-12))]
        elif k == 'exp10':
            b = self.sym(a.extra)
            F += [v > 0, (v > 1) == (b > 0), (v == 1) == (b == 0), (v > 10) == (b > 1)]
        elif k == 'floor':
            b = self.sym(a.extra)
            n = z3.ToReal(z3.Int('fl_%d' % aid))
            F += [v == n, v <= b, b < v + 1]
        elif k == 'rnd':
            b, h = self.sym(a.extra), z3.Q(1, 2) / 10 ** a.args[1]
            F += [v <= b + h, v >= b - h]
        elif k == 'uf':
            pass
        else:
            raise Unsupported('encode ' + k)

    def inverse_link(self, a, v, p):
        """acos(cos x) = x on [0,pi] (and asin(sin x) = x on [-pi/2,pi/2])."""
        u = a.extra
        if len(u.t) == 1:
            (m, c), = u.t.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                at = ATOMS[m[0][0]]
                if a.kind == 'acos' and at.kind == 'C' and c == 1:
                    x = self.sym(at.extra)
                    self.facts += [z3.Implies(z3.And(x >= 0, x <= p), v == x), z3.Implies(z3.And(x <= 0, x >= -p), v == -x)]
                if a.kind == 'asin' and at.kind == 'S':
                    x = self.sym(at.extra.extra) * int(c)
                    self.facts += [z3.Implies(z3.And(2 * x >= -p, 2 * x <= p), v == x)]

    def angle_facts(self, base, c, s):
        """Link the angle itself with its cosine/sine when the angle is used as a number too."""
        F = self.facts
        if base.is_const():
            val = float(base.cval())
            F += [c > z3.RealVal(repr(math.cos(val) - 1e-12)), c < z3.RealVal(repr(math.cos(val) + 1e-12)),
                  s > z3.RealVal(repr(math.sin(val) - 1e-12)), s < z3.RealVal(repr(math.sin(val) + 1e-12))]
            return
        rng = angle_range(base)
        if rng is None:
            return
        lo, hi = rng
        if lo == hi:
            F += [c > z3.RealVal(repr(math.cos(lo) - 1e-9)), c < z3.RealVal(repr(math.cos(lo) + 1e-9)),
                  s > z3.RealVal(repr(math.sin(lo) - 1e-9)), s < z3.RealVal(repr(math.sin(lo) + 1e-9))]
            return
        if lo >= -math.pi - 1e-9 and hi <= math.pi + 1e-9:
            if lo >= 0:
                F.append(s >= 0)
            if hi <= 0:
                F.append(s <= 0)
            if lo > 0 and hi < math.pi:
                F.append(s > 0)
            if hi < 0 and lo > -math.pi:
                F.append(s < 0)
            if lo >= -math.pi / 2 - 1e-9 and hi <= math.pi / 2 + 1e-9:
                F.append(c >= 0)
                if lo > -math.pi / 2 and hi < math.pi / 2:
                    F.append(c > 0)
                    cm = min(math.cos(lo), math.cos(hi))
                    F.append(c >= z3.RealVal(repr(max(0.0, cm - 1e-9))))
            x = self.sym(base)
            p = self.var(pi_atom().id)
            F += [z3.Implies(z3.And(x > 0, x < p), s > 0), z3.Implies(z3.And(x < 0, x > -p), s < 0),
                  z3.Implies(x == 0, c == 1),
                  z3.Implies(z3.And(2 * x < p, 2 * x > -p), c > 0),
                  z3.Implies(z3.Or(2 * x > p, 2 * x < -p), c < 0)]


def pi_atom():
    return core._TABLE[('pi', ())]


def angle_range(base):
    """interval (floats) of a single-monomial angle when its atoms have bounds"""
    (m, c), = base.t.items()
    lo = hi = float(c)
    for aid, e in m:
        a = ATOMS[aid]
        if a.kind == 'pi':
            l = h = math.pi
        elif a.kind == 'var' and a.lo is not None and a.hi is not None:
            l, h = float(a.lo), float(a.hi)
        elif a.kind == 'acos':
            l, h = 0.0, math.pi
        elif a.kind in ('asin', 'atan'):
            l, h = -math.pi / 2, math.pi / 2
        elif a.kind == 'atan2':
            l, h = -math.pi, math.pi
        else:
            return None
        if e != 1:
            if e < 0 and l <= 0 <= h:
                return None
            if not isinstance(e, int) and l < 0:
                return None
            cand = [l ** float(e) if not isinstance(e, int) else l ** e, h ** float(e) if not isinstance(e, int) else h ** e]
            if isinstance(e, int) and e % 2 == 0 and l < 0 < h:
                cand.append(0.0)
            l, h = min(cand), max(cand)
        cand = [lo * l, lo * h, hi * l, hi * h]
        lo, hi = min(cand), max(cand)
    return lo, hi


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.time = 0.0
        self.paths = 0
        self.branch_queries = 0
        self.decisions = 0
        self.slowest = 0.0
        self.cvc5 = 0


class Stop(BaseException):
    """the time budget of a worker is used up"""


class Explorer:
    def __init__(self, mods, tier='quick', seed=1, timeout_ms=20000, branch_ms=2000, max_paths=400, deadline=None):
        self.mods = mods
        self.tier = tier
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.branch_ms = branch_ms
        self.max_paths = max_paths
        self.stats = Stats()
        self.deadline = deadline
        self.cache = {}
        self.cut = None
        self.known = ()
        self.domains = {}     # (kind, argument, path) -> (context, length of the path condition)

    # -- solver
    def solve(self, conds, timeout, want_model=False, extra=None, stat='queries'):
        t0 = time.time()
        enc = Enc()
        zs = [enc.bool(c) for c in conds]
        r, m = 'unknown', None
        self.stats.__dict__[stat] += 1
        flat = [z3.simplify(z) for z in zs]
        if any(z3.is_false(z) for z in flat):
            r = 'unsat'
        else:
            for mk in (lambda: z3.SolverFor('QF_NRA'), lambda: z3.Solver()):
                s = mk()
                s.set('timeout', int(timeout))
                s.set('random_seed', self.seed % 1000)
                for z in flat:
                    s.add(z)
                for f in enc.facts:
                    s.add(f)
                try:
                    r0 = s.check()
                except z3.Z3Exception:
                    r0 = z3.unknown
                if r0 == z3.unsat:
                    r = 'unsat'
                elif r0 == z3.sat:
                    r = 'sat'
                    if want_model:
                        m = (s.model(), enc)
                if r != 'unknown':
                    break
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.slowest = max(self.stats.slowest, dt)
        return (r, m)

    # -- path exploration
    def decide(self, cond):
        ctx = self.ctx
        i = len(ctx.trace)
        if i < len(ctx.prefix):
            v = ctx.prefix[i]
            # forced decisions are recorded too
        else:
            # implied by the path already?
            pos, _ = self.solve(ctx.pc + [cond], self.branch_ms, stat='branch_queries')
            if pos == 'unsat':
                v = False
            else:
                neg, _ = self.solve(ctx.pc + [negate(cond)], self.branch_ms, stat='branch_queries')
                if neg == 'unsat':
                    v = True
                else:
                    v = True
                    self.stack.append(ctx.trace + [False])
        ctx.trace.append(v)
        ctx.pc.append(cond if v else negate(cond))
        if len(ctx.trace) > 400:
            raise Unsupported('more than 400 decisions on one path')
        return v

    def domain(self, kind, s):
        k = (kind, s.key, tuple(self.ctx.trace))
        if len(self.domains) < 400 and k not in self.domains:
            self.domains[k] = (self.ctx, len(self.ctx.pc), s)

    def run(self, h, name):
        """explore all paths of harness h; returns list of path records"""
        self.stack = [[]]
        recs = []
        saved = core.HOOKS.decide
        core.HOOKS.decide = self.decide
        core.HOOKS.domain = self.domain
        n = bad = 0
        try:
            while self.stack:
                if self.deadline and time.time() > self.deadline:
                    self.cut = 'time budget exhausted during path exploration'
                    break
                prefix = self.stack.pop()
                n += 1
                if n > self.max_paths:
                    self.cut = 'more than %d paths' % self.max_paths
                    break
                ctx = Ctx(self, prefix)
                from . import shim
                shim.EXT_HOOK.clear()
                self.ctx = ctx
                try:
                    h(ctx)
                except Abort:
                    ctx.aborted = True
                except PathLimit:
                    raise
                except Unsupported as e:
                    ctx.unsupported = str(e) or 'unsupported'
                    ctx.tb = traceback.format_exc()
                except Exception as e:
                    ctx.tb = traceback.format_exc()
                    if outside(e):
                        ctx.unsupported = '%s: %s' % (type(e).__name__, e)
                    else:
                        ctx.exc = e
                    if isinstance(e, core.Undefined):
                        ctx.undefined = True
                finally:
                    ctx.cleanup()
                if not ctx.aborted:
                    self.stats.paths += 1
                    self.stats.decisions += len(ctx.trace)
                    recs.append(ctx)
                    if any((o.cond is False or repr(o.cond) == 'False') and not any(o.label.startswith(k) for k in self.known) for o in ctx.obls):
                        bad += 1
                        if bad >= 20 and n >= 200:
                            self.cut = 'exploration stopped: %d explored paths end in a violated obligation' % bad
                            break
        finally:
            core.HOOKS.decide = saved
            core.HOOKS.domain = None
        return recs


class Obl:
    __slots__ = ('label', 'cond', 'lhs', 'rhs', 'rtol', 'atol', 'npc')

    def __init__(self, label, cond, lhs=None, rhs=None, rtol=1e-6, atol=0.0, npc=0):
        self.label, self.cond, self.lhs, self.rhs, self.rtol, self.atol, self.npc = label, cond, lhs, rhs, rtol, atol, npc


def flat(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return [y for v in x.flat for y in flat(v)] if x.shape else flat(x.item())
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [x]


class Ctx:
    """symbolic-mode context handed to harnesses"""
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.m = ex.mods
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.assumed = []
        self.obls = []
        self.inputs = {}
        self.aborted = False
        self.exc = None
        self.tb = None
        self.undefined = False
        self.allow = ()
        from .shim import SHIM_NP
        self.np = SHIM_NP
        self.tier = ex.tier
        self.files = []
        self.con = False
        self._patched = []

    def replace(self, owner, attr, value):
        """stand-in for an attribute of the code under analysis, undone after the run"""
        real = getattr(owner, attr)
        self._patched.append((owner, attr, real))
        if isinstance(value, types.FunctionType) and isinstance(real, types.FunctionType):
            value = positional(real, value)
        setattr(owner, attr, value)

    def external(self, name, fn):
        """contract of an external library function ('scipy.integrate.odeint', 'random.gauss', ...)"""
        from . import shim
        shim.EXT_HOOK[name] = fn

    # -- inputs
    def real(self, name, lo=None, hi=None, sign=None, sample=None):
        """arbitrary real; lo/hi inclusive bounds are part of the claim"""
        if sign is None and lo is not None:
            if lo > 0:
                sign = 'pos'
            elif lo == 0:
                sign = 'nonneg'
        a = core.mk_atom('var', (name,), name=name, sign=sign, lo=None if lo is None else Fr(repr(float(lo))),
                         hi=None if hi is None else Fr(repr(float(hi))))
        self.inputs[name] = (lo, hi, sign, sample)
        return Sym.of_atom(a)

    def pos(self, name, lo=None, hi=None, sample=None):
        return self.real(name, lo, hi, 'pos', sample)

    def half(self, name):
        """use theta/2 as base angle for input theta (half-angle formulas)"""
        core.set_angle_base(Sym.of_atom(core._TABLE[('var', (name,))]), Fr(1, 2))

    def choice(self, name, options):
        """finite choice, forks one path per option"""
        n = len(options)
        k = self.real('choice.' + name, 0, n - 1, sample=('choice', n))
        for i in range(n - 1):
            if bool(k < Fr(2 * i + 1, 2)):
                return options[i]
        return options[-1]

    def vec(self, name, n, **k):
        import numpy as np
        return np.array([self.real('%s[%d]' % (name, i), **k) for i in range(n)] + [None], dtype=object)[:n]

    def assume(self, *conds):
        for c in conds:
            if isinstance(c, SymBool):
                if len(self.trace) >= len(self.prefix):
                    r, _ = self.ex.solve(self.pc + [c], self.ex.branch_ms, stat='branch_queries')
                    if r == 'unsat':
                        raise Abort()
                self.assumed.append((len(self.pc), c))
                self.pc.append(c)
            elif not c:
                raise Abort()

    # -- obligations
    def eq(self, label, a, b, rtol=1e-6, atol=0.0, scale=None):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            self.obls.append(Obl(label + '.shape(%d vs %d)' % (len(fa), len(fb)), False, npc=len(self.pc)))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            l = label if len(fa) == 1 else '%s[%d]' % (label, i)
            xs, ys = self._lift(x), self._lift(y)
            if xs is None or ys is None:
                self.obls.append(Obl(l, x is y or (type(x) == type(y) and x == y), npc=len(self.pc)))
                continue
            d = xs - ys
            self.obls.append(Obl(l, core.mkcmp('==', d), xs, ys, rtol, atol, len(self.pc)))

    def _lift(self, x):
        try:
            return lift(x)
        except TypeError:
            return None
        except Unsupported:
            return None

    def check(self, label, cond):
        self.obls.append(Obl(label, cond, npc=len(self.pc)))

    def le(self, label, a, b, rtol=1e-9, atol=1e-12):
        """a <= b up to rounding (tolerance only used in concrete replay)"""
        for i, (x, y) in enumerate(zip(flat(a), flat(b))):
            d = lift(x) - lift(y)
            self.obls.append(Obl('%s[%d]' % (label, i), core.mkcmp('<=', d), lift(x), lift(y), rtol, atol, len(self.pc)))

    def fork(self, cond):
        return bool(cond)

    def expect_exc(self, *types):
        self.allow = types

    And = staticmethod(And)
    Or = staticmethod(Or)
    Implies = staticmethod(Implies)
    Not = staticmethod(negate)

    def abs(self, x):
        return core.sabs(lift(x))

    def uf(self, name, *args, sign=None):
        return core.uf(name, *args, sign=sign)

    def interp1d(self, *a, **k):
        from .shim import Interp1dShim
        return Interp1dShim(*a, **k)

    def cumtrapz(self, *a, **k):
        from .shim import cumtrapz_shim
        return cumtrapz_shim(*a, **k)

    def table_file(self, arr, delimiter=None, header=0):
        """a data file holding arr (in memory in the symbolic run)"""
        from .shim import FILES
        name = 'mem://%d' % len(FILES)
        FILES[name] = arr
        self.files.append(name)
        return name

    def scratch(self):
        self._nscratch = getattr(self, '_nscratch', 0) + 1
        return 'mem:/scratch%d' % self._nscratch

    def readback(self, path):
        from .shim import FILES
        return FILES.get(path)

    def cleanup(self):
        from .shim import FILES
        FILES.clear()
        for m, k, v in reversed(self._patched):
            if k is None:
                m[:] = v
            else:
                setattr(m, k, v)
        self._patched = []

    def name_norms(self, size):
        """take norms of vectors with more terms than this over named components"""
        from . import shim
        self._patched.append((shim.BIG, None, list(shim.BIG)))
        shim.BIG[:] = [size]

    def lit(self, x):
        return lift(x)


class CCtx:
    """concrete-mode context: same harness, floats, untouched modules"""
    symbolic = False

    def __init__(self, mods, values, tier='quick', uf=None):
        import numpy as np
        self.m = mods
        self.values = values
        self.np = np
        self.obls = []
        self.used = {}
        self.tier = tier
        self.allow = ()
        self._uf = uf or {}
        self.inputs = {}
        self._tmp = None
        self._patched = []
        self.rng = None
        self.con = True

    def interp1d(self, *a, **k):
        from scipy.interpolate import interp1d
        return interp1d(*a, **k)

    def cumtrapz(self, *a, **k):
        from scipy.integrate import cumulative_trapezoid
        return cumulative_trapezoid(*a, **k)

    def scratch(self):
        import tempfile
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='amatverif')
        return tempfile.mkdtemp(dir=self._tmp)

    def table_file(self, arr, delimiter=None, header=0):
        import numpy as np
        p = os.path.join(self.scratch(), 'table.dat')
        np.savetxt(p, np.asarray(arr, dtype=float), delimiter=delimiter or ' ', fmt='%.17g')
        return p

    def readback(self, path):
        import numpy as np
        if not os.path.exists(path):
            return None
        return np.loadtxt(path, ndmin=1)

    replace = Ctx.replace

    def external(self, name, fn):
        import importlib
        owner, attr = name.rsplit('.', 1)
        mods = [importlib.import_module(owner)] if owner != 'astropy' else []
        real = getattr(mods[0], attr) if mods else None
        if real is None:
            import astropy.coordinates
            real = getattr(astropy.coordinates, attr)
            mods = [astropy.coordinates]
        for m in mods + list(self.m.all.values()):
            for k, v in list(vars(m).items()):
                if v is real:
                    self._patched.append((m, k, v))
                    setattr(m, k, fn)

    def cleanup(self):
        import shutil
        for m, k, v in reversed(self._patched):
            setattr(m, k, v)
        self._patched = []
        if self._tmp and self._tmp.startswith('/tmp'):
            shutil.rmtree(self._tmp, ignore_errors=True)
        self._tmp = None

    def real(self, name, lo=None, hi=None, sign=None, sample=None):
        if name not in self.values:
            self.values[name] = sample_value(self.rng, lo, hi, sign, sample) if self.rng else default_value(lo, hi, sign, sample)
        v = float(self.values[name])
        self.inputs[name] = (lo, hi, sign, sample)
        self.used[name] = v
        eps = 1e-9
        if lo is not None and v < lo - eps * max(1, abs(lo)):
            raise Abort()
        if hi is not None and v > hi + eps * max(1, abs(hi)):
            raise Abort()
        if sign == 'pos' and v <= 0:
            raise Abort()
        return v

    def pos(self, name, lo=None, hi=None, sample=None):
        return self.real(name, lo, hi, 'pos', sample)

    def half(self, name):
        pass

    def choice(self, name, options):
        k = self.real('choice.' + name, 0, len(options) - 1, sample=('choice', len(options)))
        return options[int(math.floor(k + 0.5))]

    def vec(self, name, n, **k):
        import numpy as np
        return np.array([self.real('%s[%d]' % (name, i), **k) for i in range(n)], dtype=float)

    def assume(self, *conds):
        for c in conds:
            if not bool(c):
                raise Abort()

    def eq(self, label, a, b, rtol=1e-6, atol=0.0, scale=None):
        fa, fb = flat(a), flat(b)
        if scale is not None:
            atol = atol + rtol * max(abs(float(x)) for x in flat(scale))
        if len(fa) != len(fb):
            self.obls.append((label + '.shape', False, len(fa), len(fb)))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            l = label if len(fa) == 1 else '%s[%d]' % (label, i)
            try:
                x, y = float(x), float(y)
            except (TypeError, ValueError):
                self.obls.append((l, x is y or x == y, str(x), str(y)))
                continue
            ok = (abs(x - y) <= atol + rtol * max(abs(x), abs(y)) + 1e-300) if (x == x and y == y) else False
            self.obls.append((l, ok, x, y))

    def check(self, label, cond):
        self.obls.append((label, bool(cond), None, None))

    def le(self, label, a, b, rtol=1e-9, atol=1e-12):
        for i, (x, y) in enumerate(zip(flat(a), flat(b))):
            ok = float(x) <= float(y) + atol + rtol * max(abs(float(x)), abs(float(y)))
            self.obls.append(('%s[%d]' % (label, i), ok, float(x), float(y)))

    def fork(self, cond):
        return bool(cond)

    def expect_exc(self, *types):
        self.allow = types

    @staticmethod
    def And(*c):
        return all(bool(x) for x in c)

    @staticmethod
    def Or(*c):
        return any(bool(x) for x in c)

    @staticmethod
    def Implies(a, b):
        return (not a) or bool(b)

    @staticmethod
    def Not(a):
        return not a

    def abs(self, x):
        return abs(x)

    def name_norms(self, size):
        pass

    def lit(self, x):
        return float(x)

    def uf(self, name, *args, sign=None):
        return concrete_uf(self._uf, name, [float(a) for a in args], sign)


def concrete_uf(table, name, args, sign=None):
    """a fixed smooth positive function standing for an uninterpreted one"""
    if name.startswith('interp_'):
        from scipy.interpolate import interp1d
        n = (len(args) - 1) // 2
        return float(interp1d(args[1:1 + n], args[1 + n:], kind=name[7:], bounds_error=False, fill_value=0.0)(args[0]))
    for a, v in table.get(name, []):
        if all(abs(x - y) <= 1e-9 * max(1.0, abs(x)) for x, y in zip(a, args)):
            return v
    h = (sum(ord(c) for c in name) % 17) / 17.0
    t = h + 0.3
    for i, a in enumerate(args):
        t += math.sin((i + 1.37) * (a if abs(a) < 1e3 else a * 1e-5) + h)
    v = 1.5 + math.sin(t)
    return v if sign in ('pos', 'nonneg') else v - 1.2


def default_value(lo, hi, sign, sample):
    if sample and sample[0] == 'choice':
        return 0
    if sample:
        return 0.5 * (sample[0] + sample[1])
    if lo is not None and hi is not None:
        return 0.5 * (lo + hi)
    if lo is not None:
        return lo + 1.0
    if hi is not None:
        return hi - 1.0
    return 1.0


def sample_value(rng, lo, hi, sign, sample):
    if sample and sample[0] == 'choice':
        return rng.randrange(sample[1])
    if sample:
        lo, hi = sample
    else:
        if lo is None and hi is None:
            lo, hi = (0.1, 10.0) if sign == 'pos' else (-5.0, 5.0)
        elif lo is None:
            lo = hi - 10.0
        elif hi is None:
            hi = lo + 10.0
    if lo > 0 and hi / lo > 1e3:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return rng.uniform(lo, hi)


# ------------------------------------------------------------------ deciding
class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.proved = 0
        self.violations = []       # dicts
        self.inconclusive = []
        self.paths = 0
        self.witness = False
        self.validated = 0
        self.notes = []
        self.tolerance_proofs = 0
        self.exc_paths = 0
        self.samples = []
        self.domain = {}


def zval(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_rational_value(r):
        return float(Fr(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_algebraic_value(r):
        q = r.approx(20)
        return float(Fr(q.numerator_as_long(), q.denominator_as_long()))
    try:
        return float(r.as_decimal(15).rstrip('?'))
    except Exception:
        return 0.0


def model_inputs(model, inputs):
    m, enc = model
    vals = {}
    for name, (lo, hi, sign, sample) in inputs.items():
        a = core._TABLE.get(('var', (name,)))
        if a is None or a.id not in enc.vars:
            continue
        vals[name] = zval(m, enc.vars[a.id])
    # angles: recover from (c, s)
    for aid in list(enc.vars):
        a = ATOMS[aid]
        if a.kind == 'C' and a.extra.t:
            (mono, coef), = a.extra.t.items()
            names = [ATOMS[x].name for x, e in mono if ATOMS[x].kind == 'var' and e == 1]
            others = [x for x, e in mono if ATOMS[x].kind not in ('var', 'pi')]
            if len(names) == 1 and not others:
                sa = core._TABLE.get(('S', a.args))
                if sa is None or sa.id not in enc.vars:
                    continue
                th = math.atan2(zval(m, enc.vars[sa.id]), zval(m, enc.vars[aid]))
                f = float(coef)
                for x, e in mono:
                    if ATOMS[x].kind == 'pi':
                        f *= math.pi ** e
                v = th / f
                lo, hi = inputs.get(names[0], (None, None))[:2]
                per = abs(2 * math.pi / f)
                if lo is not None:
                    while v < lo - 1e-12:
                        v += per
                if hi is not None:
                    while v > hi + 1e-12 and (lo is None or v - per >= lo - 1e-9):
                        v -= per
                vals[names[0]] = v
    uft = {}
    for aid in list(enc.vars):
        a = ATOMS[aid]
        if a.kind == 'uf':
            try:
                args = [zval(m, enc.sym(x)) for x in a.extra]
                uft.setdefault(a.name, []).append((args, zval(m, enc.vars[aid])))
            except Exception:
                pass
    return vals, uft


def outside(e):
    """exceptions caused by a stand-in of the harness that does not offer what the code asks for: nothing is decided"""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        t = o if isinstance(o, type) else type(o)
        return hasattr(o, '_verif_partial') or t.__module__.split('.')[0] in ('checks', 'sx')
    if isinstance(e, TypeError):
        return '<locals>.' in str(e) or 'Sim.__call__' in str(e) or 'HeatFn.__call__' in str(e)
    return False


def run_concrete(h, mods, values, tier, uf=None, rng=None):
    """-> (status, ctx, exc)"""
    import warnings
    import numpy as np
    c = CCtx(mods, dict(values), tier, uf)
    c.rng = rng
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                h(c)
    except Abort:
        return 'outside', c, None
    except Exception as e:
        c.tb = traceback.format_exc()
        if outside(e):
            return 'outside', c, None
        return 'exc', c, e
    finally:
        c.cleanup()
    return 'ok', c, None


def fails(status, c, exc):
    """list of failing labels in a concrete run"""
    if status == 'outside':
        return []
    out = [o for o in c.obls if not o[1]]
    if status == 'exc' and not (c.allow and isinstance(exc, c.allow)):
        out.append(('exception %s: %s' % (type(exc).__name__, exc), False, None, None))
    return out


def label_base(l):
    return l.split('[')[0].split('.shape')[0]


def search_concrete(h, name, con_mods, tier, rng, known, failed_labels, n, seconds=60):
    """undecided parts only: run the harness on the real code with sampled inputs; returns violation dicts"""
    out = []
    t1 = time.time()
    for _ in range(n):
        if time.time() - t1 > seconds:
            break
        st, c, exc = run_concrete(h, con_mods, {}, tier, rng=rng)
        new = [f for f in fails(st, c, exc) if label_base(f[0]) not in failed_labels and not any(f[0].startswith(k) for k in known)]
        if new:
            failed_labels.update(label_base(f[0]) for f in new)
            out.append(dict(harness=name, label=new[0][0], values=c.used, uf={}, got=new[0][2], want=new[0][3],
                            exc=str(exc) if exc else None, solver='undecided; failing input found on the real code',
                            failing=[f[0] for f in new][:20]))
            break
    return out


def decide_harness(h, name, sym_mods, con_mods, tier, seed, known=(), timeout_ms=20000, max_paths=400, deadline=None,
                   hunt=300, validate=2, stats=None, branch_ms=2000, res=None):
    """Decide every obligation of harness h. Returns Result."""
    res = res or Result(name)
    core.reset()
    ex = Explorer(sym_mods, tier, seed, timeout_ms=timeout_ms, max_paths=max_paths, deadline=deadline, branch_ms=branch_ms)
    if stats is not None:
        ex.stats = stats
    ex.known = tuple(known)
    recs = ex.run(h, name)
    res.paths = len(recs)
    rng = random.Random(seed * 7919 + hash_name(name))
    allinputs = {}
    for r in recs:
        allinputs.update(r.inputs)
    failed_labels = set()

    def confirm(label, model, rec, status, finite=False):
        """try to reproduce on the real code; returns violation dict or None"""
        cands = []
        if model is not None:
            vals, uft = model_inputs(model, rec.inputs)
            full = {n: vals.get(n, default_value(*i)) for n, i in rec.inputs.items()}
            cands.append((full, uft))
            # fill unconstrained inputs differently
            for _ in range(12 if finite else 3):
                f2 = {n: vals.get(n, sample_value(rng, *i)) for n, i in rec.inputs.items()}
                cands.append((f2, uft))
        for full, uft in cands:
            st, c, exc = run_concrete(h, con_mods, full, tier, uft)
            fl = fails(st, c, exc)
            if finite:
                fl = [f for f in fl if st == 'exc' or f[3] is None or (isinstance(f[3], float) and math.isfinite(f[3]))]
            if fl:
                return dict(harness=name, label=fl[0][0], values=c.used, uf={k: v for k, v in uft.items()}, got=fl[0][2], want=fl[0][3],
                            exc=str(exc) if exc else None, solver=status, failing=[f[0] for f in fl][:20])
        return None

    def hunt_concrete(rec, n):
        for _ in range(n):
            vals = {k: sample_value(rng, *i) for k, i in rec.inputs.items()}
            try:
                if not all(core.evalb(c, dict(vals, uf=lambda nm, a, sg=None: concrete_uf({}, nm, a, sg))) for c in rec.pc[:8]):
                    pass
            except Exception:
                pass
            st, c, exc = run_concrete(h, con_mods, vals, tier)
            fl = fails(st, c, exc)
            if fl:
                return dict(harness=name, label=fl[0][0], values=c.used, uf={}, got=fl[0][2], want=fl[0][3],
                            exc=str(exc) if exc else None, solver='sat/unknown, input completed by concretisation',
                            failing=[f[0] for f in fl][:20])
        return None

    if ex.cut:
        res.inconclusive.append(('exploration', ex.cut, ''))
    for rec in recs:
        if getattr(rec, 'unsupported', None):
            res.inconclusive.append(('path', 'construct outside the encoding: ' + rec.unsupported, rec.tb))
        if rec.exc is not None:
            if rec.undefined:
                res.notes.append('path leaves the real-valued domain: %s' % rec.exc)
                continue
            if rec.allow and isinstance(rec.exc, rec.allow):
                pass
            else:
                res.exc_paths += 1
                res.obligations += 1
                r, m = ex.solve(rec.pc, timeout_ms, want_model=True)
                if r == 'unsat':
                    ex.stats.unsat += 1
                    res.proved += 1
                else:
                    lab = 'exception:' + type(rec.exc).__name__
                    if lab in failed_labels:
                        continue
                    v = confirm(lab, m, rec, r) or hunt_concrete(rec, hunt)
                    if v:
                        failed_labels.add(lab)
                        res.violations.append(v)
                        deadline = min(deadline or 1e18, time.time() + 60)
                        timeout_ms = min(timeout_ms, 3000)
                    else:
                        res.inconclusive.append((lab, 'symbolic run raised %r, not reproduced on the real code' % rec.exc, rec.tb))
                continue
        for o in rec.obls:
            res.obligations += 1
            lb = label_base(o.label)
            if lb in failed_labels:
                continue
            if deadline and time.time() > deadline:
                res.inconclusive.append((o.label, 'time budget exhausted', ''))
                continue
            neg = negate(o.cond)
            cond = o.cond
            if isinstance(cond, SymBool) and cond.op == '==':
                num = core.clear_den(cond.a)
                neg = core.mkcmp('!=', num)
            if neg is False:
                # both sides have the same normal form: the query is the constant false
                ex.stats.trivial += 1
                res.proved += 1
                continue
            r, m = ex.solve(rec.pc + [neg], timeout_ms, want_model=True)
            if r == 'unsat':
                ex.stats.unsat += 1
                res.proved += 1
                if len(res.samples) < 2:
                    res.samples.append('%s | path of %d decisions | unsat: not (%s)' % (o.label, len(rec.trace), repr(o.cond)[:240]))
                continue
            ex.stats.__dict__['sat' if r == 'sat' else 'unknown'] += 1
            v = confirm(o.label, m, rec, r)
            if v is None and o.lhs is not None and isinstance(o.cond, SymBool):
                # ask for a difference that is visible beyond the stated tolerance
                if o.cond.op == '==':
                    t = Fr(repr(max(o.rtol, 1e-12)))
                    d = o.lhs - o.rhs
                    big = Or(mkbig(d, o.lhs, o.rhs, t, o.atol), mkbig(-d, o.lhs, o.rhs, t, o.atol))
                else:
                    d = o.lhs - o.rhs
                    big = mkbig(d, o.lhs, o.rhs, Fr(repr(max(o.rtol, 1e-12))), o.atol)
                r2, m2 = ex.solve(rec.pc + [big], timeout_ms, want_model=True)
                if r2 == 'unsat':
                    ex.stats.unsat += 1
                    res.proved += 1
                    res.tolerance_proofs += 1
                    continue
                if r2 == 'sat':
                    v = confirm(o.label, m2, rec, r2)
            if v is None:
                v = hunt_concrete(rec, hunt)
            if v:
                failed_labels.add(lb)
                failed_labels.update(label_base(x) for x in v['failing'])
                res.violations.append(v)
                if not all(any(l.startswith(k) for k in known) for l in v['failing'] or [v['label']]):
                    deadline = min(deadline or 1e18, time.time() + 60)
                    timeout_ms = min(timeout_ms, 3000)
            else:
                res.inconclusive.append((o.label, r, repr(o.cond)[:300]))
    res.domain = check_domains(ex, recs, confirm, res, failed_labels, known, deadline)
    if res.inconclusive:
        # the solver could not close this harness: look for a failing input on the real code
        v = search_concrete(h, name, con_mods, tier, rng, known, failed_labels, max(400, hunt))
        res.violations += v
    # reachability witness: some path with obligations is satisfiable
    for rec in recs:
        if deadline and time.time() > deadline + 20:
            break
        if rec.obls and rec.exc is None:
            r, m = ex.solve(rec.pc, timeout_ms, want_model=True)
            if r == 'sat':
                res.witness = True
                break
    if not res.witness:
        # z3 could not construct one: accept a concrete run inside the assumptions
        for _ in range(400):
            vals = {k: sample_value(rng, *i) for k, i in allinputs.items()}
            st, c, exc = run_concrete(h, con_mods, vals, tier)
            if st == 'ok' and c.obls:
                res.witness = True
                res.notes.append('witness by concrete run')
                break
    # translation validation: same harness on floats vs evaluated symbolic values
    tries = 0
    while res.validated < validate and tries < 60 * validate:
        tries += 1
        vals = {k: sample_value(rng, *i) for k, i in allinputs.items()}
        st, c, exc = run_concrete(h, con_mods, vals, tier)
        if st == 'outside':
            continue
        fl = fails(st, c, exc)
        new = [f for f in fl if label_base(f[0]) not in failed_labels and not any(f[0] == k for k in known)]
        if new:
            res.violations.append(dict(harness=name, label=new[0][0], values=c.used, uf={}, got=new[0][2], want=new[0][3],
                                       exc=str(exc) if exc else None, solver='found while validating the encoding on the real code',
                                       failing=[f[0] for f in new][:20]))
            failed_labels.update(label_base(f[0]) for f in new)
            continue
        if st != 'ok':
            res.validated += 1
            continue
        env = dict(vals, uf=lambda nm, a, sg=None: concrete_uf({}, nm, a, sg))
        match = None
        for rec in recs:
            try:
                if all(core.evalb(x, env) for x in rec.pc):
                    match = rec
                    break
            except (ValueError, KeyError, ZeroDivisionError, OverflowError, TypeError):
                continue
        if match is None or match.exc is not None:
            continue
        bad = None
        if [o.label for o in match.obls] != [o[0] for o in c.obls]:
            continue
        for (l, ok, x, y), o in zip(c.obls, match.obls):
            if o.lhs is not None and isinstance(x, float):
                try:
                    for sv, cv in ((core.evalf(o.lhs, env), x), (core.evalf(o.rhs, env), y)):
                        if isinstance(sv, complex) or not abs(sv - cv) <= 1e-5 * max(abs(sv), abs(cv)) + 1e-7 + 10 * o.atol:
                            bad = (l, sv, cv)
                except (ValueError, KeyError, ZeroDivisionError, OverflowError):
                    pass
        if bad:
            res.notes.append('encoding mismatch %r' % (bad,))
            res.inconclusive.append((bad[0], 'encoding validation mismatch', repr(bad)))
            break
        res.validated += 1
    return res


def check_domains(ex, recs, confirm, res, failed_labels, known, deadline):
    """every path assumes that roots, logarithms and inverse functions are taken inside their domain: look for admitted inputs that
    leave it, and report them when the real code then returns something else than the stated value"""
    n = dict(inside=0, outside=0, open=0)
    t1 = time.time()
    tried, done = {}, {}
    for (kind, key, trace), (rec, npc, s) in ex.domains.items():
        if time.time() - t1 > 40 or (deadline and time.time() > deadline):
            n['open'] += 1
            continue
        if any((kind, key, trace[:i]) in done for i in range(len(trace) + 1)):
            n['inside'] += 1
            continue
        eps = Fr(1, 10 ** 6)
        out = Or(s > 1 + eps, s < -1 - eps) if kind == 'unit' else (s < 0)
        if out is False:
            n['inside'] += 1
            continue
        r, m = ex.solve(rec.pc[:npc] + [out], 2000, want_model=True)
        if r == 'unsat':
            done[(kind, key, trace)] = 1
            n['inside'] += 1
            continue
        n['outside' if r == 'sat' else 'open'] += 1
        if r == 'sat' and tried.get((kind, key), 0) < 3 and sum(tried.values()) < 40:
            tried[(kind, key)] = tried.get((kind, key), 0) + 1
            more = [c for i, c in rec.assumed if i >= npc]
            if more:
                r2, m2 = ex.solve(rec.pc[:npc] + more + [out], 2000, want_model=True)
                m = m2 or m
            v = confirm('inside the domain', m, rec, 'sat: leaves the domain of a ' + dict(unit='inverse function', root='root', log='logarithm')[kind], finite=True)
            if v and not all(any(l.startswith(k) for k in known) or label_base(l) in failed_labels for l in v['failing']):
                failed_labels.update(label_base(x) for x in v['failing'])
                res.violations.append(v)
                break
    return n


def mkbig(d, a, b, t, atol):
    """d > t*(|a|+|b|) + atol"""
    lim = Fr(repr(float(atol))) if atol else Fr(0)
    cs = []
    for s1 in (1, -1):
        for s2 in (1, -1):
            cs.append(core.mkcmp('<', a * (s1 * t) + b * (s2 * t) + lim - d))
    return And(*cs)


def hash_name(n):
    h = 0
    for ch in n:
        h = (h * 131 + ord(ch)) % 1000003
    return h
