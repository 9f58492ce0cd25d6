"""Symbolic values for executing the real AMAT code.

A Sym is a finite sum  sum_k coef_k * prod_i atom_i**e_ik  with rational
coefficients and rational exponents (a Laurent/Puiseux polynomial over atoms).
Atoms are inputs, pi, sin/cos of base angles, inverse trigonometric values,
powers of sums that cannot be expanded, logs, and uninterpreted applications.
The form is kept canonical so that algebraically equal straight-line
computations usually become the very same object; what is left is handed to
the SMT solver (see engine.py) together with the defining facts of the atoms.
"""
from fractions import Fraction as Fr
import math
import numbers


class Unsupported(BaseException):
    """The engine met an operation it cannot encode (an error of the check)."""


class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'sign', 'lo', 'hi', 'extra', 'ctxvar')

    def __repr__(self):
        if self.kind == 'var':
            return self.name
        return '%s%r' % (self.kind, self.args)


ATOMS = []
_TABLE = {}
MAXTERMS = 20000


def mk_atom(kind, args, name=None, sign=None, lo=None, hi=None, extra=None):
    key = (kind, args)
    a = _TABLE.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.args, a.name, a.sign, a.lo, a.hi, a.extra = kind, args, name, sign, lo, hi, extra
    ATOMS.append(a)
    _TABLE[key] = a
    return a


PRINTED = []


def printed(s):
    """text standing for a symbolic number"""
    PRINTED.append(s)
    return '\u00a7%d\u00a7' % (len(PRINTED) - 1)


def reset():
    ATOMS.clear()
    PRINTED.clear()
    _TABLE.clear()
    _ANGLE_BASE.clear()
    _SQCACHE.clear()
    global PI, LN10
    PI = Sym.of_atom(mk_atom('pi', (), 'pi', 'pos'))
    LN10 = Sym.of_atom(mk_atom('ln10', (), 'ln10', 'pos'))


# hooks installed by the engine
class Hooks:
    decide = None          # decide(SymBool) -> bool   (path forking)
    domain = None          # domain(kind, arg): the code under analysis takes acos, asin, root or log of arg


HOOKS = Hooks()
_PI_FLOATS = {math.pi: Fr(1), -math.pi: Fr(-1), 2 * math.pi: Fr(2), math.pi / 2: Fr(1, 2), 180.0 / math.pi: None}


def num(x):
    """number -> Fraction (decimal reading of floats) or Sym for pi multiples."""
    if isinstance(x, Fr):
        return x
    if isinstance(x, bool):
        return Fr(int(x))
    if isinstance(x, int):
        return Fr(x)
    if isinstance(x, float):
        if x in _PI_FLOATS:
            k = _PI_FLOATS[x]
            if k is None:
                return Sym.const(180) / PI
            return PI * Sym.const(k)
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float %r' % x)
        return Fr(repr(x))
    if isinstance(x, numbers.Integral):
        return Fr(int(x))
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return num(x.item())
    if isinstance(x, numbers.Real):
        return num(float(x))
    return None


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym.const(1) if bool(x) else Sym.const(0)
    n = num(x)
    if n is None:
        return None
    if isinstance(n, Sym):
        return n
    return Sym.const(n)


def _ex(e):
    """normalise exponent: int when integral"""
    if isinstance(e, Fr) and e.denominator == 1:
        return e.numerator
    return e


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                out.append((x[0], _ex(e)))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def needs_reduce(m):
    for aid, e in m:
        k = ATOMS[aid].kind
        if k == 'S':
            if e >= 2:
                return True
        elif k == 'sum':
            if e >= 1:
                return True
        elif k == 'num':
            if e >= 1 or e < 0:
                return True
    return False


class Sym:
    __slots__ = ('t', '_key', '_h')
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._key = None
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        c = Fr(c)
        return Sym({(): c} if c else {})

    @staticmethod
    def of_atom(a, e=1):
        return Sym({((a.id, e),): Fr(1)})

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key)
        return self._h

    def same(self, o):
        return self.t == o.t

    # -- classification
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fr(0))

    def __repr__(self):
        return 'Sym(' + show(self) + ')'

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.cval()), spec)
        return printed(self)

    def __str__(self):
        if self.is_const():
            c = self.cval()
            return str(float(c))
        return printed(self)

    # -- arithmetic
    def __add__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: self + x, o2)
        a, b = self.t, o2.t
        if not b:
            return self
        if not a:
            return o2
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: self - x, o2)
        return self + (-o2)

    def __rsub__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: x - self, o2)
        return o2 + (-self)

    def __mul__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: self * x, o2)
        return mul(self, o2)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: self / x, o2)
        return div(self, o2)

    def __rtruediv__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: x / self, o2)
        return div(o2, self)

    def __pow__(self, o):
        if o is None:
            return NotImplemented
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: self ** x, o2)
        return power(self, o2)

    def __rpow__(self, o):
        o2 = lift_or_arr(o)
        if o2 is None:
            return NotImplemented
        if not isinstance(o2, Sym):
            return elementwise(lambda x: x ** self, o2)
        return power(o2, self)

    def __abs__(self):
        return sabs(self)

    def __floordiv__(self, o):
        q = self / o
        if q.is_const():
            return Sym.const(math.floor(q.cval()))
        return sfloor(q)

    def __mod__(self, o):
        o = lift(o)
        q = self / o
        if q.is_const():
            return self - Sym.const(math.floor(q.cval())) * o
        return self - sfloor(q) * o

    def __rmod__(self, o):
        return lift(o) % self

    def __round__(self, n=None):
        if self.is_const():
            r = round(float(self.cval()), n) if n is not None else round(float(self.cval()))
            return r
        return Sym.of_atom(mk_atom('rnd', (self.key, n or 0), extra=self))

    # -- comparisons
    def __lt__(self, o):
        return compare(self, '<', o)

    def __le__(self, o):
        return compare(self, '<=', o)

    def __gt__(self, o):
        return compare(self, '>', o)

    def __ge__(self, o):
        return compare(self, '>=', o)

    def __eq__(self, o):
        return compare(self, '==', o)

    def __ne__(self, o):
        return compare(self, '!=', o)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        if all(ATOMS[a].kind in ('pi', 'ln10', 'num') for m in self.t for a, _ in m):
            return float(evalf(self, {}))
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise TypeError('Sym used as index')

    def __trunc__(self):
        return int(self)

    def __ceil__(self):
        if self.is_const():
            return math.ceil(self.cval())
        raise Unsupported('ceil of a symbolic value')

    def __floor__(self):
        if self.is_const():
            return math.floor(self.cval())
        return sfloor(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # attributes used by numpy-ish code
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    # ufunc-by-method names (numpy object loops)
    def sqrt(self):
        return ssqrt(self)

    def sin(self):
        return ssin(self)

    def cos(self):
        return scos(self)

    def tan(self):
        return stan(self)

    def arccos(self):
        return sacos(self)

    def arcsin(self):
        return sasin(self)

    def arctan(self):
        return satan(self)

    def arctan2(self, o):
        return satan2(self, o)

    def exp(self):
        return sexp(self)

    def log(self):
        return sln(self)

    def log10(self):
        return slog10(self)


def elementwise(f, arr):
    import numpy as np
    out = np.empty(arr.shape, dtype=object)
    for idx in np.ndindex(*arr.shape):
        v = arr[idx]
        out[idx] = f(v)
    return out


def lift_or_arr(o):
    if isinstance(o, Sym):
        return o
    if hasattr(o, 'shape') and getattr(o, 'shape') != () and hasattr(o, 'dtype'):
        return o
    if hasattr(o, 'dtype') and o.shape == ():
        o = o.item()
    if isinstance(o, (list, tuple)):
        return None
    try:
        return lift(o)
    except TypeError:
        return None


# ------------------------------------------------------------------ printing
def show(s, depth=3):
    if not s.t:
        return '0'
    parts = []
    for m, c in list(s.key)[:12]:
        p = []
        if c != 1 or not m:
            p.append(str(c) if len(str(c)) < 20 else '%.9g' % float(c))
        for a, e in m:
            p.append(show_atom(ATOMS[a], depth) + ('' if e == 1 else '^%s' % e))
        parts.append('*'.join(p))
    if len(s.t) > 12:
        parts.append('...(%d terms)' % len(s.t))
    return ' + '.join(parts)


def show_atom(a, depth=3):
    if a.kind in ('var', 'pi', 'ln10'):
        return a.name
    if depth <= 0:
        return '%s#%d' % (a.kind, a.id)
    if a.kind == 'num':
        return str(a.args[0])
    if isinstance(a.extra, Sym):
        return '%s(%s)' % (a.kind, show(a.extra, depth - 1))
    if isinstance(a.extra, (tuple, list)):
        return '%s(%s)' % (a.name or a.kind, ', '.join(show(x, depth - 1) if isinstance(x, Sym) else str(x) for x in a.extra))
    return '%s#%d' % (a.kind, a.id)


# ------------------------------------------------------------------ multiply
def _mul_raw(A, B):
    if len(A) > len(B):
        A, B = B, A
    r = {}
    for m1, c1 in A.items():
        for m2, c2 in B.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            c = c1 * c2
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
    if len(r) > MAXTERMS:
        raise Unsupported('expression too large (%d terms)' % len(r))
    return r


def mul(a, b):
    A, B = a.t, b.t
    if not A or not B:
        return ZERO
    if len(A) * len(B) > 4 * MAXTERMS:
        # too large to multiply out: name the larger factor (and the other one if still needed)
        if len(A) < len(B):
            a, b = b, a
        a = let(a)
        if len(b.t) > 4 * MAXTERMS:
            b = let(b)
        return mul(a, b)
    try:
        r = _mul_raw(A, B)
    except Unsupported:
        return mul(let(a), b) if len(A) >= len(B) else mul(a, let(b))
    return reduce_terms(r)


def let(s):
    """a name for an expression (defined in the solver, opaque to the normaliser)"""
    if len(s.t) <= 1:
        return s
    if s.key[0][1] < 0:
        return -let(-s)
    g = sign_of(s)
    return Sym.of_atom(mk_atom('let', (s.key,), sign=g if g in ('pos', 'nonneg') else None, extra=s))


def reduce_terms(r):
    bad = [m for m in r if needs_reduce(m)]
    if not bad:
        return Sym(r)
    out = Sym({m: c for m, c in r.items() if m not in set(bad)})
    groups = {}
    for m in bad:
        rest = []
        key = []
        for aid, e in m:
            k = ATOMS[aid].kind
            if k == 'S' and e >= 2:
                n = int(math.floor(e)) // 2
                key.append((aid, n))
                e2 = _ex(e - 2 * n)
                if e2 != 0:
                    rest.append((aid, e2))
            elif (k == 'sum' and e >= 1) or (k == 'num' and (e >= 1 or e < 0)):
                n = int(math.floor(e))
                key.append((aid, n))
                e2 = _ex(e - n)
                if e2 != 0:
                    rest.append((aid, e2))
            else:
                rest.append((aid, e))
        groups.setdefault(tuple(key), {})
        g = groups[tuple(key)]
        rest = tuple(rest)
        v = g.get(rest, Fr(0)) + r[m]
        if v:
            g[rest] = v
        elif rest in g:
            del g[rest]
    for key, g in groups.items():
        f = Sym(g)
        for aid, n in key:
            at = ATOMS[aid]
            if at.kind == 'S':
                base = ONE - Sym.of_atom(at.extra) ** 2     # extra: matching C atom
            elif at.kind == 'num':
                base = Sym.const(at.args[0])
            else:
                base = at.extra
            if n < 0:
                f = mul(f, Sym.const(base.cval() ** n))
                continue
            for _ in range(n):
                f = mul(f, base)
        out = out + f
    return out


def div(a, b):
    if not b.t:
        raise ZeroDivisionError('symbolic division by zero')
    if not a.t:
        return ZERO
    if len(b.t) == 1:
        (m, c), = b.t.items()
        inv = Sym({tuple((aid, _ex(-e)) for aid, e in m): 1 / c})
        inv = reduce_terms(inv.t)
        return mul(a, inv)
    # exact multiple?
    if len(a.t) == len(b.t):
        ka, kb = a.key, b.key
        if ka[0][0] == kb[0][0]:
            q = ka[0][1] / kb[0][1]
            if all(x[0] == y[0] and x[1] == q * y[1] for x, y in zip(ka, kb)):
                return Sym.const(q)
    return mul(a, ipow_sum(b, -1))


def content(b):
    """(positive rational content, common monomial) of a multi-term Sym."""
    from math import gcd
    ms = list(b.t)
    n = 0
    d = 1
    for c in b.t.values():
        n = gcd(n, abs(c.numerator))
        d = d * c.denominator // gcd(d, c.denominator)
    cont = Fr(n, d)
    common = {}
    ids = {}
    for m in ms:
        for aid, e in m:
            ids.setdefault(aid, []).append(e)
    for aid, es in ids.items():
        lo = min(es)
        if len(es) < len(ms):
            lo = min(lo, 0)
        if lo != 0:
            common[aid] = lo
    return cont, tuple(sorted(common.items()))


def divide_mono(b, cont, cm):
    inv = tuple((aid, _ex(-e)) for aid, e in cm)
    return Sym({mono_mul(m, inv): c / cont for m, c in b.t.items()})


def sum_atom(p):
    s = sign_of(p)
    return mk_atom('sum', (p.key,), sign=s if s in ('pos', 'nonneg') else None, extra=p)


def ipow_sum(b, n):
    """b multi-term, n negative int"""
    cont, cm = content(b)
    p = divide_mono(b, cont, cm)
    p = reduce_terms(p.t)
    if p.is_const():
        return Sym.const(p.cval() * cont) ** n * Sym({cm: Fr(1)}) ** n
    if p.key[0][1] < 0:
        p = -p
        cont = -cont
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Sym({tuple((aid, _ex(e * n)) for aid, e in mono_mul(m, cm)): (c * cont) ** n})
    # common S^2 = 1 - C^2 shape:  1 - C^2  ->  S^2
    alt = pyth(p)
    if alt is not None:
        aS, k = alt
        r = Sym({((aS.id, 2 * n),): Fr(1) * (Fr(k) ** n)})
    else:
        r = Sym({((sum_atom(p).id, n),): Fr(1)})
    r = Sym({mono_mul(m, tuple((aid, _ex(e * n)) for aid, e in cm)): c * (Fr(cont) ** n) for m, c in r.t.items()})
    return reduce_terms(r.t)


def pyth(p):
    """p == k*(1 - C^2) -> (S atom, k)"""
    if len(p.t) != 2 or () not in p.t:
        return None
    k = p.t[()]
    for m, c in p.t.items():
        if m == ():
            continue
        if len(m) == 1 and m[0][1] == 2 and ATOMS[m[0][0]].kind == 'C' and c == -k:
            sa = _TABLE.get(('S', ATOMS[m[0][0]].args))
            if sa is not None:
                return sa, k
    return None


# ------------------------------------------------------------------ signs
def atom_sign(aid, e):
    s = ATOMS[aid].sign
    if isinstance(e, int):
        if e % 2 == 0:
            return 'pos' if s == 'pos' else 'nonneg'
        return s
    return 'pos' if s == 'pos' else 'nonneg'    # fractional power is defined only for >= 0


def mono_sign(m):
    res = 'pos'
    for aid, e in m:
        s = atom_sign(aid, e)
        if s is None:
            return None
        if s == 'nonneg':
            res = 'nonneg'
        elif s == 'neg':
            res = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[res]
    return res


def sign_of(s):
    """syntactic sign: 'pos','nonneg','neg','nonpos','zero',None"""
    if not s.t:
        return 'zero'
    pos = neg = 0
    strict = False
    for m, c in s.t.items():
        g = mono_sign(m)
        if g is None:
            return None
        if c < 0:
            g = {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[g]
        if g in ('pos', 'nonneg'):
            pos += 1
        else:
            neg += 1
        if g in ('pos', 'neg'):
            strict = True
        if pos and neg:
            return None
    if pos:
        return 'pos' if strict else 'nonneg'
    return 'neg' if strict else 'nonpos'


def sabs(s):
    g = sign_of(s)
    if g in ('pos', 'nonneg', 'zero'):
        return s
    if g in ('neg', 'nonpos'):
        return -s
    if bool(s >= 0):
        return s
    return -s


# ------------------------------------------------------------------ powers
def power(b, e):
    if not e.is_const():
        # b ** symbolic
        return sexp10(e * slog10(b))
    e = _ex(e.cval())
    if not isinstance(e, int):
        domain('root', b)
    return cpow(b, e)


def cpow(b, e):
    if e == 0:
        return ONE
    if e == 1:
        return b
    if not b.t:
        if e > 0:
            return ZERO
        raise ZeroDivisionError('0 ** negative')
    if isinstance(e, int):
        if e > 0:
            r = None
            base = b
            n = e
            while n:
                if n & 1:
                    r = base if r is None else mul(r, base)
                n >>= 1
                if n:
                    base = mul(base, base)
            return r
        if len(b.t) == 1:
            (m, c), = b.t.items()
            return reduce_terms({tuple((aid, _ex(x * e)) for aid, x in m): c ** e})
        return ipow_sum(b, e)
    # fractional exponent
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return frac_mono(m, c, e)
    cont, cm = content(b)
    p = reduce_terms(divide_mono(b, cont, cm).t)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return frac_mono(mono_mul(m, cm), c * cont, e)
    if p.is_const():
        return frac_mono(cm, p.cval() * cont, e)
    outer = ONE
    # the common monomial may only be taken out with a known sign
    keep = []
    for aid, x in cm:
        if ATOMS[aid].sign in ('pos', 'nonneg') or not isinstance(x, int):
            outer = outer * frac_mono(((aid, x),), Fr(1), e)
        elif x % 2 == 0 and e.denominator == 2:
            outer = outer * cpow(sabs(Sym({((aid, x // 2),): Fr(1)})), _ex(2 * e))
        else:
            h = x // 2
            if e.denominator == 2 and h:
                outer = outer * cpow(sabs(Sym({((aid, h),): Fr(1)})), _ex(2 * e))
                x = x - 2 * h
            keep.append((aid, x))
    if keep:
        p = mul(p, Sym({tuple(keep): Fr(1)}))
    outer = outer * numpow(cont, e)
    if e.denominator == 2:
        sq, rest = square_part(p)
        if sq is not None:
            outer = outer * cpow(sabs(sq), _ex(2 * e))
            p = rest
            return outer * cpow(p, e)
    if p.is_const():
        return outer * numpow(p.cval(), e)
    n = math.floor(e)
    f = e - n
    r = Sym({((sum_atom(p).id, e),): Fr(1)})
    return outer * reduce_terms(r.t)


_SQCACHE = {}


def square_part(p):
    """p = sq^2 * rest  with sq non-constant, or (None, p)."""
    k = p.key
    if k in _SQCACHE:
        return _SQCACHE[k]
    r = _square_part(p)
    _SQCACHE[k] = r
    return r


def _square_part(p):
    alt = pyth(p)
    if alt is not None:
        return Sym.of_atom(alt[0]), Sym.const(alt[1])
    if len(p.t) > 150:
        return None, p
    import sympy
    ids = sorted({aid for m in p.t for aid, _ in m})
    if len(ids) > 12:
        return None, p
    den = {}
    for aid in ids:
        d = 1
        for m in p.t:
            for x, e in m:
                if x == aid and not isinstance(e, int):
                    d = d * e.denominator // math.gcd(d, e.denominator)
        den[aid] = d
    names = ['x%d' % i for i in ids]
    ring = sympy.polys.rings.ring(names, sympy.QQ)[0]
    idx = {aid: i for i, aid in enumerate(ids)}
    d = {}
    for m, c in p.t.items():
        ex = [0] * len(ids)
        for aid, e in m:
            ee = e * den[aid]
            if ee < 0 or ee != int(ee):
                return None, p
            ex[idx[aid]] = int(ee)
        d[tuple(ex)] = sympy.QQ(c.numerator, c.denominator)
    poly = ring.from_dict(d)

    def back(q):
        t = {}
        for ex, c in q.terms():
            m = tuple((aid, _ex(Fr(ex[idx[aid]], den[aid]))) for aid in ids if ex[idx[aid]])
            t[m] = Fr(int(c.numerator), int(c.denominator))
        return reduce_terms(t)

    sq = ONE
    found = False
    # S^2 hidden as 1 - C^2
    for aid in ids:
        if ATOMS[aid].kind == 'C':
            sa = _TABLE.get(('S', ATOMS[aid].args))
            if sa is None:
                continue
            g = ring.gens[idx[aid]]
            while True:
                q, rem = poly.div(1 - g ** 2)
                if rem == 0 and poly != 0:
                    poly = q
                    sq = sq * Sym.of_atom(sa)
                    found = True
                else:
                    break
    try:
        c0, facs = poly.sqf_list()
    except Exception:
        facs, c0 = [], None
    if c0 is not None and any(k >= 2 for _, k in facs):
        rest = ring.ground_new(c0) if not hasattr(c0, 'ring') else c0
        for f, k in facs:
            if k >= 2:
                sq = sq * back(f) ** (k // 2)
                found = True
            if k % 2:
                rest = rest * f
        poly = rest
    if not found:
        return None, p
    return sq, back(poly)


def frac_mono(m, c, e):
    """(c * m)**e, e non-integer; assumes the value is >= 0 (definedness)."""
    if c < 0:
        # sign hidden in an atom: move it
        odd = [(aid, x) for aid, x in m if isinstance(x, int) and x % 2 and ATOMS[aid].sign not in ('pos', 'nonneg')]
        if not odd:
            raise Undefined('fractional power of a negative value')
        s = Sym({tuple(m): c})
        at = mk_atom('sum', (s.key,), sign='nonneg', extra=s)
        return Sym({((at.id, e),): Fr(1)})
    out = numpow(c, e)
    keep = []
    res = []
    for aid, x in m:
        s = ATOMS[aid].sign
        if s in ('pos', 'nonneg') or not isinstance(x, int):
            res.append((aid, _ex(x * e)))
        elif x % 2 == 0 and e.denominator == 2:
            out = out * cpow(sabs(Sym({((aid, x // 2),): Fr(1)})), _ex(2 * e))
        else:
            keep.append((aid, x))
    if len(keep) > 1 or (keep and keep[0][1] != 1):
        s = Sym({tuple(keep): Fr(1)})
        at = mk_atom('sum', (s.key,), sign='nonneg', extra=s)
        res.append((at.id, e))
    elif keep:
        res.append((keep[0][0], e))
    res.sort()
    return out * reduce_terms({tuple(res): Fr(1)})


class Undefined(Exception):
    """value the floating-point code would turn into nan / an exception"""


def _factor_small(n):
    out = {}
    d = 2
    while d * d <= n and d < 2000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        r = math.isqrt(n)
        if r * r == n:
            out[r] = out.get(r, 0) + 2
        else:
            out[n] = out.get(n, 0) + 1
    return out


def numpow(c, e):
    """positive rational ** fraction"""
    if c == 1:
        return ONE
    if c < 0:
        raise Undefined('fractional power of a negative number')
    e = Fr(e)
    fac = {}
    for p, k in _factor_small(c.numerator).items():
        fac[p] = fac.get(p, 0) + k
    for p, k in _factor_small(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    coef = Fr(1)
    mono = []
    for p, k in fac.items():
        x = k * e
        n = math.floor(x)
        f = x - n
        coef *= Fr(p) ** n
        if f:
            a = mk_atom('num', (p,), sign='pos')
            mono.append((a.id, f))
    mono.sort()
    return Sym({tuple(mono): coef})


def root2(s):
    return cpow(lift(s), Fr(1, 2))


def domain(kind, s):
    if HOOKS.domain is not None and not s.is_const():
        g = sign_of(s) if kind in ('root', 'log') else None
        if g not in (('pos', 'nonneg', 'zero') if kind == 'root' else ('pos',)):
            HOOKS.domain(kind, s)


def ssqrt(s):
    s = lift(s)
    domain('root', s)
    return root2(s)


# ------------------------------------------------------------------ trig
_ANGLE_BASE = {}    # monomial -> base coefficient


def set_angle_base(mono_sym, coef):
    (m, c), = mono_sym.t.items()
    _ANGLE_BASE[m] = Fr(coef) * c


def cs_atoms(base):
    """(C, S) Sym pair of a base angle Sym (single monomial, positive coef)."""
    key = (base.key,)
    c = mk_atom('C', key, extra=base)
    s = mk_atom('S', key, extra=None)
    s.extra = c
    return Sym.of_atom(c), Sym.of_atom(s)


_EXACT = {Fr(0): (1, 0), Fr(1, 2): (0, 1), Fr(1): (-1, 0), Fr(3, 2): (0, -1)}


def pi_cs(r):
    r = r % 2
    if r in _EXACT:
        c, s = _EXACT[r]
        return Sym.const(c), Sym.const(s)
    # reduce to first quadrant
    q = Fr(0)
    while r >= Fr(1, 2):
        r -= Fr(1, 2)
        q += Fr(1, 2)
    if r == Fr(1, 4):
        v = numpow(Fr(1, 2), Fr(1, 2))
        c, s = v, v
    elif r == Fr(1, 6):
        c, s = numpow(Fr(3, 4), Fr(1, 2)), Sym.const(Fr(1, 2))
    elif r == Fr(1, 3):
        c, s = Sym.const(Fr(1, 2)), numpow(Fr(3, 4), Fr(1, 2))
    else:
        c, s = cs_atoms(PI * Sym.const(r))
    if q:
        c2, s2 = pi_cs(q)
        c, s = c * c2 - s * s2, s * c2 + c * s2
    return c, s


def inv_cs(at, half):
    """cos/sin of an inverse-trig atom (or of half of it)."""
    k = at.kind
    if k == 'acos':
        u = at.extra
        if half:
            return root2((ONE + u) / 2), root2((ONE - u) / 2)
        return u, root2(ONE - u * u)
    if k == 'asin':
        u = at.extra
        if half:
            return None
        return root2(ONE - u * u), u
    if k == 'atan':
        u = at.extra
        h = root2(ONE + u * u)
        if half:
            c = ONE / h
            return root2((ONE + c) / 2), (u / h) / (2 * root2((ONE + c) / 2))
        return ONE / h, u / h
    if k == 'atan2':
        y, x = at.extra
        h = root2(x * x + y * y)
        if half:
            return None
        return x / h, y / h
    return None


def sfloor(q):
    return Sym.of_atom(mk_atom('floor', (q.key,), extra=q))


def angle_cs(x):
    """(cos x, sin x)"""
    x = lift(x)
    C, S = ONE, ZERO
    for m, r in x.key:
        if m == ():
            if r > 0:
                c, s = cs_atoms(Sym.const(r))
            else:
                c, s = cs_atoms(Sym.const(-r))
                s = -s
        elif len(m) == 1 and ATOMS[m[0][0]].kind == 'pi' and m[0][1] == 1:
            c, s = pi_cs(r)
        elif r.denominator == 1 and r % 2 == 0 and len(m) == 2 and m[0][1] == m[1][1] == 1 and {ATOMS[m[0][0]].kind, ATOMS[m[1][0]].kind} == {'pi', 'floor'}:
            continue        # whole turns
        else:
            done = None
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('acos', 'asin', 'atan', 'atan2'):
                at = ATOMS[m[0][0]]
                if r.denominator == 1:
                    done = multi(inv_cs(at, False), r.numerator)
                elif r.denominator == 2:
                    h = inv_cs(at, True)
                    if h is not None:
                        done = multi(h, r.numerator)
            if done is None:
                r0 = _ANGLE_BASE.get(m)
                if r0 is None:
                    r0 = abs(r)
                    _ANGLE_BASE[m] = r0
                k = r / r0
                if k.denominator == 1 and abs(k) <= 8:
                    done = multi(cs_atoms(Sym({m: r0})), int(k))
                else:
                    c, s = cs_atoms(Sym({m: abs(r)}))
                    done = (c, s) if r > 0 else (c, -s)
            c, s = done
        C, S = C * c - S * s, S * c + C * s
    return C, S


def multi(cs, k):
    c, s = cs
    if k < 0:
        c, s = multi((c, s), -k)
        return c, -s
    C, S = ONE, ZERO
    for _ in range(k):
        C, S = C * c - S * s, S * c + C * s
    return C, S


def scos(x):
    return angle_cs(x)[0]


def ssin(x):
    return angle_cs(x)[1]


def stan(x):
    c, s = angle_cs(x)
    return s / c


def sacos(u):
    u = lift(u)
    domain('unit', u)
    if u.is_const():
        v = u.cval()
        if v == 1:
            return ZERO
        if v == -1:
            return PI
        if v == 0:
            return PI / 2
    a = mk_atom('acos', (u.key,), sign='nonneg', extra=u)
    return Sym.of_atom(a)


def sasin(u):
    u = lift(u)
    domain('unit', u)
    if u.is_const():
        v = u.cval()
        if v == 0:
            return ZERO
        if v == 1:
            return PI / 2
        if v == -1:
            return -PI / 2
    if u.t and u.key[0][1] < 0:
        return -sasin(-u)
    a = mk_atom('asin', (u.key,), sign=sign_of(u) if sign_of(u) in ('pos', 'nonneg') else None, extra=u)
    return Sym.of_atom(a)


def satan(u):
    u = lift(u)
    if not u.t:
        return ZERO
    if u.is_const() and abs(u.cval()) == 1:
        return PI / 4 * u
    if u.key[0][1] < 0:
        return -satan(-u)
    a = mk_atom('atan', (u.key,), sign=sign_of(u) if sign_of(u) in ('pos', 'nonneg') else None, extra=u)
    return Sym.of_atom(a)


def satan2(y, x):
    y, x = lift(y), lift(x)
    # scale-invariant canonical form: strip common positive content
    if not y.t:
        g = sign_of(x)
        if g is None:
            g = 'pos' if bool(x > 0) else 'neg'
        return ZERO if g in ('pos', 'nonneg', 'zero') else PI
    cy, my = content(y) if len(y.t) > 1 else (abs(list(y.t.values())[0]), list(y.t)[0])
    if x.t:
        cx, mx = content(x) if len(x.t) > 1 else (abs(list(x.t.values())[0]), list(x.t)[0])
        dx = dict(mx)
        common = tuple((aid, min(e, dx[aid])) for aid, e in my if aid in dx and ATOMS[aid].sign == 'pos')
        y, x = divide_mono(y, cy, common), divide_mono(x, cy, common)
        y, x = reduce_terms(y.t), reduce_terms(x.t)
    a = mk_atom('atan2', (y.key, x.key), extra=(y, x))
    return Sym.of_atom(a)


def sasinh(u):
    u = lift(u)
    if not u.t:
        return ZERO
    if not u.is_const() and u.key[0][1] < 0 or u.is_const() and u.cval() < 0:
        return -sasinh(-u)
    g = sign_of(u)
    return Sym.of_atom(mk_atom('asinh', (u.key,), sign=g if g in ('pos', 'nonneg') else None, extra=u))


def satanh(u):
    u = lift(u)
    if not u.t:
        return ZERO
    if not u.is_const() and u.key[0][1] < 0 or u.is_const() and u.cval() < 0:
        return -satanh(-u)
    g = sign_of(u)
    return Sym.of_atom(mk_atom('atanh', (u.key,), sign=g if g in ('pos', 'nonneg') else None, extra=u))


def hyp_cs(x):
    """(cosh x, sinh x), by the addition theorem over inverse hyperbolic terms"""
    x = lift(x)
    C, S, rest = ONE, ZERO, ZERO
    for m, r in x.key:
        k = ATOMS[m[0][0]].kind if len(m) == 1 and m[0][1] == 1 else None
        if k in ('asinh', 'atanh') and Fr(r).denominator == 1:
            u = ATOMS[m[0][0]].extra
            if k == 'asinh':
                c, s = root2(ONE + u * u), u
            else:
                q = root2(ONE - u * u)
                c, s = ONE / q, u / q
            if r < 0:
                s, r = -s, -r
            for _ in range(int(r)):
                C, S = C * c + S * s, S * c + C * s
        else:
            rest = rest + Sym({m: r})
    if rest.t:
        e = sexp(rest)
        c, s = (e + 1 / e) / 2, (e - 1 / e) / 2
        C, S = C * c + S * s, S * c + C * s
    return C, S


# ------------------------------------------------------------------ exp/log
def slog10(s):
    s = lift(s)
    domain('log', s)
    if not s.t:
        raise Undefined('log of zero')
    out = ZERO
    if len(s.t) == 1:
        (m, c), = s.t.items()
        neg = c < 0
        odd = [(aid, e) for aid, e in m if ATOMS[aid].sign != 'pos' and not (ATOMS[aid].kind in ('sum', 'num'))]
        if neg or len(odd) > 1:
            if neg and not odd:
                raise Undefined('log of a negative value')
            at = mk_atom('log10', (s.key,), extra=s)
            return Sym.of_atom(at)
        for p, k in _num_factors(c):
            if p == 2 or p == 5:
                continue
            out = out + Sym.of_atom(mk_atom('log10', ('n', p), extra=Sym.const(p))) * k
        e2 = _val(c, 2)
        e5 = _val(c, 5)
        # log10(5) = 1 - log10(2)
        out = out + Sym.const(e5)
        if e2 != e5:
            out = out + Sym.of_atom(mk_atom('log10', ('n', 2), extra=Sym.const(2))) * (e2 - e5)
        for aid, e in m:
            a = ATOMS[aid]
            if a.kind == 'exp10':
                out = out + a.extra * Sym.const(e)
            elif a.kind == 'num':
                out = out + slog10(Sym.const(a.args[0])) * Sym.const(e)
            else:
                b = a.extra if a.kind == 'sum' else Sym.of_atom(a)
                at = mk_atom('log10', (b.key,), extra=b)
                out = out + Sym.of_atom(at) * Sym.const(e)
        return out
    cont, cm = content(s)
    if all(ATOMS[aid].sign == 'pos' for aid, e in cm):
        p = reduce_terms(divide_mono(s, cont, cm).t)
        if len(p.t) > 1:
            at = mk_atom('log10', (p.key,), extra=p)
            return Sym.of_atom(at) + slog10(Sym({cm: cont}))
        return slog10(p) + slog10(Sym({cm: cont}))
    at = mk_atom('log10', (s.key,), extra=s)
    return Sym.of_atom(at)


def _val(c, p):
    k = 0
    n, d = c.numerator, c.denominator
    while n % p == 0 and n:
        n //= p
        k += 1
    while d % p == 0:
        d //= p
        k -= 1
    return k


def _num_factors(c):
    f = {}
    for p, k in _factor_small(c.numerator).items():
        f[p] = f.get(p, 0) + k
    for p, k in _factor_small(c.denominator).items():
        f[p] = f.get(p, 0) - k
    return sorted(f.items())


def sln(s):
    return slog10(s) * LN10


def sexp10(x):
    """10 ** x"""
    x = lift(x)
    out = ONE
    mono = {}
    for m, c in x.key:
        if m == ():
            out = out * numpow(Fr(10), c)
            continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log10':
            b = ATOMS[m[0][0]].extra
            out = out * cpow(b, _ex(c))
            continue
        a = mk_atom('exp10', (Sym({m: Fr(1)}).key,), sign='pos', extra=Sym({m: Fr(1)}))
        out = out * Sym({((a.id, _ex(c)),): Fr(1)})
    return out


def sexp(x):
    return sexp10(lift(x) / LN10)


def uf(name, *args, sign=None):
    a = mk_atom('uf', (name,) + tuple(lift(x).key for x in args), name=name, sign=sign,
                extra=tuple(lift(x) for x in args))
    return Sym.of_atom(a)


# ------------------------------------------------------------------ booleans
class SymBool:
    """op in '<','<=','==','!=' over a Sym d (d op 0), or and/or/not."""
    __slots__ = ('op', 'a')

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def __bool__(self):
        return HOOKS.decide(self)

    def __invert__(self):
        return negate(self)

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(map(repr, self.a)) + ')'
        if self.op == 'not':
            return 'not %r' % (self.a,)
        return '%s %s 0' % (show(self.a), self.op)

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__


def compare(a, op, o):
    b = lift_or_arr(o)
    if b is None:
        if op == '==':
            return False
        if op == '!=':
            return True
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            raise Unsupported('inf')
        return NotImplemented
    if not isinstance(b, Sym):
        import numpy as np
        out = np.empty(b.shape, dtype=bool)
        for idx in np.ndindex(*b.shape):
            out[idx] = bool(compare(a, op, b[idx]))
        return out
    d = a - b
    if op == '>':
        d, op = -d, '<'
    elif op == '>=':
        d, op = -d, '<='
    return mkcmp(op, d)


def mkcmp(op, d):
    g = 'zero' if not d.t else None
    if d.is_const():
        c = d.cval()
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    g = sign_of(d)
    if g is not None:
        if op == '<':
            if g in ('pos', 'nonneg'):
                return False
            if g == 'neg':
                return True
        elif op == '<=':
            if g == 'pos':
                return False
            if g in ('neg', 'nonpos'):
                return True
        elif op == '==':
            if g in ('pos', 'neg'):
                return False
        elif op == '!=':
            if g in ('pos', 'neg'):
                return True
    return SymBool(op, d)


def negate(c):
    if isinstance(c, bool):
        return not c
    if not isinstance(c, SymBool):
        return not c
    if c.op == '<':
        return mkcmp('<=', -c.a)
    if c.op == '<=':
        return mkcmp('<', -c.a)
    if c.op == '==':
        return mkcmp('!=', c.a)
    if c.op == '!=':
        return mkcmp('==', c.a)
    if c.op == 'and':
        return Or(*[negate(x) for x in c.a])
    if c.op == 'or':
        return And(*[negate(x) for x in c.a])
    raise AssertionError(c.op)


def And(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c)
        elif not c:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool('and', tuple(out))


def Or(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c)
        elif c:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool('or', tuple(out))


def Implies(a, b):
    return Or(negate(a), b)


ZERO = Sym({})
ONE = Sym.const(1)
reset()


# ------------------------------------------------------------------ numeric evaluation
def evalf(s, env, memo=None):
    """float value of s; env: var name -> float, 'uf' -> callable(name,args)"""
    if memo is None:
        memo = {}
    tot = 0.0
    for m, c in s.t.items():
        v = float(c) if abs(c.numerator) < 10 ** 300 and c.denominator < 10 ** 300 else c.numerator / c.denominator
        for aid, e in m:
            v *= _atom_val(aid, env, memo) ** float(e) if not isinstance(e, int) else _atom_val(aid, env, memo) ** e
        tot += v
    return tot


def _atom_val(aid, env, memo):
    if aid in memo:
        return memo[aid]
    a = ATOMS[aid]
    k = a.kind
    if k == 'var':
        v = float(env[a.name])
    elif k == 'pi':
        v = math.pi
    elif k == 'ln10':
        v = math.log(10)
    elif k == 'num':
        v = float(a.args[0])
    elif k == 'C':
        v = math.cos(evalf(a.extra, env, memo))
    elif k == 'S':
        v = math.sin(evalf(a.extra.extra, env, memo))
    elif k == 'sum':
        v = evalf(a.extra, env, memo)
        if v < 0 and v > -1e-12:
            v = 0.0
    elif k == 'acos':
        v = math.acos(max(-1.0, min(1.0, evalf(a.extra, env, memo))))
    elif k == 'asin':
        v = math.asin(max(-1.0, min(1.0, evalf(a.extra, env, memo))))
    elif k == 'atan':
        v = math.atan(evalf(a.extra, env, memo))
    elif k == 'atan2':
        v = math.atan2(evalf(a.extra[0], env, memo), evalf(a.extra[1], env, memo))
    elif k == 'let':
        v = evalf(a.extra, env, memo)
    elif k == 'asinh':
        v = math.asinh(evalf(a.extra, env, memo))
    elif k == 'atanh':
        v = math.atanh(evalf(a.extra, env, memo))
    elif k == 'log10':
        v = math.log10(evalf(a.extra, env, memo))
    elif k == 'exp10':
        v = 10 ** evalf(a.extra, env, memo)
    elif k == 'floor':
        v = math.floor(evalf(a.extra, env, memo))
    elif k == 'rnd':
        v = round(evalf(a.extra, env, memo), a.args[1])
    elif k == 'uf':
        v = env['uf'](a.name, [evalf(x, env, memo) for x in a.extra], a.sign)
    else:
        raise Unsupported('evalf ' + k)
    memo[aid] = v
    return v


def evalb(c, env, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(c, SymBool):
        return bool(c)
    if c.op == 'and':
        return all(evalb(x, env, memo) for x in c.a)
    if c.op == 'or':
        return any(evalb(x, env, memo) for x in c.a)
    v = evalf(c.a, env, memo)
    return {'<': v < 0, '<=': v <= 0, '==': abs(v) < 1e-12, '!=': v != 0}[c.op]


# ------------------------------------------------------------------ clearing denominators
def clear_den(s):
    """Multiply by powers of atoms so that no negative exponents remain.
    Returns (numerator Sym, list of (atom, power) multiplied)."""
    for _ in range(60):
        neg = {}
        for m in s.t:
            for aid, e in m:
                if e < 0:
                    neg[aid] = min(neg.get(aid, 0), e)
        if not neg:
            return s
        # highest-id atoms first: they may contain the others in their definition
        aid = max(neg)
        k = -math.floor(neg[aid])
        factor = Sym({((aid, k),): Fr(1)})
        # raw multiply, then reduce
        s = reduce_terms(_mul_raw(s.t, {((aid, k),): Fr(1)}))
    return s
