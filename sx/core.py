"""Symbolic values and the path explorer's per-path context.

The real code of /repo is executed under CPython with these proxy values.  An
`if` on a symbolic condition asks the SMT solver which sides are feasible; the
path continues on one and the other is queued (sx/explore.py re-executes the
harness with that decision prefix).  Simple conditionals are merged into
if-then-else terms instead of forking (sx/instrument.py).
"""
import math
import operator
import time

import z3

from . import mdd
from . import term as T
from .term import Lin


class PathStop(BaseException):
    """Ends the current path silently (infeasible assumption)."""


class NeedFork(BaseException):
    """Speculative (merging) evaluation met an undecided branch."""


class SymbolicLimit(BaseException):
    """The encoding cannot represent an operation the code performed."""


CTX = None  # current PathCtx


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def is_sym(v):
    return isinstance(v, (SymBool, SymInt))


def mkbool(b):
    """Bool node -> bool or SymBool"""
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    return SymBool(b)


def mkz(e):
    return mkbool(T.b_z(e))


def node(v):
    """bool / SymBool -> Bool node"""
    if isinstance(v, SymBool):
        return v.b
    return T.TRUE if v else T.FALSE


def truth(v):
    """bool or SymBool for the truthiness of v, without forking on symbols."""
    if isinstance(v, SymBool):
        return v
    if isinstance(v, SymInt):
        return v.nonzero()
    return bool(v)


def sx_not(v):
    t = truth(v)
    if isinstance(t, SymBool):
        return mkbool(T.b_not(t.b))
    return not t


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CTX.branch(self.b)

    def as_int(self):
        return SymInt(T.lin_ite(self.b, Lin((), 1), Lin((), 0)))

    def __index__(self):
        return 1 if CTX.branch(self.b) else 0

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return 0x5EED

    def __repr__(self):
        return "SymBool(%s)" % (self.b.key,)

    def __str__(self):
        return "True" if self else "False"

    def __format__(self, spec):
        return format(bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise SymbolicLimit("pickling a symbolic value")

    # logic
    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return mkbool(T.b_and([self.b, o.b]))
        return self.as_int() & o

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return mkbool(T.b_or([self.b, o.b]))
        return self.as_int() | o

    def __xor__(self, o):
        if isinstance(o, bool):
            return sx_not(self) if o else self
        if isinstance(o, SymBool):
            return sx_not(self == o)
        return self.as_int() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return ~self.as_int()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(T.b_ite(self.b, o.b, T.b_not(o.b)))
        if isinstance(o, bool):
            return self if o else sx_not(self)
        if isinstance(o, (int, float, SymInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return sx_not(self == o)

    def __mul__(self, o):
        if isinstance(o, bool):
            return self.as_int() if o else 0
        if isinstance(o, SymBool):
            r = mkbool(T.b_and([self.b, o.b]))
            return r.as_int() if isinstance(r, SymBool) else int(r)
        if isinstance(o, (int, SymInt)):
            r = merge(self, o, 0)
            return r if r is not FAIL else (o if self else 0)
        if isinstance(o, (list, tuple, str)):
            return o if self else o[:0]
        return NotImplemented

    __rmul__ = __mul__


def _bool_arith(name):
    def op(self, *a):
        return getattr(self.as_int(), name)(*a)
    return op


for _n in ("add radd sub rsub floordiv rfloordiv mod rmod truediv rtruediv lt le gt ge neg pos "
           "abs lshift rlshift rshift rrshift pow round divmod").split():
    setattr(SymBool, "__%s__" % _n, _bool_arith("__%s__" % _n))


def _lin(v):
    """Lin of an int-like, or None."""
    t = type(v)
    if t is int or t is bool:
        return Lin((), int(v))
    if t is SymInt:
        return v.l
    if t is SymBool:
        return v.as_int().l
    if isinstance(v, int):
        return Lin((), int(v))
    if isinstance(v, SymBits):
        raise SymbolicLimit("mixing unbounded and bit-level symbolic ints")
    return None


def lift(v):
    if isinstance(v, SymInt):
        return v
    l = _lin(v)
    return None if l is None else SymInt(l)


def mkint(l):
    if not l.t:
        return l.k
    if CTX is not None:
        v = CTX.point(l)
        if v is not None:
            return v
    return SymInt(l)


class SymInt:
    """Mathematical integer (Python int) backed by a linear form."""
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def nonzero(self):
        return mkbool(T.b_not(T.b_eq(self.l)))

    def __bool__(self):
        return CTX.branch(T.b_not(T.b_eq(self.l)))

    def __index__(self):
        return CTX.concretize(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return 0x5EED

    def __repr__(self):
        return "SymInt(%s)" % (self.l.key(),) if type(self) is SymInt else "SymBits(%s)" % self.e

    def __format__(self, spec):
        return CTX.token(self, spec)

    def __str__(self):
        return CTX.token(self, "")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise SymbolicLimit("pickling a symbolic value")

    def __round__(self, nd=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __neg__(self):
        return SymInt(T.lin_scale(self.l, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        c = self >= 0
        r = merge(c, self, -self)
        return r if r is not FAIL else (self if c else -self)

    def __invert__(self):
        return -self - 1

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    # arithmetic
    def __add__(self, o):
        if type(o) is int:
            return SymInt(Lin(self.l.t, self.l.k + o)) if o else self
        l = _lin(o)
        if l is None:
            return _floaty(self, o, "+")
        return mkint(T.lin_add(self.l, l))

    def __radd__(self, o):
        if type(o) is int:
            return SymInt(Lin(self.l.t, self.l.k + o)) if o else self
        l = _lin(o)
        if l is None:
            return _floaty(o, self, "+")
        return mkint(T.lin_add(l, self.l))

    def __sub__(self, o):
        l = _lin(o)
        if l is None:
            return _floaty(self, o, "-")
        return mkint(T.lin_sub(self.l, l))

    def __rsub__(self, o):
        l = _lin(o)
        if l is None:
            return _floaty(o, self, "-")
        return mkint(T.lin_sub(l, self.l))

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return o * self
        if isinstance(o, (int, SymInt)):
            return mkint(T.lin_mul(self.l, _lin(o)))
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        if isinstance(o, float):
            return _floaty(self, o, "*")
        return NotImplemented

    __rmul__ = __mul__

    def _divmod(self, o, want):
        l = _lin(o)
        if l is None:
            raise SymbolicLimit("division of a symbolic int by %r" % (o,))
        if not l.t:
            d = l.k
            if d == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            x = self.l
            if d < 0:
                x, d = T.lin_scale(x, -1), -d
                q = T.lin_div(x, d)
            else:
                q = T.lin_div(x, d)
            r = T.lin_sub(x, T.lin_scale(q, d))
            if l.k < 0:
                r = T.lin_scale(r, -1)
        else:
            if CTX.branch(T.b_eq(l)):
                raise ZeroDivisionError("integer division or modulo by zero")
            x = self.l
            pos = CTX.branch(T.b_not(T.b_le(l)))
            if not pos:
                x, l = T.lin_scale(x, -1), T.lin_scale(l, -1)
            kx, kl = x.key(), l.key()
            n = x.ites() + l.ites() + 5
            q = Lin(((T.atom("zdiv", (x, l), ("zdiv", kx, kl), n), 1),), 0)
            r = Lin(((T.atom("zmod", (x, l), ("zmod", kx, kl), n), 1),), 0)
            if not pos:
                r = T.lin_scale(r, -1)
        if want == "q":
            return mkint(q)
        if want == "r":
            return mkint(r)
        return mkint(q), mkint(r)

    def __floordiv__(self, o):
        return self._divmod(o, "q")

    def __mod__(self, o):
        return self._divmod(o, "r")

    def __divmod__(self, o):
        return self._divmod(o, "qr")

    def __rfloordiv__(self, o):
        return lift(o)._divmod(self, "q")

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return lift(o)._divmod(self, "r")

    def __rdivmod__(self, o):
        return lift(o)._divmod(self, "qr")

    def __truediv__(self, o):
        return _truediv(self, o)

    def __rtruediv__(self, o):
        return _truediv(o, self)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and o >= 0 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise SymbolicLimit("symbolic power")

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self * (1 << o.__index__())

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        k = o if isinstance(o, int) else o.__index__()
        return self // (1 << k)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        # only small masks of the form 2**k - 1 have an arithmetic meaning here
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise SymbolicLimit("bitwise operation on an unbounded symbolic int")

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is int and o == 0:
            return self
        raise SymbolicLimit("bitwise operation on an unbounded symbolic int")

    __ror__ = __xor__ = __rxor__ = __or__

    # comparison
    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def _cmp(self, o, op):
        if isinstance(o, float):
            return _cmp_float(self, o, op)
        l = _lin(o)
        if l is None:
            return NotImplemented
        if op == "lt":
            d = T.lin_sub(self.l, l)
            return mkbool(T.b_le(Lin(d.t, d.k + 1)))
        if op == "le":
            return mkbool(T.b_le(T.lin_sub(self.l, l)))
        if op == "gt":
            d = T.lin_sub(l, self.l)
            return mkbool(T.b_le(Lin(d.t, d.k + 1)))
        return mkbool(T.b_le(T.lin_sub(l, self.l)))

    def __eq__(self, o):
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")) or o != int(o):
                return False
            o = int(o)
        l = _lin(o)
        if l is None:
            r = getattr(type(o), "__eq__", None)
            return NotImplemented if r is not None and not isinstance(
                o, (str, bytes, list, tuple, dict, set, type(None))) else False
        return mkbool(T.b_eq(T.lin_sub(self.l, l)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)


def _cmp_float(s, f, op):
    if f != f:
        return False
    if f == float("inf"):
        return op in ("lt", "le")
    if f == float("-inf"):
        return op in ("gt", "ge")
    fl = math.floor(f)
    if f == fl:
        return s._cmp(int(f), op)
    # s < 2.5  <=> s <= 2 ; s > 2.5 <=> s > 2
    if op in ("lt", "le"):
        return s._cmp(int(fl), "le")
    return s._cmp(int(fl), "gt")


def _floaty(a, b, op):
    """int-with-float arithmetic: exact only for integral or infinite floats."""
    sym, other = (a, b) if is_sym(a) else (b, a)
    if isinstance(other, float):
        if other in (float("inf"), float("-inf")):
            if op == "+":
                return other
            if op == "-":
                return -other if other is b else other
            raise SymbolicLimit("symbolic * inf")
        if other == int(other):
            o = int(other)
            if op == "+":
                return sym + o
            if op == "-":
                return (a - o) if other is b else (lift(o) - sym)
            return sym * o
        raise SymbolicLimit("arithmetic of a symbolic int with a fractional float")
    return NotImplemented


def _truediv(a, b):
    """True division: both operands are concretised by forking."""
    x = a.__index__() if is_sym(a) else a
    y = b.__index__() if is_sym(b) else b
    return x / y


# ---------------------------------------------------------------- merging
class _Fail:
    pass


FAIL = _Fail()


def merge(c, a, b):
    """value of (a if c else b) as one term, or FAIL. c: SymBool."""
    if a is b:
        return a
    if not isinstance(c, SymBool):
        return a if c else b
    if CTX is not None:
        k = CTX.known(c.b)
        if k is not None:
            return a if k else b
    ta, tb = type(a), type(b)
    if ta is SymBits or tb is SymBits:
        return SymBits.merge(c, a, b)
    if ta is int and tb is int and CTX is not None and CTX.bitwise(c.b):
        return a if a == b else SymBits.merge(c, a, b)
    booly = (SymBool, bool)
    if isinstance(a, booly) and isinstance(b, booly):
        return mkbool(T.b_ite(c.b, node(a), node(b)))
    inty = (SymInt, SymBool, int)
    if isinstance(a, inty) and isinstance(b, inty):
        la, lb = _lin(a), _lin(b)
        if la.same(lb):
            return a if isinstance(a, SymInt) else b
        if CTX is not None and not CTX.may_merge(c.b, la, lb):
            return FAIL
        return SymInt(T.lin_ite(c.b, la, lb))
    if isinstance(a, float) and isinstance(b, float) and a == b:
        return a
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    return FAIL


# ---------------------------------------------------------------- bounded bit-level ints
def _width(lo, hi):
    return max(int(lo).bit_length() + 1, int(hi).bit_length() + 1, 2)


def _ground(tab, v=None):
    return tab is not None or type(v) is int


_OPS = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}


class SymBits(SymInt):
    """Python int known to lie in [lo, hi], backed by a signed bit-vector just
    wide enough, so that no operation wraps; supports & | ^ ~ << >> and *."""
    __slots__ = ("_e", "lo", "hi", "tab")

    def __init__(self, e, lo, hi, tab=None):
        self._e, self.lo, self.hi, self.tab = e, lo, hi, tab

    @property
    def e(self):
        if self._e is None:
            w = _width(self.lo, self.hi)
            self._e = mdd.to_z3(self.tab, ("v", w), lambda v: z3.BitVecVal(v, w))
        return self._e

    @staticmethod
    def of_tab(n):
        """the value a diagram stands for"""
        if n is mdd.DC:
            return 0
        lo, hi = mdd.rng(n)
        return lo if lo == hi else SymBits(None, lo, hi, n)

    @staticmethod
    def tabs(*vs):
        """the diagrams of all values, None if one has none"""
        out = []
        some = False
        for v in vs:
            if type(v) is int or type(v) is bool:
                out.append(mdd.leaf(int(v)))
            elif type(v) is SymBits and v.tab is not None:
                out.append(v.tab)
                some = True
            else:
                return None
        return out if some and CTX is not None else None

    @staticmethod
    def fold(f, *vs):
        """f carried out on the diagrams, None where that is not possible"""
        ts = SymBits.tabs(*vs)
        if ts is None:
            return None
        try:
            return SymBits.of_tab(mdd.apply(f, ts, CTX.care))
        except mdd.Overflow:
            return None

    @staticmethod
    def decide(f, *vs):
        """a condition on the leaves as a SymBool (or bool), None if not possible"""
        ts = SymBits.tabs(*vs)
        if ts is None or CTX.raw:
            return None
        try:
            n = mdd.apply(lambda *xs: 1 if f(*xs) else 0, ts, CTX.care)
        except mdd.Overflow:
            return None
        return CTX.cond(n)

    def nonzero(self):
        r = SymBits.decide(lambda v: v != 0, self)
        return mkz(self.e != self._zero()) if r is None else r

    def _zero(self):
        return z3.BitVecVal(0, self.e.size())

    def __bool__(self):
        r = self.nonzero()
        return CTX.branch(r.b) if isinstance(r, SymBool) else r

    @staticmethod
    def make(e, lo, hi):
        if lo == hi:
            return lo
        w = _width(lo, hi)
        s = e.size()
        if s > w:
            e = z3.Extract(w - 1, 0, e)
        elif s < w:
            e = z3.SignExt(w - s, e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return SymBits(e, lo, hi)

    @staticmethod
    def of(v):
        if isinstance(v, SymBits):
            return v
        if isinstance(v, SymBool):
            return SymBits(z3.If(v.b.z3(), z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
        if isinstance(v, int):
            v = int(v)
            return SymBits(z3.BitVecVal(v, _width(v, v)), v, v)
        if isinstance(v, SymInt):
            raise SymbolicLimit("mixing unbounded and bit-level symbolic ints")
        return None

    def ext(self, w):
        s = self.e.size()
        if s == w:
            return self.e
        if s > w:
            return z3.Extract(w - 1, 0, self.e)
        return z3.SignExt(w - s, self.e)

    @staticmethod
    def merge(c, a, b):
        x, y = SymBits.of(a), SymBits.of(b)
        if x is None or y is None:
            return FAIL
        cm = CTX.diagram(c.b) if CTX is not None else None
        if cm is not None:
            ts = SymBits.tabs(a if type(a) is int else x, b if type(b) is int else y)
            if ts is None and type(a) is int and type(b) is int:
                ts = [mdd.leaf(a), mdd.leaf(b)]
            if ts is not None:
                try:
                    return SymBits.of_tab(mdd.ite(cm, ts[0], ts[1], CTX.care))
                except mdd.Overflow:
                    pass
        lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
        w = _width(lo, hi)
        ex, ey = x.ext(w), y.ext(w)
        if ex.eq(ey):
            return a
        return SymBits.make(z3.If(c.b.z3(), ex, ey), lo, hi)

    def _bin(self, o, f, rng, swap=False, leaves=None):
        if leaves is not None:
            r = SymBits.fold(leaves, *((o, self) if swap else (self, o)))
            if r is not None:
                return r
        b = SymBits.of(o)
        if b is None:
            return NotImplemented
        a = self
        if swap:
            a, b = b, a
        lo, hi = rng(a, b)
        w = max(_width(lo, hi), a.e.size(), b.e.size())
        return SymBits.make(f(a.ext(w), b.ext(w)), lo, hi)

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y, lambda a, b: (a.lo + b.lo, a.hi + b.hi))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y, lambda a, b: (a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, lambda a, b: (a.lo - b.hi, a.hi - b.lo), True)

    def __neg__(self):
        return 0 - self

    def __abs__(self):
        return merge(self >= 0, self, -self) if self.lo < 0 else self

    def __invert__(self):
        return -1 - self

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()

        def rng(a, b):
            c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(c), max(c)
        return self._bin(o, lambda x, y: x * y, rng, leaves=operator.mul)

    __rmul__ = __mul__

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and o >= 0 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise SymbolicLimit("symbolic power")

    def _brng(self, a, b):
        w = max(a.e.size(), b.e.size())
        if a.lo >= 0 and b.lo >= 0:
            return 0, (1 << (w - 1)) - 1
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def _arng(self, a, b):
        if a.lo >= 0 and b.lo >= 0:
            return 0, min(a.hi, b.hi)
        if a.lo >= 0:
            return 0, a.hi
        if b.lo >= 0:
            return 0, b.hi
        return self._brng(a, b)

    def __and__(self, o):
        return self._bin(o, lambda x, y: x & y, self._arng, leaves=operator.and_)

    def __or__(self, o):
        return self._bin(o, lambda x, y: x | y, self._brng, leaves=operator.or_)

    def __xor__(self, o):
        return self._bin(o, lambda x, y: x ^ y, self._brng, leaves=operator.xor)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, k):
        if is_sym(k):
            return self * SymBits.pow2(k)
        return self * (1 << k)

    def __rlshift__(self, o):
        return o * SymBits.pow2(self)

    @staticmethod
    def pow2(k):
        if not isinstance(k, SymBits) or k.lo < 0 or k.hi > 64:
            raise SymbolicLimit("symbolic shift amount out of range")
        r = 1 << k.hi
        for v in range(k.hi - 1, k.lo - 1, -1):
            r = merge(k == v, 1 << v, r)
        return r

    def __rshift__(self, k):
        if is_sym(k):
            r = self >> k.hi
            for v in range(k.hi - 1, k.lo - 1, -1):
                r = merge(k == v, self >> v, r)
            return r
        if k == 0:
            return self
        r = SymBits.fold(lambda v: v >> k, self)
        if r is not None:
            return r
        w = self.e.size()
        return SymBits.make(self.e >> z3.BitVecVal(min(k, w - 1), w), self.lo >> k, self.hi >> k)

    def __rrshift__(self, o):
        r = o >> self.hi
        for v in range(self.hi - 1, self.lo - 1, -1):
            r = merge(self == v, o >> v, r)
        return r

    def _divmod(self, o, want):
        b = SymBits.of(o)
        if b is None:
            raise SymbolicLimit("bit-level division by %r" % (o,))
        if b.lo <= 0 <= b.hi:
            if b.lo == b.hi or CTX.branch(T.b_z(b.e == b._zero())):
                raise ZeroDivisionError("integer division or modulo by zero")
        if self.lo < 0 or b.lo < 0:
            raise SymbolicLimit("bit-level division of negative numbers")
        w = max(self.e.size(), b.e.size())
        x, y = self.ext(w), b.ext(w)
        q = SymBits.make(z3.UDiv(x, y), 0, self.hi)
        r = SymBits.make(z3.URem(x, y), 0, max(b.hi - 1, 0))
        return q if want == "q" else r if want == "r" else (q, r)

    def __rfloordiv__(self, o):
        return SymBits.of(o)._divmod(self, "q")

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return SymBits.of(o)._divmod(self, "r")

    def _cmp(self, o, op):
        if isinstance(o, float):
            return _cmp_float(self, o, op)
        b = SymBits.of(o)
        if b is None:
            return NotImplemented
        if op in ("lt", "le"):
            if self.hi < b.lo or (op == "le" and self.hi == b.lo):
                return True
            if self.lo > b.hi or (op == "lt" and self.lo == b.hi):
                return False
        else:
            if self.lo > b.hi or (op == "ge" and self.lo == b.hi):
                return True
            if self.hi < b.lo or (op == "gt" and self.hi == b.lo):
                return False
        if _ground(self.tab) and _ground(b.tab, o):
            r = SymBits.decide(_OPS[op], self, o)
            if r is not None:
                return r
        w = max(self.e.size(), b.e.size())
        x, y = self.ext(w), b.ext(w)
        return mkz({"lt": lambda: x < y, "le": lambda: x <= y,
                       "gt": lambda: x > y, "ge": lambda: x >= y}[op]())

    def __eq__(self, o):
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")) or o != int(o):
                return False
            o = int(o)
        b = SymBits.of(o) if isinstance(o, (int, SymInt, SymBool)) else None
        if b is None:
            return False if isinstance(
                o, (str, bytes, list, tuple, dict, set, type(None))) else NotImplemented
        if self.hi < b.lo or self.lo > b.hi:
            return False
        if _ground(self.tab) and _ground(b.tab, o):
            r = SymBits.decide(operator.eq, self, o)
            if r is not None:
                return r
        w = max(self.e.size(), b.e.size())
        x, y = self.ext(w), b.ext(w)
        if x.eq(y):
            return True
        return mkz(x == y)

    def __hash__(self):
        return 0x5EED

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sx_not(r)


# ---------------------------------------------------------------- finite choices
def select_table(idx, table):
    """table[idx] for a symbolic idx over a concrete table of ints (0-based)."""
    n = len(table)
    if all(isinstance(t, int) for t in table) and isinstance(idx, SymBits):
        # group equal values; default = most frequent
        groups = {}
        for i, t in enumerate(table):
            groups.setdefault(int(t), []).append(i)
        vals = sorted(groups, key=lambda v: len(groups[v]))
        r = vals[-1]
        for v in vals[:-1]:
            c = mkbool(T.b_or([node(idx == i) for i in groups[v]]))
            r = merge(c, v, r) if isinstance(c, SymBool) else (v if c else r)
            if isinstance(r, int):
                r = SymBits.of(r)
        return r
    r = table[n - 1]
    for i in range(n - 2, -1, -1):
        r = merge(idx == i, table[i], r)
        if r is FAIL:
            return FAIL
    return r


# ---------------------------------------------------------------- per-path context
class Stats(dict):
    KEYS = ("paths", "branches", "forks", "queries", "checks", "checks_trivial", "checks_solver",
            "unknown", "infeasible", "merges")

    def __init__(self):
        super().__init__({k: 0 for k in self.KEYS})
        self["solver_s"] = 0.0

    def addall(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


class Model(object):
    __slots__ = ("env", "memo", "z")

    def __init__(self, env, z=None):
        self.env = env
        self.memo = {}
        self.z = z
        if z is not None:
            env["\0model"] = z

    def truth(self, b):
        """True / False, or None when it cannot be evaluated"""
        try:
            return b.ev(self.env, self.memo)
        except ValueError:
            return None


# the solver of this process: one scope per assertion, kept between paths so
# that consecutive paths only replace the part of the path condition they differ in
SHARED = {}


class PathCtx:
    symbolic = True

    def __init__(self, prefix, stats, opts):
        if T.new_table():
            SHARED.clear()
            mdd.clear()
        self.prefix, env = prefix
        self.stats = stats
        self.opts = opts
        self.pos = 0
        self.trace = []
        self.pending = []
        self.pc = []
        self.owner, self.nsent = None, 0
        self.known_b = {}
        self.diagrams = {}
        self.care = mdd.TRUE
        self.raw = False
        self.iv = {}
        self.points = {}
        self.ccache = {}
        self.nofork = 0
        self.inputs = {}
        self.has_bits = False
        self.todo = []      # property obligations not yet decided
        self.violations = []
        self.unknown_checks = []
        self.covers = set()
        self.logs = []
        self.models = [Model(dict(env))] if env is not None else []
        self.seeded = env is not None
        self.tokens = {}
        self.token_ids = {}

    # -- solver
    def solver(self):
        o = self.opts
        key = (o.get("logic"), o.get("full"), o.get("query_ms"))
        s = SHARED.get(key)
        if s is None:
            if o.get("logic"):
                s = z3.SolverFor(o["logic"])
            elif o.get("full"):
                s = z3.Solver()
            else:
                s = z3.SimpleSolver()
            s.set("timeout", int(o.get("query_ms") or 30000))
            s = SHARED[key] = (s, [])
        s, have = s
        want = self.pc
        i = self.nsent if self.owner is s else 0
        if i < len(want) or len(have) != len(want):
            while i < len(want) and i < len(have) and have[i] is want[i]:
                i += 1
            if len(have) > i:
                s.pop(len(have) - i)
                del have[i:]
            for b in want[i:]:
                s.push()
                s.add(b.z3())
                have.append(b)
        self.owner, self.nsent = s, len(want)
        return s

    def _check(self, *bs):
        """sat / unsat / unknown of path condition + bs, and a Model"""
        t = time.time()
        s = self.solver()
        if bs:
            s.push()
            s.add([b.z3() for b in bs])
        r = s.check()
        m = self._model(s.model()) if r == z3.sat else None
        if bs:
            s.pop()
        dt = time.time() - t
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r, m

    def _model(self, zm):
        env = {}
        for n, x in self.inputs.items():
            v = zm.eval(x, model_completion=True)
            if z3.is_bv(x):
                env[n] = v.as_signed_long()
            elif z3.is_bool(x):
                env[n] = z3.is_true(v)
            elif z3.is_real(x):
                env[n] = str((v if z3.is_rational_value(v) else v.approx(20)).as_fraction())
            else:
                env[n] = v.as_long()
        return Model(env, zm if self.has_bits else None)

    # -- finite-domain diagrams of bit-level conditions
    def cond(self, n):
        """the condition a 0/1 diagram stands for"""
        if n is mdd.DC or n is mdd.TRUE:
            return True
        if n is mdd.FALSE:
            return False
        b = T.b_z(mdd.to_z3(n, "b", lambda v: z3.BoolVal(bool(v))))
        self.diagrams[b.id] = (b, n)
        return mkbool(b)

    def diagram(self, b):
        d = self.diagrams.get(b.id)
        if d is not None:
            return d[1]
        d = self.diagrams.get(T.b_not(b).id)
        if d is not None:
            try:
                return mdd.neg(d[1], self.care)
            except mdd.Overflow:
                pass
        return None

    def bitwise(self, b):
        """whether the condition is about bit-level values"""
        return b.kind == "z" or (b.kind == "not" and b.args[0].kind == "z") or \
            b.id in self.diagrams

    def _restrict(self, b):
        try:
            if b.kind == "and":
                for x in b.args:
                    self._restrict(x)
            else:
                n = self.diagram(b)
                if n is not None:
                    self.care = mdd.conj(self.care, n)
        except mdd.Overflow:
            pass

    def _assert(self, b):
        if b is T.TRUE:
            return
        if self.diagrams:
            self._restrict(b)
        self.pc.append(b)
        self._learn(b)
        if self.models:
            self.models = [m for m in self.models if m.truth(b) is True]

    # -- facts known without asking the solver
    @staticmethod
    def _dir(t):
        if t[0][1] > 0:
            return tuple([(a.id, c) for a, c in t]), 1
        return tuple([(a.id, -c) for a, c in t]), -1

    def _learn(self, b):
        self.known_b[b.id] = True
        k = b.kind
        if k == "le":
            l = b.args[0]
            d, sg = self._dir(l.t)
            lo, hi = self.iv.get(d, (None, None))
            if sg > 0:
                if hi is None or -l.k < hi:
                    hi = -l.k
            else:
                if lo is None or l.k > lo:
                    lo = l.k
            self._set_iv(d, lo, hi)
        elif k == "eq":
            l = b.args[0]
            d, sg = self._dir(l.t)
            v = -l.k * sg
            self._set_iv(d, v, v)
        elif k == "and":
            for x in b.args:
                self._learn(x)
        elif k == "or":
            open_ = [x for x in b.args if self.known(x) is not False]
            if len(open_) == 1:
                self._learn(open_[0])
        elif k == "not":
            x = b.args[0]
            self.known_b[x.id] = False
            if x.kind == "eq":
                l = x.args[0]
                d, sg = self._dir(l.t)
                v = -l.k * sg
                lo, hi = self.iv.get(d, (None, None))
                if lo == v:
                    self._set_iv(d, v + 1, hi)
                elif hi == v:
                    self._set_iv(d, lo, v - 1)

    def _set_iv(self, d, lo, hi):
        self.iv[d] = (lo, hi)
        if lo is not None and lo == hi:
            self.points[d] = lo

    def point(self, l):
        """constant value of l when the path condition pins it syntactically"""
        if not self.points:
            return None
        d, sg = self._dir(l.t)
        v = self.points.get(d)
        return None if v is None else l.k + sg * v

    def _atom_iv(self, a, depth):
        lo, hi = self.iv.get(((a.id, 1),), (None, None))
        if (lo is None or hi is None) and depth < 3:
            if a.kind == "ite":
                l1, h1 = self.bounds(a.args[1], depth + 1)
                l2, h2 = self.bounds(a.args[2], depth + 1)
                if lo is None and l1 is not None and l2 is not None:
                    lo = min(l1, l2)
                if hi is None and h1 is not None and h2 is not None:
                    hi = max(h1, h2)
        return lo, hi

    def bounds(self, l, depth=0):
        lo = hi = l.k
        for a, c in l.t:
            x, y = self._atom_iv(a, depth)
            if c < 0:
                x, y = y, x
            lo = None if lo is None or x is None else lo + c * x
            hi = None if hi is None or y is None else hi + c * y
            if lo is None and hi is None:
                break
        return lo, hi

    def known(self, b):
        kb = self.known_b
        v = kb.get(b.id)
        if v is not None:
            return v
        k = b.kind
        if k == "c":
            return b.args[0]
        v = kb.get(T.b_not(b).id)
        if v is not None:
            return not v
        if k == "le":
            l = b.args[0]
            d, sg = self._dir(l.t)
            r = self.iv.get(d)
            if r is not None:
                lo, hi = r
                if sg > 0:
                    if hi is not None and hi <= -l.k:
                        v = True
                    elif lo is not None and lo > -l.k:
                        v = False
                else:       # -S + k <= 0  <=> S >= k
                    if lo is not None and lo >= l.k:
                        v = True
                    elif hi is not None and hi < l.k:
                        v = False
            if v is None and self.iv:
                lo, hi = self.bounds(l)
                if hi is not None and hi <= 0:
                    v = True
                elif lo is not None and lo > 0:
                    v = False
        elif k == "eq":
            l = b.args[0]
            d, sg = self._dir(l.t)
            r = self.iv.get(d)
            x = -l.k * sg
            if r is not None:
                lo, hi = r
                if lo is not None and lo > x or hi is not None and hi < x:
                    v = False
                elif lo == x and hi == x:
                    v = True
            if v is None and self.iv:
                lo, hi = self.bounds(l)
                if hi is not None and hi < 0 or lo is not None and lo > 0:
                    v = False
        elif k == "and":
            v = True
            for x in b.args:
                y = self.known(x)
                if y is False:
                    v = False
                    break
                if y is None:
                    v = None
        elif k == "or":
            v = False
            for x in b.args:
                y = self.known(x)
                if y is True:
                    v = True
                    break
                if y is None:
                    v = None
        elif k == "not":
            y = self.known(b.args[0])
            v = None if y is None else not y
        if v is not None:
            kb[b.id] = v
        return v

    def may_merge(self, c, a, b):
        lim = self.opts.get("max_ite")
        if lim is None:
            return True
        return c.ites + a.ites() + b.ites() < lim

    # -- decisions
    def branch(self, b):
        v = self.known(b)
        if v is not None:
            return v
        if self.nofork:
            raise NeedFork()
        st = self.stats
        st["branches"] += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d == 0 or d == 1:
                self.flush()        # where the original run forked it had flushed
            if d == 0:
                self._assert(T.b_not(b))
            elif d == 1:
                self._assert(b)
            elif d == 2:
                self._learn(T.b_not(b))
            elif d == 3:
                self._learn(b)
            else:
                raise AssertionError("decision replay diverged")
            return bool(d & 1)
        mt = mf = None
        for m in self.models:
            x = m.truth(b)
            if x is True and mt is None:
                mt = m
            elif x is False and mf is None:
                mf = m
        nb = T.b_not(b)
        if mt is None:
            rt, m = self._check(b)
            if m is not None:
                mt = m
                self.models.append(m)
        else:
            rt = z3.sat
        if mf is None:
            if rt == z3.unsat and mt is None and self.models:
                rf = z3.sat
            else:
                rf, m = self._check(nb)
                if m is not None:
                    mf = m
                    self.models.append(m)
        else:
            rf = z3.sat
        if rt == z3.unsat and rf == z3.unsat:
            raise PathStop("infeasible")
        if rt == z3.unsat:
            self.trace.append(2)
            self._learn(nb)
            return False
        if rf == z3.unsat:
            self.trace.append(3)
            self._learn(b)
            return True
        self.flush()
        st["forks"] += 1
        self._push([0], mf)
        self.trace.append(1)
        self._assert(b)
        if len(self.models) > 4:
            self.models = self.models[-4:]
        return True

    def _push(self, extra, m):
        env = None
        if m is not None and m.z is None:
            env = m.env
        self.pending.append((tuple(self.trace + extra), env))

    def concretize(self, v):
        """fork over the feasible values of an int term."""
        bv = isinstance(v, SymBits)
        if bv:
            e = z3.simplify(v.e)
            if z3.is_bv_value(e):
                return e.as_signed_long()
            key = ("z", e.get_id())

            def eqk(k):
                if v.tab is not None:
                    return node(v == k)
                return T.b_z(e == z3.BitVecVal(k, e.size()))

            def evalm(m):
                return m.z.eval(e, model_completion=True).as_signed_long()
        else:
            l = v.l
            if not l.t:
                return l.k
            p = self.point(l)
            if p is not None:
                return p
            key = l.key()

            def eqk(k):
                return T.b_eq(Lin(l.t, l.k - k))

            def evalm(m):
                return l.ev(m.env, m.memo)
        if key in self.ccache:
            return self.ccache[key][0]
        if self.nofork:
            raise NeedFork()
        self.stats["branches"] += 1
        excl = []
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.flush()
            if d[0] == "v":
                self.trace.append(d)
                self._assert(eqk(d[1]))
                self.ccache[key] = (d[1], v)
                return d[1]
            excl = list(d[1])
        if len(excl) > self.opts.get("max_concretize", 64):
            raise SymbolicLimit("too many values while concretising")
        self.flush()
        cons = [T.b_not(eqk(k)) for k in excl]
        m = None
        for x in self.models:
            if all(x.truth(c) is True for c in cons):
                m = x
                break
        if m is None:
            r, m = self._check(*cons)
            if r == z3.unsat:
                raise PathStop("no more values")
            if r != z3.sat:
                raise SymbolicLimit("unknown while concretising")
        k = evalm(m)
        r2, m2 = self._check(*(cons + [T.b_not(eqk(k))]))
        if r2 != z3.unsat:
            self._push([("x", tuple(excl + [k]))], m2)
            self.stats["forks"] += 1
        self.trace.append(("v", k))
        if m not in self.models:
            self.models.append(m)
        self._assert(eqk(k))
        self.ccache[key] = (k, v)
        return k

    def token(self, v, spec):
        if isinstance(v, SymBits):
            return format(v.__index__(), spec)
        p = v.l.k if not v.l.t else self.point(v.l)
        if p is not None:
            return format(p, spec)
        key = (v.l.key(), spec)
        t = self.token_ids.get(key)
        if t is None:
            t = "\u27e6%d|%s\u27e7" % (len(self.token_ids), spec)
            self.token_ids[key] = t
            self.tokens[t] = v
        return t

    # -- harness API (mirrored by sx/concrete.py)
    def _new_input(self, name, z, default, bnds):
        fresh = name not in self.inputs
        self.inputs[name] = z
        for m in self.models:
            if name not in m.env:
                m.env[name] = default
                m.memo = {}
        for b in bnds:
            self._assert(b)
        return fresh

    def int(self, name, lo=None, hi=None, like=0):
        """like: a value to try first"""
        v = SymInt(T.lin_var(name))
        d = like
        bnds = []
        if lo is not None:
            bnds.append(node(v >= lo))
            if isinstance(lo, int):
                d = max(d, lo)
        if hi is not None:
            bnds.append(node(v <= hi))
            if isinstance(hi, int):
                d = min(d, hi)
        self._new_input(name, z3.Int(name), d, bnds)
        return v

    def bits(self, name, lo, hi):
        w = _width(lo, hi)
        x = z3.BitVec(name, w)
        self.has_bits = True
        self.models = []
        self._new_input(name, x, lo, [T.b_z(z3.And(x >= lo, x <= hi))])
        if hi - lo < 64:
            return SymBits(x, lo, hi, mdd.var(name, x, lo, hi))
        return SymBits(x, lo, hi)

    def real(self, name, lo, hi):
        """an arbitrary real number, as text p/q in replays"""
        from .real import SymReal, q
        x = z3.Real(name)
        self.has_bits = True
        self.models = []
        self._new_input(name, x, 0, [T.b_z(z3.And(x >= q(lo), x <= q(hi)))])
        return SymReal(x)

    def text(self, name, length):
        """an arbitrary text of the given length"""
        from .text import SymStr
        return SymStr([self.int("%s%d" % (name, i), 0, 0x10FFFF, like=65) for i in range(length)])

    def bool(self, name):
        self._new_input(name, z3.Bool(name), False, [])
        return mkbool(T.b_var(name))

    def choice(self, name, options):
        """forks over a finite list of harness alternatives."""
        k = self.int(name, 0, len(options) - 1)
        return options[self.concretize(k)]

    def assume(self, c):
        c = truth(c)
        if c is True:
            return
        if isinstance(c, SymBool):
            v = self.known(c.b)
            if v is True:
                return
            if v is False:
                c = False
        self.flush()
        if c is False:
            raise PathStop("assume")
        self._assert(c.b)
        if self.pos >= len(self.prefix) and not self.models:
            r, m = self._check()
            if r == z3.unsat:
                self.stats["infeasible"] += 1
                raise PathStop("assume")
            if m is not None:
                self.models = [m]

    def all(self, cs):
        """one condition for a long list of them"""
        out = []
        for c in cs:
            c = truth(c)
            if isinstance(c, SymBool):
                out.append(c.b)
            elif not c:
                return False
        return mkbool(T.b_and(out)) if out else True

    def number(self, text):
        """the number a text shows, None if it shows none"""
        if text in self.tokens:
            return self.tokens[text]
        try:
            return int(text.replace(",", ""))
        except ValueError:
            return None

    def solved(self, f):
        """the condition f() as a formula for the solver, not simplified by diagrams"""
        self.raw = True
        try:
            return f()
        finally:
            self.raw = False

    def check(self, c, label, info=None):
        c = truth(c)
        replaying = self.pos < len(self.prefix)
        if not replaying:
            self.stats["checks"] += 1
        b = node(c)
        v = self.known(b)
        if v is True:
            if not replaying:
                self.stats["checks_trivial"] += 1
            return
        # obligations met while replaying a prefix were decided by the path this
        # one was forked from; they are only assumed, at the same place as there
        self.todo.append((b, None if replaying else label))

    def flush(self):
        """decide the outstanding obligations"""
        if not self.todo:
            return
        held, self.todo = self.todo, []
        todo = [(b, label) for b, label in held if label is not None]
        if todo:
            self._decide(todo)
        # later obligations are decided under the assumption that these held
        for b, _ in held:
            self._assert(b)

    def _decide(self, todo):
        self.stats["checks_solver"] += len(todo)
        bad = T.b_or([T.b_not(b) for b, _ in todo])
        r, m = self._check(bad)
        if r != z3.unsat:
            for b, label in todo:
                if r != z3.sat or len(todo) > 1:
                    r1, m1 = self._check(T.b_not(b))
                else:
                    r1, m1 = r, m
                if r1 == z3.sat:
                    self.violations.append(self.witness(m1, label))
                elif r1 == z3.unknown:
                    self.unknown_checks.append(label)

    def witness(self, m, label):
        return {"label": label,
                "inputs": {n: m.env[n] for n in self.inputs if n in m.env}}

    def any_model(self):
        for m in self.models:
            if all(n in m.env for n in self.inputs):
                return m
        r, m = self._check()
        return m

    def cover(self, label):
        self.covers.add(label)

    def log(self, key, value):
        self.logs.append((key, value))

    def eval_value(self, m, v):
        if isinstance(v, SymBool):
            return bool(v.b.ev(m.env, m.memo))
        if isinstance(v, SymBits):
            return m.z.eval(v.e, model_completion=True).as_signed_long()
        if isinstance(v, SymInt):
            return v.l.ev(m.env, m.memo)
        if isinstance(v, (list, tuple)):
            return [self.eval_value(m, x) for x in v]
        if isinstance(v, dict):
            return {str(k): self.eval_value(m, x) for k, x in v.items()}
        if isinstance(v, str):
            return self.expand_tokens(m, v)
        if type(v).__name__ == "SymStr":
            return v.evaluate(lambda x: self.eval_value(m, x))
        if isinstance(v, (bool, int, float)) or v is None:
            return v
        return str(v)

    def expand_tokens(self, m, s):
        for t, v in self.tokens.items():
            if t in s:
                spec = t[1:-1].split("|", 1)[1]
                s = s.replace(t, format(self.eval_value(m, v), spec))
        return s
