"""Symbolic real numbers (exact, standing for floats) with sine and cosine as
far as their angles can be told apart: an angle and another one that differ by a
multiple of a right angle, up to a millionth, have the sines and cosines of the
turned angle up to a millionth, and likewise for the mirrored angle.  No other property of them is used."""
import math
from fractions import Fraction

import z3

from . import core
from . import term as T
from .core import SymbolicLimit, mkbool

EPS = Fraction(1, 10 ** 6)


def q(v):
    if isinstance(v, SymReal):
        return v.e
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return None
        return z3.RealVal(str(Fraction(v)))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    return None


def _bin(f, swap=False):
    def g(self, o):
        o = q(o)
        if o is None:
            return NotImplemented
        return SymReal(f(o, self.e) if swap else f(self.e, o))
    return g


def _cmp(f):
    def g(self, o):
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return f(0, o)
        o = q(o)
        if o is None:
            return NotImplemented
        return mkbool(T.b_z(z3.simplify(f(self.e, o))))
    return g


def _div(a, b):
    if z3.is_rational_value(b):
        if b.as_fraction() == 0:
            raise ZeroDivisionError("division by zero")
        return a / b
    if bool(mkbool(T.b_z(b == 0))):
        raise ZeroDivisionError("division by zero")
    return a / b


def _mod(a, b):
    if not z3.is_rational_value(b) or b.as_fraction() <= 0:
        raise SymbolicLimit("remainder by a symbolic or negative number")
    return a - b * z3.ToReal(z3.ToInt(a / b))


class SymReal(object):
    __slots__ = ("e",)
    sx_real = True

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _bin(lambda a, b: a + b), _bin(lambda a, b: a + b, True)
    __sub__, __rsub__ = _bin(lambda a, b: a - b), _bin(lambda a, b: a - b, True)
    __mul__, __rmul__ = _bin(lambda a, b: a * b), _bin(lambda a, b: a * b, True)
    __truediv__, __rtruediv__ = _bin(_div), _bin(_div, True)
    __mod__ = _bin(_mod)
    __lt__, __le__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    __gt__, __ge__ = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)
    __eq__, __ne__ = _cmp(lambda a, b: a == b), _cmp(lambda a, b: a != b)
    __hash__ = None

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e < 0, -self.e, self.e))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise SymbolicLimit("a symbolic real where a float is needed")

    def __round__(self, n=None):
        """some number within half a unit of the last place"""
        c = core.CTX
        half = Fraction(1, 2) / 10 ** (n or 0)
        r = fresh(c, "round")
        c.assume(mkbool(T.b_z(z3.And(r.e - self.e <= q(half), self.e - r.e <= q(half)))))
        return r


def fresh(c, name):
    c.nreal = getattr(c, "nreal", 0) + 1
    return SymReal(z3.Real("%s!%d" % (name, c.nreal)))


def trig(a):
    """cosine and sine of a"""
    c = core.CTX
    known = getattr(c, "angles", None)
    if known is None:
        known = c.angles = [(z3.RealVal(0), z3.RealVal(1), z3.RealVal(0))]
    e = q(a)
    co, si = fresh(c, "cos"), fresh(c, "sin")
    facts = [co.e <= 1, co.e >= -1, si.e <= 1, si.e >= -1]
    near = lambda x, y: z3.And(x - y <= q(EPS), y - x <= q(EPS))  # noqa: E731
    for b, cb, sb in known:
        turned = [(cb, sb), (-sb, cb), (-cb, -sb), (sb, -cb)]
        mirrored = [(cb, -sb), (sb, cb), (-cb, sb), (-sb, -cb)]
        for k in range(-14, 15):
            x, y = turned[k % 4]
            d = e - b - q(Fraction(math.pi) * k / 2)
            facts.append(z3.Implies(near(d, z3.RealVal(0)), z3.And(near(co.e, x), near(si.e, y))))
            m = e + b - q(Fraction(math.pi) * k / 2)
            x, y = mirrored[k % 4]
            facts.append(z3.Implies(near(m, z3.RealVal(0)), z3.And(near(co.e, x), near(si.e, y))))
    c.assume(mkbool(T.b_z(z3.And(facts))))
    known.append((e, co.e, si.e))
    return co, si


def cos(a):
    return trig(a)[0] if isinstance(a, SymReal) else math.cos(a)


def sin(a):
    return trig(a)[1] if isinstance(a, SymReal) else math.sin(a)


def tan(a):
    if not isinstance(a, SymReal):
        return math.tan(a)
    co, si = trig(a)
    return si / co


def radians(a):
    return a * (math.pi / 180) if isinstance(a, SymReal) else math.radians(a)


def fmod(a, b):
    if not isinstance(a, SymReal):
        return math.fmod(a, b)
    return a % b if a >= 0 else -((-a) % b)


def floor(a):
    return SymReal(z3.ToReal(z3.ToInt(a.e))) if isinstance(a, SymReal) else math.floor(a)


def modf(a):
    if not isinstance(a, SymReal):
        return math.modf(a)
    if a >= 0:
        w = floor(a)
    else:
        w = -floor(-a)
    return a - w, w
