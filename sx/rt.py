"""Run-time support called by instrumented code."""
import builtins

import z3

from . import core
from . import term as T
from .text import SymStr, strcall  # noqa: F401
from .coll import _Keyed, SxDict, SxSet, find, symkey
from .core import (FAIL, NeedFork, SymBits, SymBool, SymInt, is_sym, merge, mkbool,
                   mkz, node, sx_not, truth)

UNBOUND = object()


class nofork:
    def __enter__(self):
        core.CTX.nofork += 1

    def __exit__(self, *a):
        core.CTX.nofork -= 1
        return False


class _Unmergeable(Exception):
    pass


SPEC_FAIL = (NeedFork, Exception)


def symbolic(c):
    return isinstance(c, SymBool) and core.CTX is not None


def grab(loc, names):
    return [loc.get(n, UNBOUND) for n in names]


def mergeall(c, a, b):
    out = []
    for x, y in zip(a, b):
        if x is UNBOUND or y is UNBOUND:
            raise _Unmergeable()
        r = merge(c, x, y)
        if r is FAIL:
            raise _Unmergeable()
        out.append(r)
    core.CTX.stats["merges"] += 1
    return out


def not_(v):
    return sx_not(v)


def ifexp(pure, c, a, b):
    c = truth(c)
    if not isinstance(c, SymBool):
        return a() if c else b()
    if pure:
        try:
            with nofork():
                va, vb = a(), b()
            r = merge(c, va, vb)
            if r is not FAIL:
                core.CTX.stats["merges"] += 1
                return r
        except SPEC_FAIL:
            pass
    return a() if c else b()


def _is_bool(v):
    return isinstance(v, (bool, SymBool))


def and_(pure, *fs):
    return _boolop(True, pure, fs)


def or_(pure, *fs):
    return _boolop(False, pure, fs)


def _boolop(is_and, pure, fs):
    """Python's and/or.  On symbolic operands the result is merged when that is
    exact (boolean operands), otherwise the left operand's truth is forked on."""
    v = fs[0]()
    for i in range(1, len(fs)):
        t = truth(v)
        if not isinstance(t, SymBool):
            if t != is_and:
                return v
            v = fs[i]()
            continue
        if pure:
            try:
                with nofork():
                    w = fs[i]()
                tw = truth(w)
                # the value may stay an int-like only if the result is used for its
                # truth; booleans are exact, int-likes are merged as ints
                if _is_bool(v) and _is_bool(w):
                    if is_and:
                        v = mkbool(T.b_and([t.b, node(tw)]))
                    else:
                        v = mkbool(T.b_or([t.b, node(tw)]))
                    continue
                r = merge(t, w, v) if is_and else merge(t, v, w)
                if r is not FAIL:
                    v = r
                    continue
            except SPEC_FAIL:
                pass
        b = bool(t)
        if b != is_and:
            return v
        v = fs[i]()
    return v


def contains(xs, x):
    if isinstance(x, SymStr):
        if isinstance(xs, str):
            return SymStr.within(x, xs)
        return any_eq([y for y in xs if isinstance(y, (str, SymStr))], x)
    if isinstance(xs, (list, tuple)) or (isinstance(xs, (set, frozenset, dict)) and
                                         (is_sym(x) or any(is_sym(y) for y in xs))):
        r = False
        for y in xs:
            e = (y is x) or (y == x)
            if e is NotImplemented:
                e = False
            if not isinstance(e, (bool, SymBool)):
                e = bool(e)
            if e is True:
                return True
            if isinstance(e, SymBool):
                r = e if r is False else mkbool(T.b_or([r.b, e.b]))
        return r
    return x in xs


def any_eq(ys, x):
    r = False
    for y in ys:
        e = x == y
        if e is True:
            return True
        if isinstance(e, SymBool):
            r = e if r is False else mkbool(T.b_or([r.b, e.b]))
    return r


def mkset(xs):
    return SxSet(xs)


def mkdict(pairs):
    return SxDict(pairs)


def getitem(o, k):
    if isinstance(k, SymStr) and isinstance(o, dict):
        for x in o:
            if isinstance(x, str) and k == x:
                return o[x]
        raise KeyError(k)
    if isinstance(k, SymBool):
        k = k.as_int() if not isinstance(o, dict) else k
    if not isinstance(k, SymInt):
        return o[k]
    if isinstance(o, (list, tuple)):
        n = len(o)
        if n == 0:
            raise IndexError("list index out of range")
        bad = or_(True, lambda: k < -n, lambda: k >= n)
        if bad:
            raise IndexError("list index out of range")
        if isinstance(k, SymBits) and n <= 256 and all(
                isinstance(x, (int, SymBits)) and not isinstance(x, bool) for x in o):
            if k.lo < 0:
                k = merge(k < 0, k + n, k)
            if all(type(x) is int for x in o):
                r = SymBits.fold(lambda v: o[v], k)
                if r is not None:
                    return r
            r = SymBits.of(o[n - 1])
            for i in range(n - 2, -1, -1):
                e = k == i
                if isinstance(e, SymBool):
                    r = SymBits.of(merge(e, o[i], r) if isinstance(r, SymBits) and
                                   not (r.lo == r.hi == o[i]) else r)
                elif e:
                    r = SymBits.of(o[i])
            return r if r.tab is not None else SymBits.make(r.e, r.lo, r.hi)
        if n <= 64 and all(isinstance(x, (int, SymBool, SymInt)) for x in o):
            neg = k < 0
            r = o[n - 1]
            for i in range(n - 2, -1, -1):
                c = truth(or_(True, lambda: k == i, lambda: k == i - n))
                r = merge(c, o[i], r)
                if r is FAIL:
                    break
            if r is not FAIL:
                return r
        return o[k.__index__()]
    if isinstance(o, str):
        return o[k.__index__()]
    if isinstance(o, dict):
        return dict_get(o, k)
    return o[k]


def dict_get(d, k):
    keys = [x for x in d if isinstance(x, int)]
    if any(symkey(x) for x in d):
        x = find(d.keys(), k)
        if isinstance(d, _Keyed):
            return d[x]
        for y in d:
            if y is x:
                return d[y]
        raise KeyError(k)
    if isinstance(k, SymBits) and k.tab is not None and all(isinstance(d[x], int) for x in keys):
        c = SymBits.decide(lambda v: v in d, k)
        if c is not None:
            if not c:
                raise KeyError(k)
            r = SymBits.fold(d.get, k)
            if r is not None:
                return r
    if isinstance(k, SymBits) and len(keys) > 8:
        if not k_in_dict(d, k, keys):
            raise KeyError(k)
        return dict_tree(d, k, keys)
    for x in keys:
        if k == x:
            return d[x]
    raise KeyError(k)


def k_in_dict(d, k, keys):
    """membership of a bit-level term in a concrete key set (balanced tree)."""
    ks = sorted(x for x in keys if k.lo <= x <= k.hi)
    if not ks:
        return False
    w = k.e.size()

    def rec(lo, hi):
        if hi - lo <= 4:
            return z3.Or([k.e == z3.BitVecVal(x, w) for x in ks[lo:hi]])
        m = (lo + hi) // 2
        return z3.If(k.e < z3.BitVecVal(ks[m], w), rec(lo, m), rec(m, hi))
    return mkz(rec(0, len(ks)))


def dict_tree(d, k, keys):
    ks = sorted(x for x in keys if k.lo <= x <= k.hi)
    if not all(isinstance(d[x], int) for x in ks):
        for x in ks:
            if k == x:
                return d[x]
        raise KeyError(k)
    lo_v, hi_v = min(d[x] for x in ks), max(d[x] for x in ks)
    vw = core._width(lo_v, hi_v)
    w = k.e.size()

    def rec(lo, hi):
        if hi - lo == 1:
            return z3.BitVecVal(d[ks[lo]], vw)
        m = (lo + hi) // 2
        return z3.If(k.e < z3.BitVecVal(ks[m], w), rec(lo, m), rec(m, hi))
    return SymBits.make(rec(0, len(ks)), lo_v, hi_v)


# ---------------------------------------------------------------- builtins
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SymInt, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int) or c in (SymInt, SymBool, SymBits)

    def __eq__(cls, o):
        return o is cls or o is builtins.int or o in (SymInt, SymBits)

    __hash__ = type.__hash__


class SxInt(int, metaclass=_IntMeta):
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymInt):
            return a[0]
        if a and isinstance(a[0], SymBool):
            return a[0].as_int()
        if len(a) == 1 and isinstance(a[0], SymStr):
            return a[0].digit()
        if a and hasattr(type(a[0]), "__int__") and not isinstance(a[0], (builtins.int, float)):
            v = type(a[0]).__int__(a[0])    # e.g. a card whose __int__ is symbolic
            if is_sym(v):
                return v
        return builtins.int(*a, **k)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is builtins.bool or o is SymBool

    __hash__ = type.__hash__


class SxBool(metaclass=_BoolMeta):
    def __new__(cls, v=False):
        return truth(v)


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.str, SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.str, SymStr))

    def __eq__(cls, o):
        return o is cls or o is builtins.str or o is SymStr

    __hash__ = type.__hash__


class SxStr(str, metaclass=_StrMeta):
    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SymStr):
            return a[0]
        return builtins.str(*a, **k)


def sx_ord(c):
    if isinstance(c, SymStr):
        return c.code()
    return builtins.ord(c)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    __hash__ = type.__hash__


class SxFloat(float, metaclass=_FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, (SymInt, SymBool)) or hasattr(v, "sx_real"):
            return v
        return builtins.float(v)


def _anysym(xs):
    for x in xs:
        if isinstance(x, (SymInt, SymBool)):
            return True
    return False


def _minmax(f, lt):
    def g(*a, **kw):
        if kw.get("key") is None and len(a) == 1:
            a = list(a[0])
            if not a:
                return f(a, **kw)
        elif len(a) == 1:
            a = list(a[0])
            if not a:
                return f(a, **kw)
        key = kw.get("key")
        if key is not None:
            best, bk = a[0], key(a[0])
            for x in a[1:]:
                kx = key(x)
                if (kx < bk) if lt else (kx > bk):
                    best, bk = x, kx
            return best
        if not _anysym(a):
            return f(a)
        r = a[0]
        for x in a[1:]:
            c = truth((x < r) if lt else (x > r))
            if isinstance(c, SymBool):
                m = merge(c, x, r)
                r = m if m is not FAIL else (x if c else r)
            elif c:
                r = x
        return r
    g.__name__ = f.__name__
    return g


def sx_any(xs):
    r = False
    for x in xs:
        t = truth(x)
        if t is True:
            return True
        if isinstance(t, SymBool):
            r = t if r is False else mkbool(T.b_or([r.b, t.b]))
    return r


def sx_all(xs):
    r = True
    for x in xs:
        t = truth(x)
        if t is False:
            return False
        if isinstance(t, SymBool):
            r = t if r is True else mkbool(T.b_and([r.b, t.b]))
    return r


def sx_sum(xs, start=0):
    xs = list(xs)
    if not _anysym(xs) and not is_sym(start):
        return builtins.sum(xs, start)
    r = start
    for x in xs:
        r = r + x
    return r


def sx_abs(x):
    return abs(x)


BUILTINS = {
    "str": SxStr, "ord": sx_ord, "int": SxInt, "bool": SxBool, "float": SxFloat, "set": SxSet, "dict": SxDict,
    "min": _minmax(builtins.min, True), "max": _minmax(builtins.max, False),
    "any": sx_any, "all": sx_all, "sum": sx_sum,
}
