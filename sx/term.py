"""Terms: linear integer forms over atoms, and boolean nodes over comparisons.

Kept outside z3 so that building, normalising and comparing them is cheap;
`z3()` translates on demand.  Nodes are hash-consed in the current table, which
is replaced for every path.
"""
from math import gcd

import z3

# 6: the default arithmetic core;  2: faster on these small ite-heavy problems
z3.set_param("smt.arith.solver", 2)


class Table(object):
    __slots__ = ("atoms", "bools", "n")

    def __init__(self):
        self.atoms = {}
        self.bools = {}
        self.n = 0


TAB = Table()


def new_table(limit=400000):
    """called at the start of a path; nodes (and their z3 translation) are kept
    across paths until the table grows too large.  True when it was replaced."""
    global TAB
    if TAB.n and TAB.n < limit:
        return False
    TAB = Table()
    b = TAB.bools
    for t in (TRUE, FALSE):
        b[t.key] = t
    return True


# ------------------------------------------------------------------ integers
class Atom(object):
    """opaque integer: 'v' name | 'ite' c a b | 'mul' a b | 'div' a k"""
    __slots__ = ("id", "kind", "args", "ites", "_z")

    def z3(self):
        z = self._z
        if z is None:
            k, a = self.kind, self.args
            if k == "v":
                z = z3.Int(a[0])
            elif k == "ite":
                z = z3.If(a[0].z3(), a[1].z3(), a[2].z3())
            elif k == "mul":
                z = a[0].z3() * a[1].z3()
            elif k == "div":
                z = a[0].z3() / z3.IntVal(a[1])
            elif k == "zdiv":
                z = a[0].z3() / a[1].z3()
            elif k == "zmod":
                z = a[0].z3() % a[1].z3()
            else:
                raise AssertionError(k)
            self._z = z
        return z

    def ev(self, env, memo):
        v = memo.get(self.id)
        if v is None:
            k, a = self.kind, self.args
            if k == "v":
                v = env.get(a[0], 0)
            elif k == "ite":
                v = a[1].ev(env, memo) if a[0].ev(env, memo) else a[2].ev(env, memo)
            elif k == "mul":
                v = a[0].ev(env, memo) * a[1].ev(env, memo)
            elif k == "div":
                v = a[0].ev(env, memo) // a[1]
            else:
                x, y = a[0].ev(env, memo), a[1].ev(env, memo)
                if y <= 0:
                    raise ValueError("undefined division in a model")
                v = x // y if k == "zdiv" else x % y
            memo[self.id] = v
        return v


def atom(kind, args, key, ites):
    t = TAB
    a = t.atoms.get(key)
    if a is None:
        a = Atom()
        t.n += 1
        a.id, a.kind, a.args, a.ites, a._z = t.n, kind, args, ites, None
        t.atoms[key] = a
    return a


class Lin(object):
    """k + sum(coef * atom); terms sorted by atom id"""
    __slots__ = ("t", "k")

    def __init__(self, t, k):
        self.t = t
        self.k = k

    def key(self):
        return (self.k,) + tuple((a.id, c) for a, c in self.t)

    def ites(self):
        n = 0
        for a, _ in self.t:
            n += a.ites
        return n

    def same(self, o):
        return self.k == o.k and self.t == o.t

    def z3(self):
        if not self.t:
            return z3.IntVal(self.k)
        ts = [a.z3() if c == 1 else a.z3() * c for a, c in self.t]
        if self.k:
            ts.append(z3.IntVal(self.k))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def ev(self, env, memo):
        v = self.k
        for a, c in self.t:
            v += c * a.ev(env, memo)
        return v


def lin_const(k):
    return Lin((), k)


def lin_var(name):
    return Lin(((atom("v", (name,), ("v", name), 0), 1),), 0)


def _addt(x, y, f):
    """terms x + f*y"""
    if not y:
        return x
    if not x and f == 1:
        return y
    out = []
    i = j = 0
    nx, ny = len(x), len(y)
    while i < nx and j < ny:
        a, c = x[i]
        b, d = y[j]
        if a is b:
            s = c + f * d
            if s:
                out.append((a, s))
            i += 1
            j += 1
        elif a.id < b.id:
            out.append((a, c))
            i += 1
        else:
            out.append((b, f * d))
            j += 1
    while i < nx:
        out.append(x[i])
        i += 1
    while j < ny:
        b, d = y[j]
        out.append((b, f * d))
        j += 1
    return tuple(out)


def lin_add(x, y):
    return Lin(_addt(x.t, y.t, 1), x.k + y.k)


def lin_sub(x, y):
    return Lin(_addt(x.t, y.t, -1), x.k - y.k)


def lin_scale(x, f):
    if f == 1:
        return x
    if f == 0:
        return Lin((), 0)
    return Lin(tuple((a, c * f) for a, c in x.t), x.k * f)


def lin_ite(c, a, b):
    """c: Bool node (not constant), a, b: Lin, not identical"""
    # common part outside: keeps terms small
    if a.t == b.t:
        base = Lin(a.t, b.k)
        d = Lin((), a.k - b.k)
        z = Lin((), 0)
        at = atom("ite", (c, d, z), ("ite", c.id, d.key(), z.key()), 1 + c.ites)
        return lin_add(base, Lin(((at, 1),), 0)) if base.t or base.k else Lin(((at, 1),), 0)
    at = atom("ite", (c, a, b), ("ite", c.id, a.key(), b.key()), 1 + c.ites + a.ites() + b.ites())
    return Lin(((at, 1),), 0)


def lin_mul(x, y):
    if not x.t:
        return lin_scale(y, x.k)
    if not y.t:
        return lin_scale(x, y.k)
    for u, v in ((x, y), (y, x)):
        if len(u.t) == 1 and u.t[0][0].kind == "ite":
            at, c = u.t[0]
            p, q = at.args[1], at.args[2]
            if not p.t and not q.t:
                p, q = lin_scale(v, c * p.k + u.k), lin_scale(v, c * q.k + u.k)
                if p.same(q):
                    return p
                return lin_ite(at.args[0], p, q)
    kx, ky = x.key(), y.key()
    if kx > ky:
        x, y, kx, ky = y, x, ky, kx
    return Lin(((atom("mul", (x, y), ("mul", kx, ky), x.ites() + y.ites() + 5), 1),), 0)


def lin_div(x, k):
    """floor(x / k), k > 0 constant"""
    if not x.t:
        return Lin((), x.k // k)
    if k == 1:
        return x
    if all(c % k == 0 for _, c in x.t):
        return Lin(tuple((a, c // k) for a, c in x.t), x.k // k)
    return Lin(((atom("div", (x, k), ("div", x.key(), k), x.ites() + 1), 1),), 0)


# ------------------------------------------------------------------ booleans
class Bool(object):
    """'le' lin (lin <= 0) | 'eq' lin (lin == 0) | 'v' name | 'z' z3 expr |
    'and' args | 'or' args | 'not' arg (over eq, v, z) | 'c' value"""
    __slots__ = ("id", "kind", "args", "key", "ites", "_z", "_n")

    def z3(self):
        z = self._z
        if z is None:
            k, a = self.kind, self.args
            if k == "le":
                l = a[0]
                z = Lin(l.t, 0).z3() <= z3.IntVal(-l.k)
            elif k == "eq":
                l = a[0]
                z = Lin(l.t, 0).z3() == z3.IntVal(-l.k)
            elif k == "v":
                z = z3.Bool(a[0])
            elif k == "z":
                z = a[0]
            elif k == "and":
                z = z3.And([x.z3() for x in a])
            elif k == "or":
                z = z3.Or([x.z3() for x in a])
            elif k == "not":
                z = z3.Not(a[0].z3())
            else:
                z = z3.BoolVal(a[0])
            self._z = z
        return z

    def ev(self, env, memo):
        k, a = self.kind, self.args
        if k == "le":
            return a[0].ev(env, memo) <= 0
        if k == "eq":
            return a[0].ev(env, memo) == 0
        if k == "v":
            return bool(env.get(a[0], False))
        if k == "and":
            return all(x.ev(env, memo) for x in a)
        if k == "or":
            return any(x.ev(env, memo) for x in a)
        if k == "not":
            return not a[0].ev(env, memo)
        if k == "z":
            m = env.get("\0model")
            if m is None:
                raise ValueError("no model for a bit-level condition")
            return z3.is_true(m.eval(a[0], model_completion=True))
        return a[0]


def _bool(kind, args, key, ites):
    t = TAB
    b = t.bools.get(key)
    if b is None:
        b = Bool()
        t.n += 1
        b.id, b.kind, b.args, b.key, b.ites, b._z, b._n = t.n, kind, args, key, ites, None, None
        t.bools[key] = b
    return b


TRUE = Bool()
FALSE = Bool()
TRUE.id, TRUE.kind, TRUE.args, TRUE.key, TRUE.ites, TRUE._z, TRUE._n = \
    -1, "c", (True,), ("c", True), 0, None, FALSE
FALSE.id, FALSE.kind, FALSE.args, FALSE.key, FALSE.ites, FALSE._z, FALSE._n = \
    -2, "c", (False,), ("c", False), 0, None, TRUE


def b_const(v):
    return TRUE if v else FALSE


def b_var(name):
    return _bool("v", (name,), ("v", name), 0)


def b_z(e):
    """wraps a z3 Bool (bit-level comparisons)"""
    if z3.is_true(e):
        return TRUE
    if z3.is_false(e):
        return FALSE
    if z3.is_not(e):
        return b_not(b_z(e.arg(0)))
    b = _bool("z", (e,), ("z", e.get_id()), 0)
    return b


def _fold_ite(l, mk):
    """comparison of a single constant-branched ite: resolves to its condition"""
    at, c = l.t[0]
    if at.kind != "ite":
        return None
    p, q = at.args[1], at.args[2]
    if p.t or q.t:
        return None
    x = mk(Lin((), c * p.k + l.k))
    y = mk(Lin((), c * q.k + l.k))
    cond = at.args[0]
    if x is y:
        return x
    return cond if x is TRUE else b_not(cond)


def b_le(l):
    """l <= 0"""
    t = l.t
    if not t:
        return TRUE if l.k <= 0 else FALSE
    if len(t) == 1:
        r = _fold_ite(l, b_le)
        if r is not None:
            return r
        a, c = t[0]
        if c not in (1, -1):
            g = abs(c)
            # c*a + k <= 0  ->  sign*a + ceil(k/g) <= 0
            l = Lin(((a, c // g),), -((-l.k) // g))
    else:
        g = 0
        for _, c in t:
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            l = Lin(tuple((a, c // g) for a, c in t), -((-l.k) // g))
    return _bool("le", (l,), ("le", l.key()), l.ites())


def b_eq(l):
    """l == 0"""
    t = l.t
    if not t:
        return TRUE if l.k == 0 else FALSE
    if len(t) == 1:
        r = _fold_ite(l, b_eq)
        if r is not None:
            return r
    g = 0
    for _, c in t:
        g = gcd(g, c)
    if l.k % g:
        return FALSE
    if t[0][1] < 0:
        g = -g
    if g != 1:
        l = Lin(tuple((a, c // g) for a, c in t), l.k // g)
    return _bool("eq", (l,), ("eq", l.key()), l.ites())


def b_not(b):
    n = b._n
    if n is None:
        k = b.kind
        if k == "le":
            l = b.args[0]
            # not (l <= 0)  <=>  1 - l <= 0
            n = b_le(Lin(tuple((a, -c) for a, c in l.t), 1 - l.k))
        elif k == "not":
            n = b.args[0]
        elif k == "and":
            n = b_or([b_not(x) for x in b.args])
        elif k == "or":
            n = b_and([b_not(x) for x in b.args])
        else:
            n = _bool("not", (b,), ("not", b.id), b.ites)
        b._n = n
        if n._n is None:
            n._n = b
    return n


def _nary(kind, unit, zero, bs):
    out = {}
    for b in bs:
        if b is zero:
            return zero
        if b is unit:
            continue
        if b.kind == kind:
            for x in b.args:
                out[x.id] = x
        else:
            out[b.id] = b
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out.values()))
    for b in out.values():
        if b_not(b).id in out:
            return zero
    ids = tuple(sorted(out))
    n = 0
    for b in out.values():
        n += b.ites
    return _bool(kind, tuple(out[i] for i in ids), (kind, ids), n)


def b_and(bs):
    return _nary("and", TRUE, FALSE, bs)


def b_or(bs):
    return _nary("or", FALSE, TRUE, bs)


def b_ite(c, a, b):
    return b_or([b_and([c, a]), b_and([b_not(c), b])])
