"""Finite-domain normal form of bit-level terms.

A value that depends on a few inputs with small ranges can be kept as a
multi-valued decision diagram over them: data operations (products, masks, table
look-ups) are then carried out on the leaves, under the conditions already known on
the path, and what reaches the solver is the nested if-then-else of the diagram
instead of, say, a tower of multipliers.  Only terms are simplified this way;
sums, obligations and anything too large stay with the solver."""
import z3


class Overflow(Exception):
    pass


class Node(object):
    __slots__ = ("level", "kids", "value", "id", "bv", "rng")


_unique = {}
_terms = {}
_vars = {}          # name, lo, hi -> level
_levels = []        # level -> (z3 constant, lo)
_count = [0]
LIMIT = 60000
INF = 1 << 60


def _new():
    n = Node()
    n.id = _count[0]
    n.bv = n.rng = None
    _count[0] += 1
    return n


def leaf(v):
    """v: an int, or None where the value does not matter"""
    n = _terms.get(v)
    if n is None:
        n = _new()
        n.level, n.kids, n.value = INF, None, v
        _terms[v] = n
    return n


DC, FALSE, TRUE = leaf(None), leaf(0), leaf(1)


def mk(level, kids):
    first = None
    for k in kids:
        if k is not DC:
            if first is None:
                first = k
            elif k is not first:
                break
    else:
        return first if first is not None else DC
    key = (level, tuple([k.id for k in kids]))
    n = _unique.get(key)
    if n is None:
        n = _new()
        n.level, n.kids, n.value = level, tuple(kids), None
        _unique[key] = n
    return n


def var(name, z, lo, hi):
    key = (name, lo, hi)
    lv = _vars.get(key)
    if lv is None:
        lv = _vars[key] = len(_levels)
        _levels.append((z, lo))
    return mk(lv, [leaf(v) for v in range(lo, hi + 1)])


def clear():
    """forgets everything (between cases)"""
    for d in (_unique, _vars, _terms):
        d.clear()
    del _levels[:]
    for n in (DC, FALSE, TRUE):
        _terms[n.value] = n


def apply(f, args, care):
    """f of the leaves, where care holds"""
    memo = {}
    start = _count[0]

    def rec(args, care):
        if care is FALSE:
            return DC
        lv = INF
        for a in args:
            if a is DC:
                return DC
            if a.level < lv:
                lv = a.level
        if lv == INF:
            v = f(*[a.value for a in args])
            return DC if v is None else leaf(int(v))
        key = tuple([a.id for a in args]) + (care.id,)
        r = memo.get(key)
        if r is not None:
            return r
        if _count[0] - start > LIMIT or len(memo) > 4 * LIMIT:
            raise Overflow()
        if care.level < lv:
            lv = care.level
            n = len(care.kids)
        else:
            for a in args:
                if a.level == lv:
                    n = len(a.kids)
                    break
        cols = [a.kids if a.level == lv else (a,) * n for a in args]
        cares = care.kids if care.level == lv else (care,) * n
        r = mk(lv, [rec([c[i] for c in cols], cares[i]) for i in range(n)])
        memo[key] = r
        return r
    return rec(list(args), care)


def ite(c, a, b, care):
    """a where c holds, b elsewhere; each only followed where it is taken"""
    memo = {}
    start = _count[0]

    def rec(c, a, b, care):
        if care is FALSE or c is DC:
            return DC
        if c is TRUE or c is FALSE:
            v = a if c is TRUE else b
            return v if care is TRUE else apply(lambda x: x, [v], care)
        if a is b and a.level == INF:
            return a
        key = (c.id, a.id, b.id, care.id)
        r = memo.get(key)
        if r is not None:
            return r
        if _count[0] - start > LIMIT or len(memo) > 4 * LIMIT:
            raise Overflow()
        lv = min(c.level, a.level, b.level, care.level)
        for x in (c, a, b, care):
            if x.level == lv:
                n = len(x.kids)
        cs, xs, ys, es = [x.kids if x.level == lv else (x,) * n for x in (c, a, b, care)]
        r = mk(lv, [rec(cs[i], xs[i], ys[i], es[i]) for i in range(n)])
        memo[key] = r
        return r
    return rec(c, a, b, care)


def conj(a, b):
    memo = {}
    start = _count[0]

    def rec(a, b):
        if a is FALSE or b is FALSE or a is DC or b is DC:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE or a is b:
            return a
        key = (a.id, b.id)
        r = memo.get(key)
        if r is not None:
            return r
        if _count[0] - start > LIMIT:
            raise Overflow()
        lv = min(a.level, b.level)
        n = len(a.kids if a.level == lv else b.kids)
        xs = a.kids if a.level == lv else (a,) * n
        ys = b.kids if b.level == lv else (b,) * n
        r = mk(lv, [rec(xs[i], ys[i]) for i in range(n)])
        memo[key] = r
        return r
    return rec(a, b)


def neg(a, care):
    return apply(lambda v: 1 - v, [a], care)


def rng(n):
    """least and greatest leaf"""
    if n.rng is None:
        if n.level == INF:
            n.rng = (n.value, n.value)
        else:
            rs = [rng(k) for k in n.kids if k is not DC]
            n.rng = (min([r[0] for r in rs]), max([r[1] for r in rs]))
    return n.rng


def to_z3(n, sort, const):
    """nested if-then-else; const makes a solver constant of a leaf"""
    def rec(n):
        if n.bv is None:
            n.bv = {}
        r = n.bv.get(sort)
        if r is not None:
            return r
        if n.level == INF:
            r = const(n.value)
        else:
            z, lo = _levels[n.level]
            w = z.size()
            groups = {}
            for i, k in enumerate(n.kids):
                if k is not DC:
                    groups.setdefault(k.id, (k, []))[1].append(i)
            gs = sorted(groups.values(), key=lambda g: -len(g[1]))
            r = rec(gs[0][0])
            for k, idx in gs[1:]:
                cs = [z == z3.BitVecVal(lo + i, w) for i in idx]
                r = z3.If(cs[0] if len(cs) == 1 else z3.Or(cs), rec(k), r)
        n.bv[sort] = r
        return r
    return rec(n)
