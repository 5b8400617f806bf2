"""Dictionaries and sets whose keys may be symbolic.

Python finds keys by their hash, and a symbolic value has no hash that agrees
with the hashes of the values it stands for.  These classes compare a key with
the keys that are there (forking where the answer is open) whenever symbolic
keys are involved, and behave like the originals otherwise."""
import builtins
import collections
import functools

from .core import is_sym
from .text import SymStr


def symkey(k):
    return is_sym(k) or isinstance(k, SymStr) or (type(k) is tuple and any(symkey(x) for x in k))


def find(keys, k):
    """the key among keys that equals k, or k itself"""
    for x in keys:
        if x is k:
            return x
    for x in list(keys):
        if (symkey(x) or symkey(k)) and bool(x == k):
            return x
    return k


class _Like(type):
    """stands in for a builtin class in isinstance and comparisons of types"""

    def __instancecheck__(cls, o):
        base = cls.__dict__.get("sx_base")
        return isinstance(o, base) if base is not None else type.__instancecheck__(cls, o)

    def __subclasscheck__(cls, c):
        base = cls.__dict__.get("sx_base")
        return issubclass(c, base) if base is not None else type.__subclasscheck__(cls, c)

    def __eq__(cls, o):
        return o is cls or (cls.__dict__.get("sx_base") is not None and o is cls.__dict__["sx_base"])

    __hash__ = type.__hash__


MISSING = object()


class _Keyed(object):
    """what dictionaries share"""
    sx_syms = False

    def _key(self, k):
        s = symkey(k)
        if not s and not self.sx_syms:
            return k
        return find(builtins.dict.keys(self), k)

    def __getitem__(self, k):
        return super().__getitem__(self._key(k))

    def __setitem__(self, k, v):
        x = self._key(k)
        if x is k and symkey(k):
            self.sx_syms = True
        super().__setitem__(x, v)

    def __delitem__(self, k):
        super().__delitem__(self._key(k))

    def __contains__(self, k):
        return super().__contains__(self._key(k))

    def get(self, k, default=None):
        if symkey(k) and not self.sx_syms and not isinstance(k, (tuple, SymStr)):
            from .rt import dict_get
            try:
                return dict_get(self, k)
            except KeyError:
                return default
        k = self._key(k)
        return super().__getitem__(k) if super().__contains__(k) else default

    def pop(self, k, *d):
        return super().pop(self._key(k), *d)

    def setdefault(self, k, v=None):
        if k in self:
            return self[k]
        self[k] = v
        return v

    def _fill(self, *a, **kw):
        for src in a:
            if hasattr(src, "keys"):
                for k in list(src.keys()):
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k in kw:
            self[k] = kw[k]

    def __eq__(self, o):
        if not isinstance(o, builtins.dict):
            return NotImplemented
        if not self.sx_syms and not getattr(o, "sx_syms", False):
            return builtins.dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        for k in list(self):
            x = find(o.keys(), k)
            if not builtins.dict.__contains__(o, x):
                return False
            if not bool(builtins.dict.__getitem__(self, k) == builtins.dict.__getitem__(o, x)):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


class SxDict(_Keyed, builtins.dict, metaclass=_Like):
    sx_base = builtins.dict

    def __init__(self, *a, **kw):
        super().__init__()
        self._fill(*a, **kw)

    def update(self, *a, **kw):
        self._fill(*a, **kw)

    def copy(self):
        return SxDict(self)

    @classmethod
    def fromkeys(cls, keys, value=None):
        d = cls()
        for k in keys:
            d[k] = value
        return d

    def __or__(self, o):
        d = SxDict(self)
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __reduce__(self):
        return (builtins.dict, (list(self.items()),))

    def __deepcopy__(self, memo):
        import copy
        return SxDict([(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self.items()])

    def __copy__(self):
        return SxDict(self)


class SxDefaultDict(_Keyed, collections.defaultdict, metaclass=_Like):
    sx_base = collections.defaultdict

    def __init__(self, factory=None, *a, **kw):
        super().__init__(factory)
        self._fill(*a, **kw)

    def update(self, *a, **kw):
        self._fill(*a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v


class SxOrderedDict(_Keyed, collections.OrderedDict, metaclass=_Like):
    sx_base = collections.OrderedDict

    def __init__(self, *a, **kw):
        super().__init__()
        self._fill(*a, **kw)

    def update(self, *a, **kw):
        self._fill(*a, **kw)

    def move_to_end(self, k, last=True):
        super().move_to_end(self._key(k), last)


class SxCounter(_Keyed, collections.Counter, metaclass=_Like):
    sx_base = collections.Counter

    def __missing__(self, k):
        return 0

    def __delitem__(self, k):
        k = self._key(k)
        if builtins.dict.__contains__(self, k):
            builtins.dict.__delitem__(self, k)

    def __eq__(self, o):
        if not isinstance(o, collections.Counter):
            return NotImplemented
        return all(self[k] == o[k] for c in (self, o) for k in c)

    def most_common(self, n=None):
        xs = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return xs if n is None else xs[:n]

    def total(self):
        from .rt import sx_sum
        return sx_sum(self.values())


class SxSet(builtins.set, metaclass=_Like):
    sx_base = builtins.set
    sx_syms = False

    def __init__(self, xs=()):
        super().__init__()
        for x in xs:
            self.add(x)

    def _key(self, k):
        if not self.sx_syms and not symkey(k):
            return k
        return find(self, k)

    def add(self, k):
        x = self._key(k)
        if x is k and symkey(k):
            self.sx_syms = True
        super().add(x)

    def discard(self, k):
        super().discard(self._key(k))

    def remove(self, k):
        super().remove(self._key(k))

    def __contains__(self, k):
        return super().__contains__(self._key(k))

    def update(self, *xs):
        for ys in xs:
            for y in ys:
                self.add(y)

    def copy(self):
        return SxSet(self)
    __copy__ = copy

    def union(self, *xs):
        r = SxSet(self)
        r.update(*xs)
        return r

    def intersection(self, *xs):
        r = self
        for ys in xs:
            ys = SxSet(ys)
            r = SxSet([x for x in r if x in ys])
        return SxSet(r)

    def difference(self, *xs):
        out = SxSet()
        out.update(*xs)
        return SxSet([x for x in self if x not in out])

    def symmetric_difference(self, xs):
        xs = SxSet(xs)
        return self.difference(xs).union(xs.difference(self))

    def issubset(self, xs):
        xs = SxSet(xs)
        return all(x in xs for x in self)

    def issuperset(self, xs):
        return all(x in self for x in xs)

    def isdisjoint(self, xs):
        return not any(x in self for x in xs)

    def difference_update(self, *xs):
        for ys in xs:
            for y in list(ys):
                self.discard(y)

    def intersection_update(self, *xs):
        keep = self.intersection(*xs)
        for x in list(self):
            if x not in keep:
                self.discard(x)

    def symmetric_difference_update(self, xs):
        new = self.symmetric_difference(xs)
        self.clear()
        self.update(new)

    def _other(f):  # noqa: N805
        def g(self, o):
            if not isinstance(o, (builtins.set, frozenset)):
                if not isinstance(o, (type({}.keys()), type({}.items()))):
                    return NotImplemented
            return f(self, o)
        return g

    __or__ = _other(lambda self, o: self.union(o))
    __ror__ = _other(lambda self, o: SxSet(o).union(self))
    __and__ = __rand__ = _other(lambda self, o: self.intersection(o))
    __sub__ = _other(lambda self, o: self.difference(o))
    __rsub__ = _other(lambda self, o: SxSet(o).difference(self))
    __xor__ = __rxor__ = _other(lambda self, o: self.symmetric_difference(o))
    __le__ = _other(lambda self, o: self.issubset(o))
    __ge__ = _other(lambda self, o: self.issuperset(o))
    __lt__ = _other(lambda self, o: len(self) < len(o) and self.issubset(o))
    __gt__ = _other(lambda self, o: len(self) > len(o) and self.issuperset(o))
    __eq__ = _other(lambda self, o: len(self) == len(o) and self.issubset(o))
    __ne__ = _other(lambda self, o: not (len(self) == len(o) and self.issubset(o)))
    __hash__ = None

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(list(o))
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __reduce__(self):
        return (builtins.set, (list(self),))


class Collections(object):
    """the collections module with these classes"""
    Counter = SxCounter
    defaultdict = SxDefaultDict
    OrderedDict = SxOrderedDict

    def __getattr__(self, name):
        return getattr(collections, name)


COLLECTIONS = Collections()


class Cached(object):
    """functools.lru_cache.  A function of plain values alone gives the same result
    again, so calls with symbolic values go to the function; with objects among the
    arguments (a cached method) the arguments are compared with the earlier ones."""

    def __init__(self, f, real):
        functools.update_wrapper(self, f)
        self.f, self.real = f, real

    def __call__(self, *a, **kw):
        args = a + tuple(kw.values())
        if any(symkey(x) for x in args) and not any(hasattr(x, "__dict__") and not symkey(x) for x in args):
            return self.f(*a, **kw)
        return self.real(*a, **kw)

    def __get__(self, o, cls=None):
        return self if o is None else functools.partial(self, o)

    def __getattr__(self, name):
        return getattr(self.real, name)


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize) and not isinstance(maxsize, int):
        return Cached(maxsize, functools.lru_cache(maxsize))

    def deco(f):
        return Cached(f, functools.lru_cache(maxsize, typed)(f))
    return deco


def _cache(f):
    return Cached(f, functools.lru_cache(None)(f))


class Functools(object):
    """the functools module with this cache"""
    lru_cache = staticmethod(_lru_cache)
    cache = staticmethod(_cache)

    def __getattr__(self, name):
        return getattr(functools, name)


FUNCTOOLS = Functools()


def importer(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0 and name == "collections":
        return COLLECTIONS
    if level == 0 and name == "functools":
        return FUNCTOOLS
    return m
