"""Texts of symbolic characters (any Unicode code point each)."""
from . import core
from . import term as T
from .core import SymbolicLimit, mkbool, node

_PRE = {}
_EXP = {}
_SETS = {}
CASED = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def _image(case, c):
    for fn in case or ():
        c = getattr(str, fn)(c)
    return c


def _scan(case):
    if case not in _PRE:
        d, e = {}, {}
        for x in range(0x110000):
            y = _image(case, chr(x))
            if y != chr(x):
                d.setdefault(y, []).append(x)
                if len(y) != 1:
                    e[x] = y
        _PRE[case], _EXP[case] = d, e
    return _PRE[case]


def _preimages(case, c):
    """code points x whose image is c, exactly"""
    own = [ord(c)] if len(c) == 1 and _image(case, c) == c else []
    return own + _scan(case).get(c, [])


def _expands(case):
    """code points whose image is longer than one character"""
    if not case:
        return {}
    _scan(case)
    return _EXP[case]


def _ranges(key, pred):
    """code points satisfying pred as intervals"""
    if key not in _SETS:
        out, start = [], None
        for x in range(0x110000):
            if pred(x):
                if start is None:
                    start = x
            elif start is not None:
                out.append((start, x - 1))
                start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        _SETS[key] = out
    return _SETS[key]


def _member(code, ranges):
    bs = [node(core.CTX.all([code >= a, code <= b])) if a != b else node(code == a)
          for a, b in ranges]
    return mkbool(T.b_or(bs)) if bs else False


class SymStr(object):
    """chars: list of (code, case) where case is None or the names of functions; every
    character is the image of one symbolic code point under these functions. Images of
    more than one character are told apart only where it matters"""
    __slots__ = ("chars",)

    def __init__(self, chars):
        self.chars = [c if isinstance(c, tuple) else (c, None) for c in chars]

    def _resolve(self):
        """tell apart the characters whose image is longer than one"""
        out = []
        for code, case in self.chars:
            if not isinstance(code, str):
                e = _expands(case)
                if e and bool(_member(code, [(x, x) for x in sorted(e)])):
                    for x in sorted(e):
                        if bool(code == x):
                            out += [(c, None) for c in e[x]]
                            break
                    continue
            out.append((code, case))
        self.chars = out

    def evaluate(self, ev):
        """the text under an assignment"""
        return "".join([code if isinstance(code, str) else _image(case, chr(ev(code)))
                        for code, case in self.chars])

    def __len__(self):
        self._resolve()
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __getitem__(self, k):
        if k != 0 or len(self.chars) != 1:
            self._resolve()
        if isinstance(k, slice):
            return SymStr(self.chars[k])
        return SymStr([self.chars[k]])

    def __iter__(self):
        self._resolve()
        return iter([SymStr([c]) for c in self.chars])

    def upper(self):
        return self._map("upper")

    def lower(self):
        return self._map("lower")

    def casefold(self):
        return self._map("casefold")

    def swapcase(self):
        return self._map("swapcase")

    def title(self):
        return self._single("title")

    def capitalize(self):
        return self._single("capitalize")

    def _single(self, fn):
        if len(self.chars) != 1:
            raise SymbolicLimit(fn + " of several characters")
        return self._map(fn)

    def _map(self, fn):
        out = []
        for code, case in self.chars:
            if isinstance(code, str):
                out += [(x, None) for x in getattr(code, fn)()]
            elif case and case[-1] == fn:
                out.append((code, case))
            else:
                out.append((code, (case or ()) + (fn,)))
        return SymStr(out)

    def _is(self, fn):
        if len(self.chars) > 1 and fn in ("isupper", "islower", "istitle"):
            raise SymbolicLimit(fn + " of several characters")
        bs = []
        for code, case in self.chars:
            if isinstance(code, str):
                bs.append(getattr(code, fn)())
            else:
                bs.append(_member(code, _ranges((fn, case),
                                                lambda x: getattr(_image(case, chr(x)), fn)())))
        return core.CTX.all(bs) if bs else fn == "isascii"

    def digit(self):
        """the number a single character stands for"""
        if len(self.chars) != 1:
            raise SymbolicLimit("number in a symbolic text")
        code, case = self.chars[0]
        if isinstance(code, str):
            return int(code)
        for v in range(10):
            def stands(x):
                i = _image(case, chr(x))
                return len(i) == 1 and i.isdecimal() and int(i) == v
            if bool(_member(code, _ranges(("digit", v, case), stands))):
                return v
        raise ValueError("invalid literal for int()")

    def startswith(self, o):
        return self[:len(o)] == o

    def endswith(self, o):
        return len(o) == 0 or (len(self) >= len(o) and self[-len(o):] == o)

    def strip(self, *a):
        # leading and trailing blanks of a symbolic text
        cs = list(self.chars)
        while cs and SymStr(cs[:1])._one(a[0] if a else BLANKS):
            cs.pop(0)
        while cs and SymStr(cs[-1:])._one(a[0] if a else BLANKS):
            cs.pop()
        return SymStr(cs)

    def _one(self, options):
        if options is BLANKS:
            return bool(self._is("isspace"))
        r = core.CTX.all([core.sx_not(self == o) for o in options])
        return not r

    def code(self):
        if len(self.chars) != 1 or self.chars[0][1] is not None:
            raise SymbolicLimit("ord of a converted character")
        c = self.chars[0][0]
        return ord(c) if isinstance(c, str) else c

    @staticmethod
    def _eq1(ch, c):
        code, case = ch
        if isinstance(code, str):
            return code == c
        xs = [ord(c)] if case is None else _preimages(case, c)
        bs = [node(code == x) for x in xs]
        return mkbool(T.b_or(bs)) if bs else False

    def __eq__(self, o):
        if isinstance(o, SymStr):
            if len(self.chars) != 1 or len(o.chars) != 1:
                self._resolve()
                o._resolve()
            if len(self.chars) != len(o.chars):
                return False
            cs = []
            for a, b in zip(self.chars, o.chars):
                if isinstance(b[0], str):
                    cs.append(self._eq1(a, b[0]))
                elif isinstance(a[0], str):
                    cs.append(self._eq1(b, a[0]))
                elif a[1] == b[1] is None:
                    cs.append(a[0] == b[0])
                elif a[0] is b[0] and a[1] == b[1]:
                    cs.append(True)
                else:
                    raise SymbolicLimit("comparing converted characters")
            return core.CTX.all(cs)
        if not isinstance(o, str):
            return False
        if len(o) != len(self.chars):
            self._resolve()
        if len(o) != len(self.chars):
            return False
        return core.CTX.all([self._eq1(a, c) for a, c in zip(self.chars, o)])

    def __ne__(self, o):
        return core.sx_not(self == o)

    def concrete(self):
        """fork over letters and digits; anything else stays open"""
        out = []
        for code, case in self.chars:
            got = None
            if isinstance(code, str):
                got = code
            else:
                for c in CASED:
                    if bool(self._eq1((code, case), c)):
                        got = c
                        break
            out.append(got)
        return out

    def __hash__(self):
        cs = self.concrete()
        if None in cs:
            return 0x5EED
        return hash("".join(cs))

    @staticmethod
    def within(x, text):
        """x in text for a concrete text"""
        n = len(x.chars)
        bs = []
        if n == 1:
            code, case = x.chars[0]
            for y, img in (() if isinstance(code, str) else _expands(case).items()):
                if img in text:
                    bs.append(node(code == y))
        else:
            n = len(x)
        for i in range(len(text) - n + 1):
            e = x == text[i:i + n]
            if e is True:
                return True
            if e is not False:
                bs.append(node(e))
        return mkbool(T.b_or(bs)) if bs else n == 0

    def __add__(self, o):
        if isinstance(o, str):
            o = SymStr([(c, None) for c in o])
        return SymStr(self.chars + o.chars) if isinstance(o, SymStr) else NotImplemented

    def __radd__(self, o):
        return SymStr([(c, None) for c in o] + self.chars)

    def isascii(self):
        return self._is("isascii")

    def isalpha(self):
        return self._is("isalpha")

    def isdigit(self):
        return self._is("isdigit")

    def isdecimal(self):
        return self._is("isdecimal")

    def isnumeric(self):
        return self._is("isnumeric")

    def isalnum(self):
        return self._is("isalnum")

    def isspace(self):
        return self._is("isspace")

    def isupper(self):
        return self._is("isupper")

    def islower(self):
        return self._is("islower")

    def isprintable(self):
        return self._is("isprintable")

    def istitle(self):
        return self._is("istitle")

    def isidentifier(self):
        return self._is("isidentifier")

    def __str__(self):
        return "\u27e6text\u27e7"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __index__(self):
        raise TypeError("str")


BLANKS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005" \
    "\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def strcall(o, name, *args):
    """a method of a text called with a symbolic text"""
    if not (isinstance(o, str) and args and isinstance(args[0], SymStr)):
        return getattr(o, name)(*args)
    x = args[0]
    if len(args) > 1:
        raise SymbolicLimit("%s with bounds" % name)
    n = len(x)
    hits = range(len(o) - n + 1)
    if name in ("index", "find", "rindex", "rfind"):
        for i in (hits if name[0] != "r" else reversed(hits)):
            if bool(x == o[i:i + n]):
                return i
        if name.endswith("find"):
            return -1
        raise ValueError("substring not found")
    if name == "count" and n == 1:
        return sum([1 for i in hits if bool(x == o[i])])
    if name == "startswith":
        return n <= len(o) and x == o[:n]
    if name == "endswith":
        return n <= len(o) and x == o[len(o) - n:]
    raise SymbolicLimit("%s of a symbolic text" % name)
