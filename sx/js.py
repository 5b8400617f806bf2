"""Runs the script of the browser page on symbolic messages.

The script is parsed by acorn (through node) into a syntax tree, which is
evaluated here on ordinary Python values and on the symbolic ones of sx.core:
conditions on symbolic values fork the path like those of the Python code.
The page is a tree of elements with the few operations scripts use.  For
replay the same script runs in node itself on the same kind of tree
(NODE_PAGE), so the evaluator is checked against a real engine."""
import json
import subprocess

from .core import SymbolicLimit, is_sym
from .page import Element, JSError, tree

ACORN = "/opt/veriftools/node/node_modules/acorn"
_TREES = {}


class Undefined(object):
    def __bool__(self):
        return False

    def __repr__(self):
        return "undefined"


UNDEF = Undefined()


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def parse(path):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    if src not in _TREES:
        code = ("const a=require(%s);let s='';process.stdin.on('data',d=>s+=d).on('end',()=>"
                "process.stdout.write(JSON.stringify(a.parse(s,{ecmaVersion:'latest'}))))"
                % json.dumps(ACORN))
        r = subprocess.run(["node", "-e", code], input=src.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        if r.returncode:
            raise JSError("the script cannot be read: %s" % r.stderr.decode()[-400:])
        _TREES[src] = json.loads(r.stdout.decode())
    return _TREES[src]


# -- the language

class Scope(object):
    __slots__ = ("names", "outer")

    def __init__(self, outer):
        self.names, self.outer = {}, outer

    def find(self, name):
        s = self
        while s is not None:
            if name in s.names:
                return s
            s = s.outer
        return None


class Function(object):
    def __init__(self, node, scope, run):
        self.node, self.scope, self.run = node, scope, run

    def __call__(self, *args):
        s = Scope(self.scope)
        ps = self.node["params"]
        for i, p in enumerate(ps):
            if p["type"] == "RestElement":
                self.run.bind(p["argument"], list(args[i:]), s)
            else:
                self.run.bind(p, args[i] if i < len(args) else UNDEF, s)
        body = self.node["body"]
        if body["type"] != "BlockStatement":
            return self.run.ev(body, s)
        try:
            self.run.block(body["body"], s)
        except _Return as r:
            return r.value
        return UNDEF


def text_of(v):
    if v is UNDEF:
        return "undefined"
    if v is None:
        return "null"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, str):
        return v
    if isinstance(v, float) and v.is_integer():
        return str(int(v))
    if isinstance(v, (int, float)):
        return str(v)
    if is_sym(v):
        if type(v).__name__ == "SymBool":
            return "true" if v else "false"
        return format(v, "")
    if type(v).__name__ == "SymStr":
        return v
    if isinstance(v, list):
        return ",".join(["" if x is None or x is UNDEF else text_of(x) for x in v])
    return "[object]"


def concat(a, b):
    if a == "" if isinstance(a, str) else False:
        return b
    if b == "" if isinstance(b, str) else False:
        return a
    return a + b


def is_text(v):
    return isinstance(v, str) or type(v).__name__ == "SymStr"


def same(a, b, strict=True):
    if a is b:
        return True
    if a is UNDEF or b is UNDEF or a is None or b is None:
        return not strict and (a is UNDEF or a is None) and (b is UNDEF or b is None)
    if is_text(a) != is_text(b):
        if strict:
            return False
        raise SymbolicLimit("== between text and something else")
    if isinstance(a, (list, dict, Element)) or isinstance(b, (list, dict, Element)):
        return False
    boolish = lambda v: isinstance(v, bool) or type(v).__name__ == "SymBool"  # noqa: E731
    if boolish(a) != boolish(b) and strict:
        return False
    return a == b


def truthy(v):
    if isinstance(v, (list, dict, Element)) or callable(v):
        return True
    if type(v).__name__ == "SymStr":
        return len(v) > 0
    return bool(v)


class Run(object):
    def __init__(self, document, names):
        self.top = Scope(None)
        self.top.names.update(names)
        self.top.names["document"] = document
        self.steps = 0

    def program(self, ast):
        self.block(ast["body"], self.top)

    # statements
    def block(self, body, s):
        for st in body:
            if st["type"] == "FunctionDeclaration":
                s.names[st["id"]["name"]] = Function(st, s, self)
        for st in body:
            self.st(st, s)

    def st(self, n, s):
        self.steps += 1
        if self.steps > 200000:
            raise SymbolicLimit("the script does not end")
        f = getattr(self, "st_" + n["type"], None)
        if f is None:
            raise SymbolicLimit("statement " + n["type"])
        f(n, s)

    def st_FunctionDeclaration(self, n, s):
        pass

    def st_EmptyStatement(self, n, s):
        pass

    def st_ExpressionStatement(self, n, s):
        self.ev(n["expression"], s)

    def st_VariableDeclaration(self, n, s):
        for d in n["declarations"]:
            self.bind(d["id"], self.ev(d["init"], s) if d["init"] else UNDEF, s)

    def st_ReturnStatement(self, n, s):
        raise _Return(self.ev(n["argument"], s) if n["argument"] else UNDEF)

    def st_BreakStatement(self, n, s):
        raise _Break()

    def st_ContinueStatement(self, n, s):
        raise _Continue()

    def st_BlockStatement(self, n, s):
        self.block(n["body"], Scope(s))

    def st_IfStatement(self, n, s):
        if truthy(self.ev(n["test"], s)):
            self.st(n["consequent"], s)
        elif n["alternate"]:
            self.st(n["alternate"], s)

    def st_SwitchStatement(self, n, s):
        v = self.ev(n["discriminant"], s)
        go = False
        inner = Scope(s)
        try:
            for c in n["cases"]:
                if not go and c["test"] is not None and same(v, self.ev(c["test"], inner)):
                    go = True
                if go:
                    for x in c["consequent"]:
                        self.st(x, inner)
            if not go:
                for c in n["cases"]:
                    go = go or c["test"] is None
                    if go:
                        for x in c["consequent"]:
                            self.st(x, inner)
        except _Break:
            pass

    def st_ThrowStatement(self, n, s):
        raise JSError("thrown")

    def body(self, n, s):
        """one round of a loop; False when it ends"""
        try:
            self.st(n, s)
        except _Break:
            return False
        except _Continue:
            pass
        return True

    def st_ForStatement(self, n, s):
        s = Scope(s)
        if n["init"]:
            if n["init"]["type"] == "VariableDeclaration":
                self.st(n["init"], s)
            else:
                self.ev(n["init"], s)
        while n["test"] is None or truthy(self.ev(n["test"], s)):
            if not self.body(n["body"], s):
                break
            t = Scope(s.outer)
            t.names.update(s.names)
            s = t
            if n["update"]:
                self.ev(n["update"], s)

    def st_WhileStatement(self, n, s):
        while truthy(self.ev(n["test"], s)):
            if not self.body(n["body"], s):
                break

    def each(self, n, s, items):
        for x in items:
            t = Scope(s)
            if n["left"]["type"] == "VariableDeclaration":
                self.bind(n["left"]["declarations"][0]["id"], x, t)
            else:
                self.assign(n["left"], x, t)
            if not self.body(n["body"], t):
                break

    def st_ForOfStatement(self, n, s):
        self.each(n, s, self.items(self.ev(n["right"], s)))

    def st_ForInStatement(self, n, s):
        v = self.ev(n["right"], s)
        self.each(n, s, list(v) if isinstance(v, dict) else [str(i) for i in range(len(v))])

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if is_text(v):
            return [v[i] for i in range(len(v))]
        raise JSError("not iterable")

    # bindings
    def bind(self, p, v, s):
        t = p["type"]
        if t == "Identifier":
            s.names[p["name"]] = v
        elif t == "AssignmentPattern":
            self.bind(p["left"], self.ev(p["right"], s) if v is UNDEF else v, s)
        elif t == "ArrayPattern":
            xs = self.items(v)
            for i, q in enumerate(p["elements"]):
                if q is None:
                    continue
                if q["type"] == "RestElement":
                    self.bind(q["argument"], xs[i:], s)
                else:
                    self.bind(q, xs[i] if i < len(xs) else UNDEF, s)
        elif t == "ObjectPattern":
            for q in p["properties"]:
                if q["type"] != "Property":
                    raise SymbolicLimit("rest of an object")
                key = q["key"]["name"] if not q["computed"] and q["key"]["type"] == "Identifier" \
                    else self.ev(q["key"], s)
                self.bind(q["value"], self.get(v, key), s)
        else:
            raise SymbolicLimit("pattern " + t)

    def assign(self, p, v, s):
        if p["type"] == "Identifier":
            o = s.find(p["name"])
            (o or self.top).names[p["name"]] = v
        elif p["type"] == "MemberExpression":
            self.put(self.ev(p["object"], s), self.key(p, s), v)
        elif p["type"] in ("ArrayPattern", "ObjectPattern"):
            self.bind(p, v, s)
        else:
            raise SymbolicLimit("assignment to " + p["type"])

    # expressions
    def ev(self, n, s):
        f = getattr(self, "ev_" + n["type"], None)
        if f is None:
            raise SymbolicLimit("expression " + n["type"])
        return f(n, s)

    def ev_Literal(self, n, s):
        if n.get("regex"):
            raise SymbolicLimit("regular expression")
        return n["value"]

    def ev_Identifier(self, n, s):
        if n["name"] == "undefined":
            return UNDEF
        o = s.find(n["name"])
        if o is None:
            raise JSError("%s is not defined" % n["name"])
        return o.names[n["name"]]

    def ev_TemplateLiteral(self, n, s):
        out = ""
        for i, q in enumerate(n["quasis"]):
            out = concat(out, q["value"]["cooked"])
            if i < len(n["expressions"]):
                out = concat(out, text_of(self.ev(n["expressions"][i], s)))
        return out

    def ev_FunctionExpression(self, n, s):
        f = Function(n, s, self)
        if n.get("id"):
            f.scope = Scope(s)
            f.scope.names[n["id"]["name"]] = f
        return f

    def ev_ArrowFunctionExpression(self, n, s):
        return Function(n, s, self)

    def spread(self, xs, s):
        out = []
        for x in xs:
            if x["type"] == "SpreadElement":
                out += self.items(self.ev(x["argument"], s))
            else:
                out.append(self.ev(x, s))
        return out

    def ev_ArrayExpression(self, n, s):
        return self.spread(n["elements"], s)

    def ev_ObjectExpression(self, n, s):
        o = {}
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                o.update(self.ev(p["argument"], s))
                continue
            k = p["key"]
            key = k["name"] if not p["computed"] and k["type"] == "Identifier" else \
                text_of(self.ev(k, s))
            o[key] = self.ev(p["value"], s)
        return o

    def ev_ConditionalExpression(self, n, s):
        return self.ev(n["consequent"] if truthy(self.ev(n["test"], s)) else n["alternate"], s)

    def ev_LogicalExpression(self, n, s):
        a = self.ev(n["left"], s)
        op = n["operator"]
        if op == "??":
            return self.ev(n["right"], s) if a is None or a is UNDEF else a
        if op == "&&":
            return self.ev(n["right"], s) if truthy(a) else a
        return a if truthy(a) else self.ev(n["right"], s)

    def ev_UnaryExpression(self, n, s):
        op = n["operator"]
        if op == "typeof":
            a = n["argument"]
            v = UNDEF if a["type"] == "Identifier" and s.find(a["name"]) is None else self.ev(a, s)
            if v is UNDEF:
                return "undefined"
            if is_text(v):
                return "string"
            if isinstance(v, bool) or type(v).__name__ == "SymBool":
                return "boolean"
            if isinstance(v, (int, float)) or is_sym(v):
                return "number"
            return "function" if callable(v) else "object"
        v = self.ev(n["argument"], s)
        if op == "!":
            return not truthy(v)
        if op == "-":
            return -v
        if op == "+" and not is_text(v):
            return v
        if op == "void":
            return UNDEF
        raise SymbolicLimit("operator " + op)

    def arith(self, op, a, b):
        if op == "+":
            if is_text(a) or is_text(b):
                return concat(text_of(a), text_of(b))
            return a + b
        if is_text(a) or is_text(b) or a is UNDEF or b is UNDEF:
            raise SymbolicLimit("arithmetic on texts")
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "%":
            if is_sym(a) or is_sym(b) or a < 0 or b <= 0:
                raise SymbolicLimit("remainder")
            return a % b
        raise SymbolicLimit("operator " + op)

    def ev_BinaryExpression(self, n, s):
        op = n["operator"]
        a, b = self.ev(n["left"], s), self.ev(n["right"], s)
        if op in ("==", "==="):
            return same(a, b, op == "===")
        if op in ("!=", "!=="):
            return not truthy(same(a, b, op == "!=="))
        if op in ("<", "<=", ">", ">="):
            if a is UNDEF or b is UNDEF:
                return False
            if is_text(a) or is_text(b):
                raise SymbolicLimit("order of texts")
            return a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else a >= b
        if op == "in":
            return a in b if isinstance(b, dict) else 0 <= int(a) < len(b)
        return self.arith(op, a, b)

    def ev_AssignmentExpression(self, n, s):
        op = n["operator"]
        if op == "=":
            v = self.ev(n["right"], s)
        else:
            a = self.ev(n["left"], s)
            v = self.arith(op[:-1], a, self.ev(n["right"], s))
        self.assign(n["left"], v, s)
        return v

    def ev_UpdateExpression(self, n, s):
        a = self.ev(n["argument"], s)
        b = a + (1 if n["operator"] == "++" else -1)
        self.assign(n["argument"], b, s)
        return b if n["prefix"] else a

    def ev_SequenceExpression(self, n, s):
        for x in n["expressions"]:
            v = self.ev(x, s)
        return v

    def ev_ChainExpression(self, n, s):
        return self.ev(n["expression"], s)

    def ev_ParenthesizedExpression(self, n, s):
        return self.ev(n["expression"], s)

    def key(self, n, s):
        return self.ev(n["property"], s) if n["computed"] else n["property"]["name"]

    def ev_MemberExpression(self, n, s):
        o = self.ev(n["object"], s)
        if n.get("optional") and (o is None or o is UNDEF):
            return UNDEF
        return self.get(o, self.key(n, s))

    def ev_NewExpression(self, n, s):
        raise SymbolicLimit("new")

    def ev_CallExpression(self, n, s):
        c = n["callee"]
        args = self.spread(n["arguments"], s)
        f = self.ev(c, s)
        if n.get("optional") and (f is None or f is UNDEF):
            return UNDEF
        if not callable(f):
            raise JSError("not a function")
        r = f(*args)
        return UNDEF if r is None and not isinstance(f, Function) and not getattr(f, "null", False) \
            else r

    # properties
    def get(self, o, k):
        if o is UNDEF or o is None:
            raise JSError("no property %r of %r" % (k, o))
        if isinstance(o, Element):
            return self.element(o, k)
        if isinstance(o, Lib):
            return o.get(k)
        if isinstance(o, dict):
            if is_sym(k):
                raise SymbolicLimit("symbolic key")
            if not isinstance(k, str):
                k = self.chosen(k, list(o)) if type(k).__name__ == "SymStr" else text_of(k)
            if k in o:
                return o[k]
            if k == "hasOwnProperty":
                return lambda x: text_of(x) in o
            return UNDEF
        if isinstance(o, (list, tuple)):
            return self.array(o, k)
        if is_text(o):
            return self.string(o, k)
        if is_sym(o) or isinstance(o, (int, float)):
            if k == "toString":
                return lambda: text_of(o)
            if k == "toLocaleString":
                return lambda *a: format(o, ",")
        if isinstance(o, Function):
            if k == "call":
                return lambda this=UNDEF, *a: o(*a)
            if k == "apply":
                return lambda this=UNDEF, a=(): o(*a)
        raise SymbolicLimit("property %r" % (k,))

    def chosen(self, k, keys):
        for x in keys:
            if len(x) == len(k) and truthy(k == x):
                return x
        return "\0"

    def index(self, o, k):
        if is_sym(k):
            for i in range(len(o)):
                if truthy(k == i):
                    return i
            return -1
        if isinstance(k, str):
            if not k.isdigit():
                return None
            return int(k)
        return int(k) if isinstance(k, (int, float)) else None

    def array(self, o, k):
        if k == "length":
            return len(o)
        i = self.index(o, k)
        if i is not None:
            return o[i] if 0 <= i < len(o) else UNDEF
        call = lambda f, x, j: f(x, j, o) if not isinstance(f, Function) or True else 0  # noqa: E731
        ms = {
            "forEach": lambda f: [call(f, x, j) for j, x in enumerate(o)] and UNDEF,
            "map": lambda f: [call(f, x, j) for j, x in enumerate(o)],
            "filter": lambda f: [x for j, x in enumerate(o) if truthy(call(f, x, j))],
            "some": lambda f: any([truthy(call(f, x, j)) for j, x in enumerate(o)]),
            "every": lambda f: all([truthy(call(f, x, j)) for j, x in enumerate(o)]),
            "find": lambda f: ([x for j, x in enumerate(o) if truthy(call(f, x, j))] + [UNDEF])[0],
            "slice": lambda a=0, b=None: list(o[a:b]),
            "includes": lambda x: any([truthy(same(x, y)) for y in o]),
            "indexOf": lambda x: ([j for j, y in enumerate(o) if truthy(same(x, y))] + [-1])[0],
            "push": lambda *x: o.extend(x) or len(o),
            "concat": lambda *x: list(o) + [z for y in x for z in (y if isinstance(y, list) else [y])],
            "join": lambda sep=",": sep.join([text_of(x) for x in o]),
            "entries": lambda: [[j, x] for j, x in enumerate(o)],
            "keys": lambda: list(range(len(o))),
            "values": lambda: list(o),
            "item": lambda j: o[j] if 0 <= j < len(o) else None,
            "reverse": lambda: o.reverse() or o,
            "hasOwnProperty": lambda x: str(x).isdigit() and int(x) < len(o),
        }
        if k in ms:
            return ms[k]
        return UNDEF

    def string(self, o, k):
        if k == "length":
            return len(o)
        i = self.index(o, k)
        if i is not None:
            return o[i] if 0 <= i < len(o) else UNDEF
        ms = {"charAt": lambda j=0: o[j] if 0 <= j < len(o) else "",
              "at": lambda j=0: o[j] if -len(o) <= j < len(o) else UNDEF,
              "toString": lambda: o}
        if isinstance(o, str):
            ms.update({
                "split": lambda sep: list(o) if sep == "" else o.split(sep),
                "toUpperCase": o.upper, "toLowerCase": o.lower, "trim": o.strip,
                "startsWith": o.startswith, "endsWith": o.endswith,
                "includes": lambda x: x in o, "indexOf": o.find,
                "concat": lambda *x: "".join([o] + [text_of(y) for y in x])})
        clip = lambda a, b: o[a:len(o) if b is None else b]  # noqa: E731
        ms.update({"slice": lambda a=0, b=None: clip(a, b),
                   "substring": lambda a=0, b=None: clip(a, b),
                   "substr": lambda a=0, b=None: clip(a, None if b is None else a + b)})
        if k in ms:
            return ms[k]
        raise SymbolicLimit("property %r of a text" % (k,))

    def element(self, e, k):
        null = _null
        if k in ("innerHTML", "textContent", "innerText"):
            return e.text
        if k == "id":
            return e.attrs.get("id", "")
        if k == "className":
            return e.attrs.get("class", "")
        if k == "tagName":
            return e.tag
        if k == "children":
            return list(e.kids)
        if k == "firstElementChild":
            return e.kids[0] if e.kids else None
        if k == "lastElementChild":
            return e.kids[-1] if e.kids else None
        if k == "getElementById":
            if e.tag not in ("svg", "#document"):
                raise JSError("getElementById is not a function")
            return null(lambda i: e.by_id(text_of(i)))
        ms = {
            "getElementsByClassName": lambda c: e.by_class(c),
            "getElementsByTagName": lambda t: [x for x in e.all() if x.tag == t],
            "querySelectorAll": lambda q: e.select(q),
            "querySelector": null(lambda q: (e.select(q) + [None])[0]),
            "getAttribute": null(lambda a: e.attrs.get(a)),
            "hasAttribute": lambda a: a in e.attrs,
            "setAttribute": lambda a, v: e.attrs.__setitem__(a, text_of(v)),
            "removeAttribute": lambda a: e.attrs.pop(a, None) and UNDEF,
            "addEventListener": lambda *a: UNDEF,
        }
        if k in ms:
            return ms[k]
        raise SymbolicLimit("property %r of an element" % (k,))

    def put(self, o, k, v):
        if isinstance(o, Element):
            if k in ("innerHTML", "textContent", "innerText"):
                o.set_text("" if v is None else v if is_sym(v) and
                           type(v).__name__ != "SymBool" else text_of(v))
            elif k == "id":
                o.attrs["id"] = text_of(v)
            elif k == "className":
                o.attrs["class"] = text_of(v)
            else:
                raise SymbolicLimit("property %r of an element" % (k,))
        elif isinstance(o, dict):
            o[k if isinstance(k, str) else text_of(k)] = v
        elif isinstance(o, list):
            i = self.index(o, k)
            while len(o) <= i:
                o.append(UNDEF)
            o[i] = v
        elif o is None or o is UNDEF:
            raise JSError("no property %r of %r" % (k, o))
        else:
            raise SymbolicLimit("property %r" % (k,))


def _null(f):
    f.null = True
    return f


class Lib(object):
    """a library object"""

    def __init__(self, **parts):
        self.parts = parts

    def get(self, k):
        if k not in self.parts:
            raise SymbolicLimit("property %r" % (k,))
        return self.parts[k]

    def __call__(self, *a):
        return self.parts["()"](*a)


def library(run):
    return {
        "console": Lib(log=lambda *a: UNDEF, warn=lambda *a: UNDEF, error=lambda *a: UNDEF),
        "Object": Lib(keys=lambda o: list(o) if isinstance(o, dict) else
                      [str(i) for i in range(len(o))],
                      values=lambda o: list(o.values()) if isinstance(o, dict) else list(o),
                      entries=lambda o: [[k, o[k]] for k in o] if isinstance(o, dict) else
                      [[str(i), x] for i, x in enumerate(o)],
                      assign=lambda o, *a: [o.update(x) for x in a] and o,
                      freeze=lambda o: o),
        "Array": Lib(**{"from": lambda o, f=None: [f(x, i) for i, x in enumerate(spread(o))]
                        if f else spread(o), "isArray": lambda o: isinstance(o, list)}),
        "String": Lib(**{"()": lambda v="": text_of(v)}),
        "Number": Lib(**{"()": lambda v=0: v, "isInteger": lambda v: isinstance(v, int)}),
        "Boolean": Lib(**{"()": lambda v=False: truthy(v)}),
        "Math": Lib(min=lambda *a: _pick(a, lambda x, y: x < y),
                    max=lambda *a: _pick(a, lambda x, y: x > y)),
        "window": {},
    }


def spread(o):
    if isinstance(o, dict):
        n = o.get("length", 0)
        return [o.get(str(i), UNDEF) for i in range(n)]
    return [o[i] for i in range(len(o))]


def _pick(xs, lt):
    m = xs[0]
    for x in xs[1:]:
        m = x if lt(x, m) else m
    return m


class Page(object):
    """a loaded page: its script has run and waits for messages"""

    def __init__(self, scripts, data):
        self.root = Element("#document", {}, [tree(data)])
        self.handlers = {}
        sock = Lib(on=self.on, emit=lambda *a: UNDEF, connect=lambda *a: UNDEF)
        sock.parts["off"] = sock.parts["emit"]
        for path in scripts:
            run = Run(self.root, {})
            run.top.names.update(library(run))
            run.top.names["io"] = Lib(**{"()": lambda *a: sock, "connect": lambda *a: sock})
            run.program(parse(path))

    def on(self, name, f):
        self.handlers.setdefault(name, []).append(f)
        return UNDEF

    def message(self, name, m):
        for f in self.handlers.get(name, []):
            f(m)
