"""Loads the real sources (clubs from /repo, harnesses from /verif) instrumented
for symbolic execution.  The rewriting keeps Python's semantics on concrete
values; on symbolic values it lets simple conditionals merge instead of fork:

  a if c else b      -> ifexp          (merged when both sides are pure)
  a and b / a or b   -> and_/or_       (merged on booleans)
  not a              -> not_
  a[b]               -> getitem        (symbolic index / dict key)
  x in xs            -> contains
  if c: x = e ...    -> assignments of plain local names merged by if-then-else
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import coll, core, rt

TEXT_CALLS = {"index", "find", "rindex", "rfind", "count", "startswith", "endswith"}
PURE_CALLS = {"abs", "min", "max", "len", "round", "int", "bool", "float", "sum", "isinstance",
              "any", "all"}


def is_pure(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS) and not (
                    isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                    and n.func.value.id == "sxrt__"):
                return False
        elif isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
            return False
    return True


def has_scope_expr(node):
    return any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
               for n in ast.walk(node))


def sx(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id="sxrt__", ctx=ast.Load()), attr=name,
                                       ctx=ast.Load()), args=list(args), keywords=[])


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                         defaults=[]), body=body)


class T(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0       # function nesting
        self.n = 0

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        # annotations are left alone
        self.depth += 1
        node.body = self._block(node.body)
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        if self.depth == 0:
            # class body level: only functions are rewritten
            node.body = [self.visit(s) if isinstance(s, (
                ast.FunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign)) else s
                for s in node.body]
            return node
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) \
                and not isinstance(node.slice, ast.Constant):
            return sx("getitem", node.value, node.slice)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.depth and isinstance(f, ast.Attribute) and f.attr in TEXT_CALLS and node.args \
                and not node.keywords and not any(isinstance(a, ast.Starred) for a in node.args):
            return sx("strcall", f.value, ast.Constant(f.attr), *node.args)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Not):
            return sx("not_", node.operand)
        return node

    def visit_BoolOp(self, node):
        if not self.depth or has_scope_expr(node):
            self.generic_visit(node)
            return node
        pures = [is_pure(v) for v in node.values]
        self.generic_visit(node)
        f = "and_" if isinstance(node.op, ast.And) else "or_"
        return sx(f, ast.Constant(all(pures[1:])), *[lam(v) for v in node.values])

    def visit_IfExp(self, node):
        if not self.depth or has_scope_expr(node):
            self.generic_visit(node)
            return node
        pure = is_pure(node.body) and is_pure(node.orelse)
        self.generic_visit(node)
        return sx("ifexp", ast.Constant(pure), node.test, lam(node.body), lam(node.orelse))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return sx("contains", node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                return sx("not_", sx("contains", node.comparators[0], node.left))
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if self.depth:
            return sx("mkset", ast.ListComp(elt=node.elt, generators=node.generators))
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if self.depth:
            return sx("mkset", ast.List(elts=node.elts, ctx=ast.Load()))
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return ast.Call(func=ast.Attribute(value=ast.Name(id="sxrt__", ctx=ast.Load()),
                                               attr="mkdict", ctx=ast.Load()),
                            args=[node], keywords=[])
        return sx("mkdict", ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                           for k, v in zip(node.keys, node.values)],
                                     ctx=ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return sx("mkdict", ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                         generators=node.generators))

    # -- if-merging -------------------------------------------------------
    def _mergeable(self, stmts):
        names = []
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and is_pure(s.value):
                names.append(s.targets[0].id)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and is_pure(s.value):
                names.append(s.target.id)
            elif isinstance(s, ast.If) and is_pure(s.test):
                a, b = self._mergeable(s.body), self._mergeable(s.orelse)
                if a is None or b is None:
                    return None
                names += a + b
            elif isinstance(s, ast.Pass):
                pass
            else:
                return None
        return names

    def visit_If(self, node):
        names = None
        if self.depth:
            a, b = self._mergeable(node.body), self._mergeable(node.orelse)
            if a is not None and b is not None and not has_scope_expr(node):
                names = sorted(set(a + b))
        test = self.visit(node.test)
        body, orelse = self._block(node.body), self._block(node.orelse)
        if not names:
            return ast.If(test=test, body=body, orelse=orelse)
        self.n += 1
        k = self.n
        c, sv, tv, ok = ("sxv_%s%d__" % (p, k) for p in ("c", "s", "t", "ok"))

        def name(i, ctx=ast.Load()):
            return ast.Name(id=i, ctx=ctx)

        def assign(t, v):
            return ast.Assign(targets=[name(t, ast.Store())], value=v)

        def grab(target):
            # (x if bound else UNBOUND) for every assigned name, via locals()
            return assign(target, sx("grab", ast.Call(func=name("locals"), args=[], keywords=[]),
                                     ast.Constant(tuple(names))))

        def put(src):
            out = []
            for i, nm in enumerate(names):
                out.append(assign(nm, ast.Subscript(value=name(src), slice=ast.Constant(i),
                                                    ctx=ast.Load())))
            return out
        import copy as _c
        spec = [
            # both sides speculatively, then merge
            ast.Try(
                body=[ast.With(items=[ast.withitem(context_expr=sx("nofork"))],
                               body=_c.deepcopy(body) or [ast.Pass()]),
                      grab(tv)] + put(sv) +
                     [ast.With(items=[ast.withitem(context_expr=sx("nofork"))],
                               body=_c.deepcopy(orelse) or [ast.Pass()]),
                      assign(tv, sx("mergeall", name(c), name(tv), sx(
                          "grab", ast.Call(func=name("locals"), args=[], keywords=[]),
                          ast.Constant(tuple(names))))),
                      assign(ok, ast.Constant(True))] + put(tv),
                handlers=[ast.ExceptHandler(type=ast.Attribute(
                    value=name("sxrt__"), attr="SPEC_FAIL", ctx=ast.Load()), name=None,
                    body=put(sv))],
                orelse=[], finalbody=[]),
        ]
        new = [assign(c, sx("truth", test)),
               assign(ok, ast.Constant(False)),
               ast.If(test=sx("symbolic", name(c)), body=[grab(sv)] + spec, orelse=[]),
               ast.If(test=ast.UnaryOp(op=ast.Not(), operand=name(ok)),
                      body=[ast.If(test=name(c), body=body or [ast.Pass()], orelse=orelse)],
                      orelse=[])]
        return new


def transform(source, filename):
    tree = ast.parse(source, filename)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots  # top-level package name -> directory containing it
        self.loaded = {}

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        for cand, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(cand):
                spec = importlib.machinery.ModuleSpec(name, self, origin=cand, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.loaded[module.__name__] = path
        code = transform(src, path)
        b = dict(vars(builtins))
        b.update(rt.BUILTINS)
        b["__import__"] = coll.importer
        module.__dict__["__builtins__"] = b
        module.__dict__["sxrt__"] = rt
        exec(code, module.__dict__)


FINDER = None


def install(repo="/repo", verif=None):
    """make `import clubs` load the instrumented sources of the repository."""
    global FINDER
    sys.dont_write_bytecode = True
    verif = verif or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    FINDER = Finder({"clubs": repo, "harness": verif})
    sys.meta_path.insert(0, FINDER)
    if "imp" not in sys.modules:
        imp = types.ModuleType("imp")

        def find_module(name, path=None):
            raise ImportError(name)
        imp.find_module = find_module
        sys.modules["imp"] = imp
    return FINDER
