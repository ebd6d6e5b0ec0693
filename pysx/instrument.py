"""AST instrumentation of the code under test, applied at import from /repo's current source."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
from . import rt

_NOCALL = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "breakpoint", "__import__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, args, keywords=()):
    return ast.Call(func=_name(n), args=list(args), keywords=list(keywords))


def _pure_bool(n, test=False):
    """A condition built from comparisons only, without calls (no side effects, always a bool).

    In test position only the truth value matters, so plain names, attributes and negations count too."""
    if isinstance(n, ast.BoolOp):
        return all(_pure_bool(v, test) for v in n.values)
    if test:
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return _pure_bool(n.operand, True)
        while isinstance(n, ast.Attribute):
            n = n.value
        if isinstance(n, (ast.Name, ast.Constant)):
            return True
    if isinstance(n, ast.Compare):
        return len(n.ops) == 1 and not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom,
                                                         ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                                         ast.GeneratorExp)) for x in ast.walk(n))
    return False


def _interesting(n):
    """Comparisons that can involve text or numbers (not 'is' tests)."""
    return any(isinstance(x, ast.Compare) and not isinstance(x.ops[0], (ast.Is, ast.IsNot)) for x in ast.walk(n))


class Rewriter(ast.NodeTransformer):
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in _NOCALL:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        return ast.copy_location(_call("__sx_call__", [node.func] + node.args, node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("__sx_mod__", [node.left, node.right]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call("__sx_mod__", [_name(node.target.id), node.value])), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = "__sx_in__" if isinstance(node.ops[0], ast.In) else "__sx_notin__"
            return ast.copy_location(_call(fn, [node.left, node.comparators[0]]), node)
        return node

    fdepth = 0

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.fdepth += 1
        node.body = [self.visit(x) for x in node.body]
        self.fdepth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.fdepth = self.fdepth, 0
        self.generic_visit(node)
        self.fdepth = d
        return node

    def _test(self, node):
        if isinstance(node, ast.BoolOp):
            return self.visit_BoolOp(node, True)
        return self.visit(node)

    def visit_If(self, node):
        node.test = self._test(node.test)
        node.body = [self.visit(x) for x in node.body]
        node.orelse = [self.visit(x) for x in node.orelse]
        return node

    visit_While = visit_If

    def visit_IfExp(self, node):
        node.test = self._test(node.test)
        node.body = self.visit(node.body)
        node.orelse = self.visit(node.orelse)
        return node

    def visit_BoolOp(self, node, test=False):
        # comparisons without calls: one decision for the whole condition
        pure = self.fdepth and all(_pure_bool(v, test) for v in node.values)
        if pure and any(_interesting(v) for v in node.values):
            vals = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=self._lazy(v, test)) for v in node.values]
            return ast.copy_location(_call("__sx_or__" if isinstance(node.op, ast.Or) else "__sx_and__", vals), node)
        self.generic_visit(node)
        return node

    def _lazy(self, v, test):
        if isinstance(v, ast.BoolOp):
            return self.visit_BoolOp(v, test)
        if isinstance(v, ast.Compare) and len(v.ops) == 1 and isinstance(v.ops[0], (ast.In, ast.NotIn)):
            self.generic_visit(v)
            fn = "__sx_inl__" if isinstance(v.ops[0], ast.In) else "__sx_notinl__"
            return ast.copy_location(_call(fn, [v.left, v.comparators[0]]), v)
        return self.visit(v)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant)):
            if isinstance(node.slice, ast.Tuple):
                return node
            if isinstance(node.slice, ast.UnaryOp) and isinstance(node.slice.operand, ast.Constant):
                return node
            return ast.copy_location(_call("__sx_getitem__", [node.value, node.slice]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, (ast.Slice, ast.Constant, ast.Tuple)):
                return ast.copy_location(ast.Expr(_call("__sx_setitem__", [t.value, t.slice, node.value])), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, (ast.Slice, ast.Constant, ast.Tuple)):
                return ast.copy_location(ast.Expr(_call("__sx_delitem__", [t.value, t.slice])), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant("")
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                parts.append(ast.Tuple(elts=[val, conv, spec], ctx=ast.Load()))
        return ast.copy_location(_call("__sx_fstr__", parts), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("__sx_set__", [ast.List(elts=node.elts, ctx=ast.Load())]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("__sx_set__", [ast.ListComp(elt=node.elt, generators=node.generators)]), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None
        if isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            broad = True
        if isinstance(node.type, ast.Tuple) and any(isinstance(e, ast.Name) and e.id == "BaseException"
                                                    for e in node.type.elts):
            broad = True
        if broad:
            node.body.insert(0, ast.Expr(_call("__sx_guard__", [])))
        return node

    # annotations and decorators stay as they are
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_match_case(self, node):
        node.body = [self.visit(x) for x in node.body]
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        return node


def instrument_source(data, path):
    tree = ast.parse(data, path)
    # docstrings and __future__ imports keep their position: nodes are rewritten in place
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


INSTRUMENTED = {}                    # module file -> number of functions


class SxLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            data = f.read()
        INSTRUMENTED[path] = INSTRUMENTED.get(path, 0) + 1
        return instrument_source(data, path)

    def exec_module(self, module):
        module.__dict__.update(rt.HOOKS)
        vfs = sys.modules.get("pysx.vfs")
        cur = vfs and vfs.CUR
        if vfs:
            vfs.CUR = None              # modules are loaded from the real file system
        try:
            importlib.machinery.SourceFileLoader.exec_module(self, module)
        finally:
            if vfs:
                vfs.CUR = cur


def _hook(roots):
    roots = [os.path.realpath(r) for r in roots]

    def path_hook(path):
        p = os.path.realpath(path)
        for r in roots:
            if p == r or p.startswith(r + os.sep):
                return importlib.machinery.FileFinder(path, (SxLoader, [".py"]))
        raise ImportError(path)
    return path_hook


def clone_stdlib(name, replace=True, patch=None):
    """Load an instrumented copy of a pure-Python stdlib module."""
    origin = importlib.import_module(name).__file__
    with open(origin, "rb") as f:
        data = f.read()
    m = types.ModuleType(name)
    m.__file__ = origin
    m.__dict__.update(rt.HOOKS)
    m.__package__ = ""
    if patch:
        data = patch(data.decode()).encode()
    code = instrument_source(data, origin)
    exec(code, m.__dict__)
    if replace:
        sys.modules[name] = m
    return m


def install(roots):
    """Install the import hook for every source file below the given roots."""
    sys.dont_write_bytecode = True
    sys.path_hooks.insert(0, _hook(roots))
    sys.path_importer_cache.clear()
    clone_stdlib("shlex")
    clone_stdlib("argparse")
    clone_stdlib("getopt")
    # posixpath: pure-Python code paths, used when an argument is symbolic
    import posixpath
    clone = clone_stdlib("posixpath", replace=False,
                         patch=lambda s: s.replace("from posix import _path_normpath", "raise ImportError")
                         .replace("from posix import _path_normpath as normpath", "raise ImportError"))

    def wrap(orig, new):
        def f(*a, **k):
            if rt.any_sym(a, k):
                return new(*a, **k)
            return orig(*a, **k)
        return f
    for n in ("normpath", "join", "dirname", "basename", "split", "isabs", "splitext", "commonprefix",
              "normcase", "abspath"):
        if hasattr(clone, n) and n != "splitext":
            o = getattr(posixpath, n)
            (rt.FUNC_OVERRIDES if isinstance(o, types.FunctionType) else rt.BUILTIN_OVERRIDES)[o] = \
                wrap(o, getattr(clone, n))
            rt.FUNC_OVERRIDES[o] = wrap(o, getattr(clone, n))
    from . import vfs
    vfs.install()
    import textwrap

    def tw(orig):
        def f(s, *a, **k):
            if rt.is_sym(s):
                raise rt.PathAbort("textwrap")
            return orig(s, *a, **k)
        return f
    rt.FUNC_OVERRIDES[textwrap.dedent] = tw(textwrap.dedent)
