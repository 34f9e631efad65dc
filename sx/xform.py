"""Source-to-source instrumentation of age.* (and of the harness) and a private import system.

Every module is re-read from the current /repo source, rewritten so that operations the interpreter
would refuse on symbolic values go through the runtime (`__sx__`), compiled, and executed natively by
CPython.  Modules are executed afresh on every path, so no state leaks between paths.
"""
import ast
import builtins
import functools
import copy
import os
import sys
import types

RAW_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__", "breakpoint"}
PURE_CALLS = {"ord", "len", "chr", "isinstance", "int", "bool", "abs", "min", "max"}


def is_pure(n):
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.Attribute):
        return is_pure(n.value)
    if isinstance(n, ast.Compare):
        return is_pure(n.left) and all(is_pure(c) for c in n.comparators)
    if isinstance(n, ast.BinOp):
        return is_pure(n.left) and is_pure(n.right)
    if isinstance(n, ast.UnaryOp):
        return is_pure(n.operand)
    if isinstance(n, ast.BoolOp):
        return all(is_pure(v) for v in n.values)
    if isinstance(n, ast.IfExp):
        return is_pure(n.test) and is_pure(n.body) and is_pure(n.orelse)
    if isinstance(n, ast.Subscript):
        return is_pure(n.value) and is_pure(n.slice)
    if isinstance(n, ast.Slice):
        return all(x is None or is_pure(x) for x in (n.lower, n.upper, n.step))
    if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load):
        return all(is_pure(e) for e in n.elts)
    if isinstance(n, ast.Call):
        return (isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS and not n.keywords
                and all(is_pure(a) for a in n.args))
    return False


def _name(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def _sx(attr):
    return ast.Attribute(value=_name("__sx__"), attr=attr, ctx=ast.Load())


def _rt(attr, *args):
    return ast.Call(func=_sx(attr), args=list(args), keywords=[])


def _lambda(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[],
                                         kw_defaults=[], kwarg=None, defaults=[]), body=body)


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.tmp = 0
        self.functions = []
        self.lines = {}

    def fresh(self, p):
        self.tmp += 1
        return "__sx_%s%d" % (p, self.tmp)

    # ------------------------------------------------------------------ definitions
    def _function(self, node):
        self.stack.append(node.name)
        qual = self.mod + ":" + ".".join(self.stack)
        self.functions.append(qual)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.generic_visit(node.args)
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            i = 1
        body.insert(i, ast.Expr(_rt("enter", ast.Constant(qual))))
        node.body = body
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        for a in (node.args.vararg, node.args.kwarg):
            if a is not None:
                a.annotation = None
        self.stack.pop()
        return node

    visit_FunctionDef = _function

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [b if isinstance(b, ast.Starred) else _rt("base", self.visit(b)) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        node.decorator_list = node.decorator_list + [_sx("fixclass")]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        # keep class-level annotations (dataclasses); drop the rest
        if self.stack and isinstance(node.target, ast.Name) and node.simple:
            node.value = self.visit(node.value) if node.value is not None else None
            return node
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    # ------------------------------------------------------------------ expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS:
            return self.generic_visit(node)
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        return ast.copy_location(ast.Call(func=_sx("call"), args=[f] + args, keywords=kws), node)

    def visit_Compare(self, node):
        if len(node.ops) > 1 and all(is_pure(c) for c in node.comparators):
            # a < b < c  ->  a < b and b < c
            left, parts = node.left, []
            for op, right in zip(node.ops, node.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), node))
                left = copy.deepcopy(right)
            return self.visit(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node))
        node = self.generic_visit(node)
        if not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            fn = "contains" if isinstance(node.ops[0], ast.In) else "not_contains"
            return ast.copy_location(_rt(fn, node.comparators[0], node.left), node)
        return node

    def visit_BoolOp(self, node):
        tail_pure = all(is_pure(v) for v in node.values[1:])
        node = self.generic_visit(node)
        if not tail_pure:
            return node
        fn = "and_" if isinstance(node.op, ast.And) else "or_"
        return ast.copy_location(_rt(fn, node.values[0], *[_lambda(v) for v in node.values[1:]]), node)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_rt("not_", node.operand), node)
        return node

    def visit_IfExp(self, node):
        pure = is_pure(node.body) and is_pure(node.orelse)
        node = self.generic_visit(node)
        if not pure:
            return node
        return ast.copy_location(_rt("ifexp", node.test, _lambda(node.body), _lambda(node.orelse)), node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_rt("mod", node.left, node.right), node)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_rt("getitem", node.value, self._index(node.slice)), node)
        return node

    def _index(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return ast.Call(func=_sx("slice"), args=[s.lower or n, s.upper or n, s.step or n], keywords=[])
        return s

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(_rt("fstr", *parts), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(_rt("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(_rt("mkset", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_Dict(self, node):
        consts = all(k is not None and isinstance(k, ast.Constant) for k in node.keys)
        node = self.generic_visit(node)
        if consts or any(k is None for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_rt("mkdict", ast.List(elts=pairs, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(_rt("mkdict", ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)), node)

    # ------------------------------------------------------------------ statements
    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            obj = self.visit(t.value)
            ix = self._index(self.visit(t.slice))
            return ast.copy_location(ast.Expr(_rt("setitem", obj, ix, node.value)), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            o, i = self.fresh("o"), self.fresh("i")
            obj = self.visit(node.target.value)
            ix = self._index(self.visit(node.target.slice))
            out = [ast.Assign(targets=[_name(o, ast.Store())], value=obj),
                   ast.Assign(targets=[_name(i, ast.Store())], value=ix)]
            t = self.fresh("v")
            out.append(ast.Assign(targets=[_name(t, ast.Store())], value=_rt("getitem", _name(o), _name(i))))
            out.append(ast.AugAssign(target=_name(t, ast.Store()), op=node.op, value=node.value))
            out.append(ast.Expr(_rt("setitem", _name(o), _name(i), _name(t))))
            return [ast.copy_location(x, node) for x in out]
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[_name(node.target.id, ast.Store())],
                value=_rt("mod", _name(node.target.id), node.value)), node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_rt("delitem", self.visit(t.value), self._index(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[self.visit(t)]))
        return [ast.copy_location(x, node) for x in out]

    def _mergeable(self, body):
        names = []
        for st in body:
            if isinstance(st, ast.Pass):
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) \
                    and is_pure(st.value):
                names.append(st.targets[0].id)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and is_pure(st.value):
                names.append(st.target.id)
            else:
                return None
        return names

    def visit_If(self, node):
        a = self._mergeable(node.body)
        b = self._mergeable(node.orelse)
        ok = bool(self.stack) and a is not None and b is not None and (a or b)
        names = sorted(set((a or []) + (b or []))) if ok else []
        test = self.visit(node.test)
        body = self._stmts(node.body)
        orelse = self._stmts(node.orelse)
        if not ok:
            node.test, node.body, node.orelse = test, body, orelse
            return node
        t, o, x, okv = self.fresh("t"), self.fresh("o"), self.fresh("a"), self.fresh("k")

        def tup(ctx):
            return ast.Tuple(elts=[_name(n, ctx) for n in names], ctx=ctx)

        def cp(sts):
            return [copy.deepcopy(s) for s in sts] or [ast.Pass()]

        store, load = ast.Store(), ast.Load()
        plain = ast.If(test=_name(t), body=cp(body), orelse=[copy.deepcopy(s) for s in orelse])
        spec = [
            ast.Assign(targets=[_name(o, store)], value=ast.Constant(None)),
            ast.Assign(targets=[_name(okv, store)], value=ast.Constant(False)),
            ast.Expr(_rt("spec_begin")),
            ast.Try(
                body=[ast.Assign(targets=[_name(o, store)], value=tup(load))] + cp(body) + [
                    ast.Assign(targets=[_name(x, store)], value=tup(load)),
                    ast.Assign(targets=[tup(store)], value=_name(o))] + cp(orelse) + [
                    ast.Assign(targets=[tup(store)], value=_rt("merge", _name(t), _name(x), tup(load))),
                    ast.Assign(targets=[_name(okv, store)], value=ast.Constant(True))],
                handlers=[ast.ExceptHandler(type=_sx("SpecFail"), name=None, body=[
                    ast.If(test=ast.Compare(left=_name(o), ops=[ast.IsNot()], comparators=[ast.Constant(None)]),
                           body=[ast.Assign(targets=[tup(store)], value=_name(o))], orelse=[])])],
                orelse=[], finalbody=[ast.Expr(_rt("spec_end"))]),
            ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(okv)), body=[plain], orelse=[]),
        ]
        out = [ast.Assign(targets=[_name(t, store)], value=_rt("cond", test)),
               ast.If(test=_rt("symcond", _name(t)), body=spec, orelse=[copy.deepcopy(plain)])]
        return [ast.copy_location(s, node) for s in out]

    def _stmts(self, sts):
        out = []
        for s in sts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out


_CODE = {}


def instrument(path, modname):
    """Compile the instrumented module; cached per (path, mtime)."""
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    got = _CODE.get(path)
    if got is not None and got[0] == key:
        return got[1], got[2]
    with open(path, "r", encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, path)
    x = Xform(modname)
    tree = x.visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, "exec", dont_inherit=True)
    _CODE[path] = (key, code, x.functions)
    return code, x.functions


# ---------------------------------------------------------------------------------------------------
class World:
    """Private module registry for one path."""

    def __init__(self, roots, runtime, native=("age._version",), subst=None):
        self.roots = roots              # {package: directory}
        self.rt = runtime
        self.mods = {}
        self.native = set(native)
        self.subst = subst or {}
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self.imp

    def owns(self, name):
        top = name.partition(".")[0]
        return top in self.roots and name not in self.native

    def find(self, name):
        parts = name.split(".")
        base = self.roots[parts[0]]
        p = os.path.join(base, *parts)
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.mods.get(name)
            if m is not None:
                return m
        if name in self.native:
            import importlib
            m = importlib.import_module(name)
            if hasattr(m, "get_versions") and not hasattr(m.get_versions, "cache_info"):
                m.get_versions = functools.lru_cache(None)(m.get_versions)     # runs git
            self.mods[name] = m
            if parent:
                setattr(self.mods[parent], leaf, m)
            return m
        path, pkg = self.find(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__sx__"] = self.rt
        self.mods[name] = m
        if path is not None:
            try:
                code, _ = instrument(path, name)
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            base = ".".join(parts)
            name = base + ("." + name if name else "")
        if not self.owns(name) and name not in self.native:
            m = builtins.__import__(name, None, None, fromlist, 0)
            if not fromlist or name in self.subst:
                top = name.partition(".")[0] if not fromlist else name
                if top in self.subst:
                    return self.subst[top]
            return m
        m = self.load(name)
        if not fromlist:
            return self.load(name.partition(".")[0])
        for f in fromlist:
            if f == "*":
                continue
            if not hasattr(m, f) and hasattr(m, "__path__"):
                try:
                    self.load(name + "." + f)
                except ModuleNotFoundError:
                    pass
        return m
