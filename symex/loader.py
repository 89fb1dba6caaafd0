"""Loads Python source with every call, subscript, membership test, f-string, % and dict
display routed through symex.models, so that built-in operations accept symbolic values.

The source is read from disk on every run; nothing of the code under test is stored here.
"""
from __future__ import annotations

import ast
import builtins
import collections.abc
import importlib
import importlib.util
import os
import sys
import types

from . import engine as E
from . import models as M
from . import values as V

REPO = os.environ.get("SX_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

NATIVE_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


OPAQUE_TEXT = {"itsdangerous"}  # packages whose formatted texts are only exception messages
OPAQUE_RAISE = {"starlette.websockets"}  # modules where !r of a symbolic value in a raise statement is opaque


SETOPS = (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)


class T(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.modname = modname
        self.track = track
        self.scope = []
        self.in_annotation = 0

    # ---- helpers
    def _n(self, name):
        return ast.Name(id="_sx_" + name, ctx=ast.Load())

    def _c(self, name, *args, node):
        return ast.copy_location(ast.Call(func=self._n(name), args=list(args), keywords=[]), node)

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # ---- scopes
    def _func(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        body = self._body(node.body)
        if self.track:
            q = self.modname + ":" + ".".join(self.scope)
            mark = ast.Expr(self._c("fn", ast.Constant(q), node=node.body[0]))
            ast.copy_location(mark, node.body[0])
            k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str) else 0
            body.insert(k, mark)
        node.body = body
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id == "str":
                bases.append(ast.copy_location(self._n("StrBase"), b))
            else:
                bases.append(self.visit(b) if not isinstance(b, ast.Subscript) else b)
        node.bases = bases
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self._body(node.body)
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, (ast.Subscript, ast.Attribute)):
            if isinstance(node.target, ast.Subscript) and node.value is not None:
                return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))
            node.target = self.generic_visit(node.target)
        return node

    def visit_arguments(self, node):
        return node

    def visit_arg(self, node):
        return node

    def visit_TypeAlias(self, node):
        return node

    def visit_Lambda(self, node):
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        node.body = self.visit(node.body)
        return node

    # ---- imports
    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.asname:
                call = self._c("imp", ast.Constant(al.name), ast.Constant(True), node=node)
                name = al.asname
            else:
                call = self._c("imp", ast.Constant(al.name), ast.Constant(False), node=node)
                name = al.name.split(".")[0]
            out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=call), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module == "__future__":
            return node
        if any(a.name == "*" for a in node.names):
            call = self._c("star", ast.Constant(node.module or ""), ast.Constant(node.level), ast.Call(func=ast.Name(id="globals", ctx=ast.Load()), args=[], keywords=[]), node=node)
            return ast.copy_location(ast.Expr(call), node)
        out = []
        for al in node.names:
            call = self._c("from", ast.Constant(node.module or ""), ast.Constant(node.level), ast.Constant(al.name), node=node)
            out.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=al.asname or al.name, ctx=ast.Store())], value=call), node))
        return out

    # ---- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        return ast.copy_location(ast.Call(func=self._n("call"), args=[f] + args, keywords=kws), node)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return self._c("getitem", self.visit(node.value), self._slice(node.slice), node=node)
        return self.generic_visit(node)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            parts = [self.visit(p) if p is not None else ast.Constant(None) for p in (s.lower, s.upper, s.step)]
            return ast.copy_location(ast.Call(func=self._n("slice"), args=parts, keywords=[]), s)
        if isinstance(s, ast.Tuple):
            return ast.copy_location(ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load()), s)
        return self.visit(s)

    def _has_sub(self, t):
        if isinstance(t, ast.Subscript):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self._has_sub(e) for e in t.elts)
        return isinstance(t, ast.Starred) and self._has_sub(t.value)

    def visit_Assign(self, node):
        if not any(self._has_sub(t) for t in node.targets):
            node.value = self.visit(node.value)
            node.targets = [self.visit(t) for t in node.targets]
            return node
        tmp = "_sx_tmp%d_%d" % (node.lineno, node.col_offset)
        out = [ast.copy_location(ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=self.visit(node.value)), node)]
        for t in node.targets:
            out.extend(self._store(t, ast.Name(id=tmp, ctx=ast.Load()), node, tmp))
        return out

    def _store(self, t, val, node, tmp):
        if isinstance(t, ast.Subscript):
            return [ast.copy_location(ast.Expr(self._c("setitem", self.visit(t.value), self._slice(t.slice), val, node=node)), node)]
        if isinstance(t, (ast.Tuple, ast.List)) and self._has_sub(t):
            names = []
            later = []
            for i, e in enumerate(t.elts):
                nm = "%s_%d" % (tmp, i)
                if isinstance(e, ast.Starred):
                    names.append(ast.Starred(ast.Name(id=nm, ctx=ast.Store()), ctx=ast.Store()))
                    e = e.value
                else:
                    names.append(ast.Name(id=nm, ctx=ast.Store()))
                later.append((e, nm))
            out = [ast.copy_location(ast.Assign(targets=[ast.Tuple(elts=names, ctx=ast.Store())], value=val), node)]
            for e, nm in later:
                out.extend(self._store(e, ast.Name(id=nm, ctx=ast.Load()), node, nm))
            return out
        return [ast.copy_location(ast.Assign(targets=[self.visit(t)], value=val), node)]

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            return ast.copy_location(
                ast.Expr(
                    self._c(
                        "augitem",
                        self.visit(node.target.value),
                        self._slice(node.target.slice),
                        ast.Constant(type(node.op).__name__),
                        self.visit(node.value),
                        node=node,
                    )
                ),
                node,
            )
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(
                ast.Assign(
                    targets=[node.target],
                    value=self._c("mod", ast.Name(id=node.target.id, ctx=ast.Load()), self.visit(node.value), node=node),
                ),
                node,
            )
        t = node.target
        if isinstance(node.op, SETOPS) and not self._number(node.value):
            old = None
            if isinstance(t, ast.Name):
                old = ast.Name(id=t.id, ctx=ast.Load())
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                old = ast.Attribute(value=ast.Name(id=t.value.id, ctx=ast.Load()), attr=t.attr, ctx=ast.Load())
            if old is not None:
                new = self._c("ibinop", ast.Constant(type(node.op).__name__), old, self.visit(node.value), node=node)
                node = ast.copy_location(ast.Assign(targets=[t], value=new), node)
                return ast.fix_missing_locations(node)
        node.target = self.visit(node.target)
        node.value = self.visit(node.value)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(self._c("delitem", self.visit(t.value), self._slice(t.slice), node=node)), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self.visit(t)]), node))
        return out

    # ---- match statements: lowered to if/elif over the other forms, then visited
    def visit_Match(self, node):
        tmp = "_sx_m%d_%d" % (node.lineno, node.col_offset)
        self.fresh = 0

        def load(n):
            return ast.Name(id=n, ctx=ast.Load())

        def call(f, *a):
            return ast.Call(func=load(f), args=list(a), keywords=[])

        def both(conds):
            conds = [c for c in conds if c is not None]
            return None if not conds else conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)

        def bind(name, value):
            return call("_sx_true", ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value))

        def sub(value, pat):
            if isinstance(pat, ast.MatchAs) and pat.pattern is None:
                return None if pat.name is None else bind(pat.name, value)
            self.fresh += 1
            n = "%s_%d" % (tmp, self.fresh)
            return both([bind(n, value), cond(n, pat)])

        def cond(s, pat):
            if isinstance(pat, ast.MatchValue):
                return ast.Compare(left=load(s), ops=[ast.Eq()], comparators=[pat.value])
            if isinstance(pat, ast.MatchSingleton):
                return ast.Compare(left=load(s), ops=[ast.Is()], comparators=[ast.Constant(pat.value)])
            if isinstance(pat, ast.MatchAs):
                return both([cond(s, pat.pattern) if pat.pattern is not None else None, bind(pat.name, load(s)) if pat.name else None])
            if isinstance(pat, ast.MatchOr):
                cs = [cond(s, q) for q in pat.patterns]
                return ast.BoolOp(op=ast.Or(), values=[ast.Constant(True) if c is None else c for c in cs])
            if isinstance(pat, ast.MatchSequence):
                star = [i for i, q in enumerate(pat.patterns) if isinstance(q, ast.MatchStar)]
                n = len(pat.patterns) - len(star)
                out = [call("_sx_isseq", load(s)), ast.Compare(left=call("len", load(s)), ops=[ast.GtE() if star else ast.Eq()], comparators=[ast.Constant(n)])]
                for i, q in enumerate(pat.patterns):
                    if isinstance(q, ast.MatchStar):
                        if q.name:
                            hi = i + 1 - len(pat.patterns)
                            sl = ast.Slice(lower=ast.Constant(i), upper=ast.Constant(hi) if hi else None)
                            out.append(bind(q.name, call("list", ast.Subscript(value=load(s), slice=sl, ctx=ast.Load()))))
                        continue
                    k = i if not star or i < star[0] else i - len(pat.patterns)
                    out.append(sub(ast.Subscript(value=load(s), slice=ast.Constant(k), ctx=ast.Load()), q))
                return both(out)
            if isinstance(pat, ast.MatchMapping):
                out = [call("_sx_ismap", load(s))]
                for k, q in zip(pat.keys, pat.patterns):
                    out.append(ast.Compare(left=k, ops=[ast.In()], comparators=[load(s)]))
                    out.append(sub(ast.Subscript(value=load(s), slice=k, ctx=ast.Load()), q))
                if pat.rest:
                    out.append(bind(pat.rest, call("_sx_maprest", load(s), ast.Tuple(elts=list(pat.keys), ctx=ast.Load()))))
                return both(out)
            if isinstance(pat, ast.MatchClass):
                out = [call("isinstance", load(s), pat.cls)]
                if pat.patterns:
                    self.fresh += 1
                    n = "%s_%d" % (tmp, self.fresh)
                    out.append(bind(n, call("_sx_matchargs", load(s), pat.cls, ast.Constant(len(pat.patterns)))))
                    for i, q in enumerate(pat.patterns):
                        out.append(sub(ast.Subscript(value=load(n), slice=ast.Constant(i), ctx=ast.Load()), q))
                for a, q in zip(pat.kwd_attrs, pat.kwd_patterns):
                    out.append(call("hasattr", load(s), ast.Constant(a)))
                    out.append(sub(ast.Attribute(value=load(s), attr=a, ctx=ast.Load()), q))
                return both(out)
            raise NotImplementedError(type(pat))

        tree = []
        for case in reversed(node.cases):
            test = both([cond(tmp, case.pattern), case.guard])
            tree = [ast.If(test=ast.Constant(True) if test is None else test, body=case.body, orelse=tree)]
        stmts = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.subject)] + tree
        for st in stmts:
            ast.copy_location(st, node)
            ast.fix_missing_locations(st)
        return self._body(stmts)

    def visit_Compare(self, node):
        ops = node.ops
        if len(ops) == 1:
            op = ops[0]
            a = self.visit(node.left)
            b = self.visit(node.comparators[0])
            if isinstance(op, ast.In):
                return self._c("in", a, b, node=node)
            if isinstance(op, ast.NotIn):
                return self._c("notin", a, b, node=node)
            if isinstance(op, ast.Eq):
                return self._c("eq", a, b, node=node)
            if isinstance(op, ast.NotEq):
                return self._c("ne", a, b, node=node)
            if isinstance(op, (ast.Is, ast.IsNot)) and not (
                isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None
            ):
                r = self._c("is", a, b, node=node)
                return r if isinstance(op, ast.Is) else ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), node)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and not self._number(node.left) and not self._number(node.comparators[0]):
                return self._c("cmp", ast.Constant(type(op).__name__), a, b, node=node)
            node.left, node.comparators = a, [b]
            return node
        if not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in ops):
            return self.generic_visit(node)
        parts = []
        left = node.left
        for i, (o, c) in enumerate(zip(ops, node.comparators)):
            if i < len(ops) - 1:
                tmp = "_sx_cmp%d_%d_%d" % (node.lineno, node.col_offset, i)
                right = ast.NamedExpr(target=ast.Name(id=tmp, ctx=ast.Store()), value=c)
                nxt = ast.Name(id=tmp, ctx=ast.Load())
            else:
                right, nxt = c, None
            parts.append(self.visit(ast.copy_location(ast.Compare(left=left, ops=[o], comparators=[right]), node)))
            left = nxt
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Mod):
            return self._c("mod", self.visit(node.left), self.visit(node.right), node=node)
        if isinstance(node.op, SETOPS) and not self._number(node.left) and not self._number(node.right):
            return self._c("binop", ast.Constant(type(node.op).__name__), self.visit(node.left), self.visit(node.right), node=node)
        return self.generic_visit(node)

    def _number(self, e):
        """Is e a number, and so neither a set nor a dict?"""
        return (
            isinstance(e, ast.Constant)
            or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "int", "float", "ord", "min", "max")
            or isinstance(e, ast.BinOp) and (self._number(e.left) or self._number(e.right))
            or isinstance(e, ast.UnaryOp)
        )

    raising = False

    def visit_Raise(self, node):
        self.raising = self.modname in OPAQUE_RAISE
        node = self.generic_visit(node)
        self.raising = False
        return node

    def visit_JoinedStr(self, node):
        if self.modname.split(".")[0] in OPAQUE_TEXT:
            return ast.copy_location(ast.Constant("(text)"), node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                conv = -2 if v.conversion == 114 and self.raising else v.conversion
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
        return self._c("fstr", *parts, node=node)

    def visit_Dict(self, node):
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[self.visit(v)], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return self._c("mkdict", ast.Tuple(elts=pairs, ctx=ast.Load()), node=node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self._c("mkset", ast.List(elts=node.elts, ctx=ast.Load()), node=node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        lc = ast.copy_location(
            ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators), node
        )
        return self._c("mkdict", lc, node=node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        lc = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return self._c("mkset", lc, node=node)


def _true(_v):
    return True


def _isseq(v):
    return isinstance(v, (list, tuple)) or (
        isinstance(v, collections.abc.Sequence) and not isinstance(v, (str, bytes, bytearray, V.SymStr, V.SymBytes))
    )


def _ismap(v):
    return isinstance(v, collections.abc.Mapping) or hasattr(v, "keys")


def _maprest(m, keys):
    return M.mkdict([(k, m[k]) for k in m.keys() if k not in keys])


def _matchargs(v, cls, n):
    names = getattr(cls, "__match_args__", None)
    return [getattr(v, a) for a in names[:n]] if names is not None else [v]


def _notin(a, b):
    return V.not_(M.contains(a, b))


# ---------------------------------------------------------------- module table
TABLE: dict[str, object] = {}
INSTRUMENT_PREFIXES: dict[str, str] = {}  # logical package/module -> root directory holding it
SHIMS: dict[str, object] = {}
POST: dict[str, object] = {}  # logical module name -> callable(module) after load
FUNCTIONS: set[str] = set()
LOADED_SOURCES: dict[str, str] = {}


def _fn(q):
    E.CUR.functions.add(q) if E.CUR is not None else None


def _rooted(name):
    for p, root in INSTRUMENT_PREFIXES.items():
        if name == p or name.startswith(p + "."):
            return root
    return None


def _find(name):
    """Source file of a logical module under an instrumented root, or None."""
    root = _rooted(name)
    if root is None:
        return None, False
    rel = name.replace(".", "/")
    f = os.path.join(root, rel + ".py")
    if os.path.isfile(f):
        return f, False
    f = os.path.join(root, rel, "__init__.py")
    if os.path.isfile(f):
        return f, True
    return None, False


def load(name):
    m = TABLE.get(name)
    if m is not None:
        return m
    if name in SHIMS:
        TABLE[name] = SHIMS[name]
        return SHIMS[name]
    if _rooted(name) is None:
        return importlib.import_module(name)
    if "." in name:
        load(name.rpartition(".")[0])
        if name in TABLE:
            return TABLE[name]
    f, pkg = _find(name)
    if f is None:
        if _rooted(name) is not None:
            try:
                return importlib.import_module(name)
            except ImportError:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
    with open(f, encoding="utf-8") as fh:
        src = fh.read()
    LOADED_SOURCES[name] = f
    mod = types.ModuleType("sx." + name)
    mod.__file__ = f
    mod._sx_logical = name
    mod.__package__ = "sx." + (name if pkg else name.rpartition(".")[0])
    if pkg:
        mod.__path__ = []
    TABLE[name] = mod
    sys.modules["sx." + name] = mod
    code = compile_source(src, f, name, track=name.split(".")[0] == "starlette")
    inject(mod.__dict__, name, pkg)
    try:
        exec(code, mod.__dict__)
    except BaseException:
        TABLE.pop(name, None)
        sys.modules.pop("sx." + name, None)
        raise
    if "." in name:
        parent = TABLE.get(name.rpartition(".")[0])
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], mod)
    if name in POST:
        POST[name](mod)
    return mod


def compile_source(src, filename, name, track):
    tree = ast.parse(src, filename)
    tree = T(name, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


def _resolve(modname, level, logical, pkg):
    if level == 0:
        return modname
    base = logical if pkg else logical.rpartition(".")[0]
    for _ in range(level - 1):
        base = base.rpartition(".")[0]
    return base + ("." + modname if modname else "")


def inject(ns, logical, pkg):
    def imp(name, whole):
        m = load(name)
        if whole:
            return m
        top = name.split(".")[0]
        return load(top) if "." in name else m

    def from_(modname, level, attr):
        full = _resolve(modname, level, logical, pkg)
        m = load(full)
        try:
            return getattr(m, attr)
        except AttributeError:
            pass
        try:
            return load(full + "." + attr)
        except ModuleNotFoundError:
            raise ImportError("cannot import name %r from %r" % (attr, full)) from None

    def star(modname, level, g):
        m = load(_resolve(modname, level, logical, pkg))
        names = getattr(m, "__all__", None) or [n for n in dir(m) if not n.startswith("_")]
        for n in names:
            g[n] = getattr(m, n)

    ns.update(
        _sx_call=M.call,
        _sx_getitem=M.getitem,
        _sx_setitem=M.setitem,
        _sx_delitem=M.delitem,
        _sx_augitem=M.augitem,
        _sx_in=M.contains,
        _sx_notin=_notin,
        _sx_eq=M.eq,
        _sx_ne=M.ne,
        _sx_is=M.is_,
        _sx_mod=M.mod,
        _sx_fstr=M.fstr,
        _sx_mkdict=M.mkdict,
        _sx_mkset=M.new_set,
        _sx_cmp=M.cmp,
        _sx_binop=M.binop,
        _sx_ibinop=M.ibinop,
        _sx_slice=builtins.slice,
        _sx_StrBase=V.StrBase,
        _sx_fn=_fn,
        _sx_true=_true,
        _sx_isseq=_isseq,
        _sx_ismap=_ismap,
        _sx_maprest=_maprest,
        _sx_matchargs=_matchargs,
        _sx_imp=imp,
        _sx_from=from_,
        _sx_star=star,
    )
