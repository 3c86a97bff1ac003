"""Mechanical refactorings that keep the behaviour, applied to a copy of the repository.
usage: refactor.py TRANSFORM OUTDIR [path-substring [function]]      refactor.py --list
The checks have to stay quiet on every one of them (tools/refall.sh)."""
import ast
import copy
import glob
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("MT_REPO", "/repo")
T = {}


def t(f):
    T[f.__name__] = f
    return f


def funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


FN = None  # only this function


def sel(f):
    return FN is None or f.name == FN


def blocks(node):
    """every list of statements within"""
    for n in ast.walk(node):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, fld, b


def stmts_map(f, fn):
    """replace statements one by one within the function"""

    class X(ast.NodeTransformer):
        def generic_visit(self, n):
            ast.NodeTransformer.generic_visit(self, n)
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    out = []
                    for s in b:
                        r = fn(s, n)
                        out.extend(r if isinstance(r, list) else [r])
                    setattr(n, fld, out)
            return n

    X().visit(f)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def load(i):
    return ast.Name(i, ast.Load())


def store(i):
    return ast.Name(i, ast.Store())


def assign(i, v):
    return ast.Assign([store(i)], v)


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


CNT = [0]


def new(p="_v"):
    CNT[0] += 1
    return "%s%d" % (p, CNT[0])


@t
def nothing(tree):
    pass


@t
def rename(tree):
    """local variables get other names"""
    outer = {id(x) for f in funcs(tree) for x in ast.walk(f) if x is not f and isinstance(x, ast.FunctionDef)}
    for f in funcs(tree):
        if id(f) in outer or not sel(f):
            continue
        ps = set(params(f))
        for x in ast.walk(f):
            if isinstance(x, ast.FunctionDef) and x is not f or isinstance(x, ast.Lambda):
                ps |= set(params(x)) | ({x.name} if isinstance(x, ast.FunctionDef) else set())
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                ps |= set(x.names)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                ps |= {(a.asname or a.name).split(".")[0] for a in x.names}
        loc = names(f, ast.Store) - ps
        loc |= {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name} - ps
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = "my" + x.id + "_"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = "my" + x.name + "_"


@t
def condtemp(tree):
    """conditions are computed into a variable first"""

    def fn(s, n):
        if isinstance(s, ast.If):
            v = new("cond")
            a = assign(v, s.test)
            s.test = load(v)
            return [a, s]
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def invert(tree):
    """if a: B else: C  ->  if not a: C else: B"""
    for f in funcs(tree):
        if sel(f):
            for n in ast.walk(f):
                if isinstance(n, ast.If) and n.orelse:
                    n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                    n.body, n.orelse = n.orelse, n.body


@t
def guard_else(tree):
    """what follows a guard goes to its else branch"""

    def go(b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                s.orelse = go(b[i + 1:])
                return b[: i + 1]
        return b

    for f in funcs(tree):
        if sel(f):
            for n, fld, b in list(blocks(f)):
                setattr(n, fld, go(b))


@t
def guard_flat(tree):
    """what is in the else branch of a guard follows it"""

    def fn(s, n):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            r = s.orelse
            s.orelse = []
            return [s] + r
        return s

    for f in funcs(tree):
        if sel(f):
            for _ in range(4):
                stmts_map(f, fn)


@t
def guard_first(tree):
    """if a: B(long) else: return  ->  if not a: return; B      and    if a: B at the end of a function: if not a: return"""
    for f in funcs(tree):
        if not sel(f):
            continue
        s = f.body[-1]
        if isinstance(s, ast.If) and not s.orelse and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(f)):
            f.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
        for n in ast.walk(f):
            if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
                s = n.body[-1]
                n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body


@t
def enum_loops(tree):
    """for x in y -> for i, x in enumerate(y)"""
    for f in funcs(tree):
        if sel(f):
            for n in ast.walk(f):
                if isinstance(n, ast.For):
                    n.target = ast.Tuple([store(new("idx")), n.target], ast.Store())
                    n.iter = ast.Call(load("enumerate"), [n.iter], [])


@t
def list_loops(tree):
    """the sequence of a loop is put in a list first"""

    def fn(s, n):
        if isinstance(s, ast.For):
            v = new("seq")
            a = assign(v, ast.Call(load("list"), [s.iter], []))
            s.iter = load(v)
            return [a, s]
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


def has(n, *k):
    return any(isinstance(x, k) for x in ast.walk(n))


def methods(tree):
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for i, f in enumerate(list(c.body)):
                if isinstance(f, ast.FunctionDef):
                    yield c, f


def plain(f):
    return not f.decorator_list and not f.name.startswith("__") and not has(f, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)


@t
def delegate(tree):
    """a method does its work in another method"""
    for c, f in list(methods(tree)):
        if not plain(f) or not sel(f) or not f.args.args or f.args.args[0].arg != "self":
            continue
        g = copy.deepcopy(f)
        g.name = "_do_" + f.name.strip("_") + "_" + c.name.lower()
        a = f.args
        # no defaults in the helper
        call = ast.Call(ast.Attribute(load("self"), g.name, ast.Load()), [load(x.arg) for x in a.args[1:]] + ([ast.Starred(load(a.vararg.arg), ast.Load())] if a.vararg else []),
                        [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, load(a.kwarg.arg))] if a.kwarg else []))
        f.body = f.body[:1] * (isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant)) + [ast.Return(call)]
        c.body.insert(c.body.index(f) + 1, g)


@t
def split(tree):
    """the second half of a method is another method"""
    for c, f in list(methods(tree)):
        if not plain(f) or not sel(f) or not f.args.args or f.args.args[0].arg != "self" or has(f, ast.Lambda, ast.FunctionDef) and len([x for x in ast.walk(f) if isinstance(x, ast.FunctionDef)]) > 1:
            continue
        if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
            pass
        n = len(f.body)
        done = False
        for k in sorted(range(1, n), key=lambda k: abs(k - n // 2)):
            tail = f.body[k:]
            if len(tail) == 1 and isinstance(tail[0], ast.Return):
                continue
            if isinstance(f.body[k - 1], ast.Expr) and isinstance(f.body[k - 1].value, ast.Constant) and k == 1:
                continue
            w = ast.Module(tail, [])
            used = names(w, ast.Load)
            head = ast.Module(f.body[:k], [])
            allst = names(head, ast.Store) | {x.name for x in ast.walk(head) if isinstance(x, ast.ExceptHandler) and x.name}
            sure = set(params(f))
            for s in f.body[:k]:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    sure |= names(s, ast.Store)
                if isinstance(s, ast.If) and s.orelse:
                    sure |= set.intersection(*[set().union(*[names(z, ast.Store) for z in b if isinstance(z, ast.Assign)] or [set()])
                                               if not isinstance(b[-1], (ast.Return, ast.Raise)) else set(names(ast.Module(s.body + s.orelse, []), ast.Store)) for b in (s.body, s.orelse)])
            need = used & (allst | set(params(f)))
            if not need <= sure:
                continue
            need = sorted(need - {"self"})
            g = ast.FunctionDef("_rest_of_" + f.name.strip("_") + "_" + c.name.lower(), ast.arguments([], [ast.arg("self")] + [ast.arg(x) for x in need], None, [], [], None, []), tail, [], None)
            g.type_params = []
            f.body[k:] = [ast.Return(ast.Call(ast.Attribute(load("self"), g.name, ast.Load()), [load(x) for x in need], []))]
            c.body.insert(c.body.index(f) + 1, g)
            done = True
            break


@t
def extract(tree):
    """the body of a condition or loop is a function of the module"""
    out = []
    for f in [x for x in tree.body if isinstance(x, ast.FunctionDef)] + [m for _, m in methods(tree)]:
        if not sel(f) or has(f, ast.Yield, ast.Lambda, ast.Global) or len([x for x in ast.walk(f) if isinstance(x, ast.FunctionDef)]) > 1:
            continue
        for n, fld, b in list(blocks(f)):
            if not isinstance(n, (ast.If, ast.For)) or len(b) < 2 or fld == "orelse" and isinstance(n, ast.For):
                continue
            w = ast.Module(b, [])
            if has(w, ast.Return, ast.Break, ast.Continue, ast.Import, ast.ImportFrom) or any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(w)):
                continue
            asg = names(w, ast.Store)
            if any(isinstance(x, ast.ExceptHandler) and x.name for x in ast.walk(w)):
                continue
            # in one of the extracted ones already?
            if getattr(n, "_x", False):
                continue
            sure = set()
            for s in b:
                if isinstance(s, ast.Assign):
                    sure |= names(s, ast.Store)
            # everything assigned is surely assigned, or only used here
            ids = {id(x) for x in ast.walk(w)}
            usedout = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in ids}
            loopy = any(isinstance(p, (ast.For, ast.While)) and id(b[0]) in {id(z) for z in ast.walk(p)} for p in ast.walk(f))
            ret = sorted(x for x in asg if x in usedout)
            if not set(ret) <= sure:
                continue
            # inputs: loads of names that are locals of f, not certainly assigned before in b
            loc = (names(f, ast.Store) | set(params(f))) 
            comp = set()
            for x in ast.walk(w):
                if isinstance(x, ast.comprehension):
                    comp |= names(x.target)
            seen, need = set(), set()
            bad = False
            for s in b:
                use = names(s, ast.Load) & loc
                if isinstance(s, ast.AugAssign):
                    use |= names(s.target)
                need |= use - seen - (names(s, ast.Store) if isinstance(s, (ast.For, ast.With)) else set())
                if isinstance(s, (ast.If, ast.Try, ast.For, ast.With, ast.While)) and (names(s, ast.Store) & names(s, ast.Load)) - seen:
                    # assigned somewhere inside and used: might need the outer value
                    inner = (names(s, ast.Store) & names(s, ast.Load)) - seen - comp
                    if any(i in names(ast.Module([z for z in ast.walk(f) if isinstance(z, ast.stmt) and id(z) not in ids], []), ast.Store) for i in inner):
                        bad = True
                    need -= inner
                if isinstance(s, ast.Assign):
                    seen |= names(s, ast.Store)
            need -= comp
            if bad or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for x in ast.walk(w)):
                continue
            if loopy and (need & asg):
                continue
            # everything needed has to be bound for sure: parameters or top level assignments before
            sureb = set(params(f))
            for s in f.body:
                if id(b[0]) in {id(z) for z in ast.walk(s)}:
                    break
                if isinstance(s, ast.Assign):
                    sureb |= names(s, ast.Store)
            p, ok = None, True
            for l in ast.walk(f):
                if isinstance(l, ast.For) and id(b[0]) in {id(z) for z in ast.walk(ast.Module(l.body, []))}:
                    sureb |= names(l.target)
            if not need <= sureb:
                continue
            need = sorted(need)
            nm = new("_part_of_%s_" % f.name.strip("_"))
            g = ast.FunctionDef(nm, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), b + ([ast.Return(ast.Tuple([load(x) for x in ret], ast.Load()) if len(ret) > 1 else load(ret[0]))] if ret else []), [], None)
            g.type_params = []
            call = ast.Call(load(nm), [load(x) for x in need], [])
            for z in ast.walk(w):
                z._x = True
            if not ret:
                s = ast.Expr(call)
            elif len(ret) == 1:
                s = assign(ret[0], call)
            else:
                s = ast.Assign([ast.Tuple([store(x) for x in ret], ast.Store())], call)
            setattr(n, fld, [s])
            out.append(g)
    tree.body.extend(out)


@t
def nest_and(tree):
    """if a and b: X  ->  if a: if b: X ;  conditional expressions become statements"""

    def fn(s, n):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            b = s.body
            for v in reversed(s.test.values):
                b = [ast.If(v, b, [])]
            return b
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(s.targets, v.orelse)])]
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def join_and(tree):
    """if a: if b: X  ->  if a and b: X"""
    for f in funcs(tree):
        if sel(f):
            for n in ast.walk(f):
                while isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                    n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
                    n.body = n.body[0].body


@t
def demorgan(tree):
    """if a and b: X else: Y  ->  if not a or not b: Y else: X;  a or b alike; "not in" -> not (in)"""
    for f in funcs(tree):
        if sel(f):
            for n in ast.walk(f):
                if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp):
                    op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
                elif isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.NotIn, ast.IsNot, ast.NotEq)):
                    o = n.test.ops[0]
                    n.test.ops[0] = ast.In() if isinstance(o, ast.NotIn) else ast.Is() if isinstance(o, ast.IsNot) else ast.Eq()
                    n.test = ast.UnaryOp(ast.Not(), n.test)


@t
def in_chain(tree):
    """x in ("a", "b") -> x == "a" or x == "b" """

    class X(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set)) and isinstance(n.left, (ast.Name, ast.Attribute)):
                i = isinstance(n.ops[0], ast.In)
                return ast.BoolOp(ast.Or() if i else ast.And(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq() if i else ast.NotEq()], [c]) for c in n.comparators[0].elts])
            return n

    for f in funcs(tree):
        if sel(f):
            X().visit(f)


@t
def comp_loop(tree):
    """comprehensions become loops"""

    def fn(s, n):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)) and len(s.value.generators) == 1:
            c = s.value
            g = c.generators[0]
            v = new("acc")
            ren = {x: new("e") for x in names(g.target)}

            class R(ast.NodeTransformer):
                def visit_Name(self, x):
                    if x.id in ren:
                        x.id = ren[x.id]
                    return x

            it = g.iter
            tgt = R().visit(g.target)
            if isinstance(c, ast.DictComp):
                b = [ast.Assign([ast.Subscript(load(v), R().visit(c.key), ast.Store())], R().visit(c.value))]
                init = ast.Dict([], [])
            elif isinstance(c, ast.ListComp):
                b = [ast.Expr(ast.Call(ast.Attribute(load(v), "append", ast.Load()), [R().visit(c.elt)], []))]
                init = ast.List([], ast.Load())
            else:
                b = [ast.Expr(ast.Call(ast.Attribute(load(v), "add", ast.Load()), [R().visit(c.elt)], []))]
                init = ast.Call(load("set"), [], [])
            for i in reversed(g.ifs):
                b = [ast.If(R().visit(i), b, [])]
            s.value = load(v)
            return [assign(v, init), ast.For(tgt, it, b, []), s]
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def dict_steps(tree):
    """d = {"a": x} -> d = {}; d["a"] = x"""

    def fn(s, n):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Dict) and s.value.keys and None not in s.value.keys and not isinstance(n, ast.ClassDef):
            v = new("d")
            d = s.value
            s.value = load(v)
            return [assign(v, ast.Dict([], []))] + [ast.Assign([ast.Subscript(load(v), k, ast.Store())], x) for k, x in zip(d.keys, d.values)] + [s]
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def kw_dict(tree):
    """{"a": x} -> dict(a=x)"""

    class X(ast.NodeTransformer):
        def visit_Dict(self, n):
            self.generic_visit(n)
            if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() and k.value not in ("from", "class") for k in n.keys):
                return ast.Call(load("dict"), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n

    for f in funcs(tree):
        if sel(f):
            X().visit(f)


@t
def update_steps(tree):
    """d.update({"a": x}) -> d["a"] = x"""

    def fn(s, n):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "update" and len(s.value.args) == 1 \
                and isinstance(s.value.args[0], ast.Dict) and isinstance(s.value.func.value, ast.Name) and None not in s.value.args[0].keys:
            d = s.value.args[0]
            return [ast.Assign([ast.Subscript(copy.deepcopy(s.value.func.value), k, ast.Store())], x) for k, x in zip(d.keys, d.values)] or s
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def get_in(tree):
    """x.get("k"[, d]) -> x["k"] if "k" in x else d"""

    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and 0 < len(n.args) < 3 and not n.keywords and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) \
                    and isinstance(n.func.value, ast.Name):
                d = n.func.value
                return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [d]), ast.Subscript(d, n.args[0], ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
            return n

    for f in funcs(tree):
        if sel(f):
            X().visit(f)


@t
def try_in(tree):
    """try: v = x["k"] except KeyError: H -> if "k" in x: v = x["k"] else: H"""

    def fn(s, n):
        if isinstance(s, ast.Try) and len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].value, ast.Subscript) and isinstance(s.body[0].value.value, (ast.Name,)) \
                and isinstance(s.body[0].value.slice, (ast.Constant, ast.Name)) and len(s.handlers) == 1 and isinstance(s.handlers[0].type, ast.Name) and s.handlers[0].type.id == "KeyError" \
                and not s.handlers[0].name and not s.finalbody and not has(ast.Module(s.handlers[0].body, []), ast.Raise):
            x = s.body[0].value
            return ast.If(ast.Compare(copy.deepcopy(x.slice), [ast.In()], [copy.deepcopy(x.value)]), s.body + s.orelse, s.handlers[0].body)
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def in_try(tree):
    """if "k" in x: v = x["k"]; else: H -> try: v = x["k"] except KeyError: H;  v = x.get(k, d) -> try"""

    def fn(s, n):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "get" and len(s.value.args) in (1, 2) and not s.value.keywords \
                and isinstance(s.value.args[0], ast.Constant) and isinstance(s.value.args[0].value, str) and isinstance(s.value.func.value, ast.Name):
            c = s.value
            return ast.Try([ast.Assign(copy.deepcopy(s.targets), ast.Subscript(c.func.value, c.args[0], ast.Load()))],
                           [ast.ExceptHandler(load("KeyError"), None, [ast.Assign(s.targets, c.args[1] if len(c.args) == 2 else ast.Constant(None))])], [], [])
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def arg_temp(tree):
    """arguments that are calls, and results, are put in variables first"""

    def fn(s, n):
        pre = []
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = new("res")
            pre.append(assign(v, s.value))
            s.value = load(v)
            s2 = pre[-1]
        else:
            s2 = s
        if isinstance(s2, (ast.Assign, ast.Expr)) and isinstance(s2.value, ast.Call):
            c = s2.value
            simple = isinstance(c.func, (ast.Name,)) or isinstance(c.func, ast.Attribute) and not has(c.func, ast.Call, ast.Subscript)
            hoist = []
            if simple:
                for i, a in enumerate(c.args):
                    if isinstance(a, (ast.Call, ast.Subscript)) and not isinstance(a, ast.Starred):
                        v = new("arg")
                        hoist.append(assign(v, a))
                        c.args[i] = load(v)
                    elif not isinstance(a, (ast.Name, ast.Constant, ast.Attribute)):
                        break
                else:
                    for k in c.keywords:
                        if isinstance(k.value, (ast.Call, ast.Subscript, ast.Dict)) and k.arg:
                            v = new("arg")
                            hoist.append(assign(v, k.value))
                            k.value = load(v)
                        elif not isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)):
                            break
            pre = hoist + pre
        return pre + [s]

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def fstring(tree):
    """f"..{x}.." -> "..{}..".format(x)   and back"""

    class X(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if all(isinstance(v, ast.Constant) or isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None for v in n.values):
                s, a = "", []
                for v in n.values:
                    if isinstance(v, ast.Constant):
                        s += v.value.replace("{", "{{").replace("}", "}}")
                    else:
                        s += "{}"
                        a.append(v.value)
                return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), a, [])
            return n

        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords:
                p = re.split(r"\{\}", n.func.value.value)
                if len(p) == len(n.args) + 1 and not any("{" in x or "}" in x for x in p) and not any(has(a, ast.Constant) for a in n.args):
                    out = []
                    for i, x in enumerate(p):
                        if x:
                            out.append(ast.Constant(x))
                        if i < len(n.args):
                            out.append(ast.FormattedValue(n.args[i], -1, None))
                    return ast.JoinedStr(out)
            return n

    for f in funcs(tree):
        if sel(f):
            X().visit(f)


@t
def hoist_consts(tree):
    """strings used as keys and in comparisons are constants of the module"""
    m = {}

    def c(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
            m.setdefault(n.value, "K_" + n.value.upper())
            return load(m[n.value])
        return n

    for f in funcs(tree):
        if not sel(f):
            continue
        body = ast.Module(f.body, [])
        for n in ast.walk(body):
            if isinstance(n, ast.Subscript):
                n.slice = c(n.slice)
            elif isinstance(n, ast.Compare):
                n.left = c(n.left)
                n.comparators = [c(x) for x in n.comparators]
            elif isinstance(n, ast.Call):
                n.args = [c(x) for x in n.args]
            elif isinstance(n, ast.Dict):
                n.keys = [c(x) if x is not None else None for x in n.keys]
    at = next(i for i, s in enumerate(tree.body) if isinstance(s, (ast.ClassDef, ast.FunctionDef))) if any(isinstance(s, (ast.ClassDef, ast.FunctionDef)) for s in tree.body) else len(tree.body)
    tree.body[at:at] = [ast.Assign([store(v)], ast.Constant(k)) for k, v in m.items()]


@t
def no_logs(tree):
    """no logging"""

    def fn(s, n):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "logger":
            return ast.Pass()
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def more_logs(tree):
    """logging of what comes in and what is returned"""

    def fn(s, n):
        if isinstance(s, ast.Return) and s.value is not None:
            v = new("out")
            return [assign(v, s.value), ast.Expr(ast.Call(ast.Attribute(load("logger"), "debug", ast.Load()), [ast.Constant("result: %s"), ast.Call(load("type"), [load(v)], [])], [])), ast.Return(load(v))]
        return s

    if not any(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "logger" for s in tree.body):
        return
    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def inline_ctx(tree):
    """variables for the endpoint context, its client data base and session manager are not used"""
    for f in funcs(tree):
        if not sel(f):
            continue
        for _ in range(3):
            cand = {}
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    cand.setdefault(x.targets[0].id, []).append(x)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    pass
            stores = {}
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores[x.id] = stores.get(x.id, 0) + 1
            for i, a in cand.items():
                if len(a) == 1 and stores[i] == 1 and i not in params(f):
                    v = a[0].value
                    u = ast.unparse(v)
                    if re.fullmatch(r"self\.server_get\('endpoint_context'\)(\.(cdb|session_manager|keyjar|issuer|cookie_handler|provider_info))?", u):
                        class R(ast.NodeTransformer):
                            def visit_Name(self, x):
                                if x.id == i and isinstance(x.ctx, ast.Load):
                                    return copy.deepcopy(v)
                                return x
                        R().visit(f)
                        stmts_map(f, lambda s, n: ast.Pass() if s is a[0] else s)
                        break


@t
def temp_ctx(tree):
    """self.server_get("endpoint_context").x.y: in steps"""

    def fn(s, n):
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
            pre = []

            class R(ast.NodeTransformer):
                def visit_Lambda(self, x):
                    return x

                visit_ListComp = visit_DictComp = visit_GeneratorExp = visit_IfExp = visit_BoolOp = visit_Lambda

                def visit_Call(self, x):
                    self.generic_visit(x)
                    if ast.unparse(x) == "self.server_get('endpoint_context')":
                        v = new("ctx")
                        pre.append(assign(v, x))
                        return load(v)
                    return x

            if isinstance(s, ast.Assign) and ast.unparse(s.value) == "self.server_get('endpoint_context')":
                return s
            R().visit(s)
            return pre + [s]
        return s

    for f in funcs(tree):
        if sel(f):
            stmts_map(f, fn)


@t
def supers(tree):
    """Base.m(self, ..) -> super().m(..)"""
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and len(c.bases) == 1:
            b = ast.unparse(c.bases[0])
            for n in ast.walk(c):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == b and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "self":
                    n.func.value = ast.Call(load("super"), [], [])
                    n.args = n.args[1:]


@t
def mod_imports(tree):
    """from m import x -> import m; m.x"""
    m = {}
    out = []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.level == 0 and s.module and not s.module.startswith("oidcop") and s.module != "__future__" and s.module != "typing":
            out.append(ast.Import([ast.alias(s.module, None)]))
            for a in s.names:
                m[a.asname or a.name] = s.module + "." + a.name
        else:
            out.append(s)
    tree.body = out

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in m and isinstance(n.ctx, ast.Load):
                return ast.parse(m[n.id], mode="eval").body
            return n

    loc = set()
    for f in funcs(tree):
        loc |= names(f, ast.Store) | set(params(f))
    for k in loc & set(m):
        tree.body.insert(0, ast.parse("from %s import %s as %s" % (m[k].rpartition(".")[0], m[k].rpartition(".")[2], k)).body[0])
        m.pop(k)
    R().visit(tree)
    # a name bound by an import of an alias is still exported
    for k, v in list(m.items()):
        tree.body.append(ast.Assign([store(k)], ast.parse(v, mode="eval").body)) if False else None


def idents():
    """identifiers used by the tests or in strings: not to be renamed"""
    s = set()
    for p in glob.glob(REPO + "/tests/**/*", recursive=True) + glob.glob(REPO + "/flask_op/**/*", recursive=True) + glob.glob(REPO + "/docs/**/*.rst", recursive=True):
        if os.path.isfile(p):
            s |= set(re.findall(r"\w+", open(p, errors="replace").read()))
    for p in glob.glob(REPO + "/src/**/*.py", recursive=True):
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                s |= set(re.findall(r"\w+", n.value))
    return s


def rename_defs(trees):
    """functions and methods that only the package itself uses get other names"""
    keep = idents()
    defs = {}
    for tr in trees.values():
        for f in funcs(tr):
            defs.setdefault(f.name, 0)
    # inherited from elsewhere: keep
    r = {d for d in defs if d not in keep and not d.startswith("__")}
    lib = set()
    for p in glob.glob("/opt/venv/lib/python3*/site-packages/oidcmsg/**/*.py", recursive=True) + glob.glob("/opt/venv/lib/python3*/site-packages/cryptojwt/**/*.py", recursive=True):
        lib |= set(re.findall(r"\w+", open(p, errors="replace").read()))
    r -= lib
    for tr in trees.values():
        for n in ast.walk(tr):
            if isinstance(n, ast.FunctionDef) and n.name in r:
                n.name = n.name + "_x"
            elif isinstance(n, ast.Attribute) and n.attr in r:
                n.attr += "_x"
            elif isinstance(n, ast.Name) and n.id in r:
                n.id += "_x"
            elif isinstance(n, ast.alias) and n.name in r:
                n.name += "_x"
    print("renamed:", " ".join(sorted(r)))


def keywordise(trees):
    """positional arguments of calls of the package's own functions become keyword arguments"""
    defs = {}
    for tr in trees.values():
        top = {id(x) for x in tr.body}
        for c in tr.body:
            for f in c.body if isinstance(c, ast.ClassDef) else [c]:
                if isinstance(f, ast.FunctionDef):
                    ps = [a.arg for a in f.args.args]
                    if isinstance(c, ast.ClassDef) and not any(ast.unparse(d) == "staticmethod" for d in f.decorator_list):
                        ps = ps[1:]
                    defs.setdefault(f.name, []).append(tuple(ps) if not f.args.vararg else None)
    lib = set()
    for p in glob.glob("/opt/venv/lib/python3*/site-packages/oidcmsg/**/*.py", recursive=True) + glob.glob("/opt/venv/lib/python3*/site-packages/cryptojwt/**/*.py", recursive=True):
        for m in re.findall(r"def (\w+)", open(p, errors="replace").read()):
            lib.add(m)
    for tr in trees.values():
        for n in ast.walk(tr):
            if isinstance(n, ast.Call) and n.args:
                nm = n.func.attr if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "_mngr", "grant", "session") else n.func.id if isinstance(n.func, ast.Name) else None
                d = defs.get(nm)
                if d and len(set(d)) == 1 and d[0] is not None and nm not in lib and len(n.args) <= len(d[0]) and not any(isinstance(a, ast.Starred) for a in n.args):
                    n.keywords = [ast.keyword(p, a) for p, a in zip(d[0], n.args)] + n.keywords
                    n.args = []


WHOLE = {"rename_defs": rename_defs, "keywordise": keywordise}


def move_funcs(out):
    """functions of a module live in another module"""


def main():
    global FN
    if sys.argv[1] == "--list":
        print("\n".join(list(T) + list(WHOLE)))
        return
    name, out = sys.argv[1:3]
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    FN = sys.argv[4] if len(sys.argv) > 4 else None
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    subprocess.check_call("git -C %s archive HEAD | tar -x -C %s" % (REPO, out), shell=True)
    trees = {}
    for p in glob.glob(out + "/src/oidcop/**/*.py", recursive=True):
        trees[p] = ast.parse(open(p).read())
    if name in WHOLE:
        WHOLE[name](trees)
    else:
        for p, tr in trees.items():
            if sub in p:
                for n in name.split("+"):
                    T[n](tr)
    for p, tr in trees.items():
        ast.fix_missing_locations(tr)
        s = ast.unparse(tr) + "\n"
        compile(s, p, "exec")
        open(p, "w").write(s)


main()
