"""Program index and the value domain used by the analyses.

Everything here works on the source text of /repo (parsed with ``ast``); no code
of the analysed program is ever imported or executed.
"""
import ast
import builtins
import hashlib
import os
import sys
import warnings

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SITE = [
    p
    for p in (
        "/opt/venv/lib/python3.12/site-packages",
    )
    if os.path.isdir(p)
]


class Broken(Exception):
    """The analysis lost an anchor: the run must end as analysis-broken."""


# --------------------------------------------------------------------------
# Terms (interned, hash-consed)
# --------------------------------------------------------------------------


class T(object):
    __slots__ = ("k", "a", "h", "r")

    def __init__(self, k, a, h):
        self.k = k
        self.a = a
        self.h = h
        self.r = None

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)


_TAB = {}


def mk(k, *a):
    key = (k, a)
    t = _TAB.get(key)
    if t is None:
        t = T(k, a, hash(key))
        _TAB[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def sym(n):
    return mk("sym", n)


def attr(t, n):
    return mk("attr", t, n)


def item(t, k):
    if t.k == "op" and t.a[0] == "slice" and k.k == "const" and type(k.a[1]) is int and k.a[1] >= 0:
        # x[lo:hi][i] is x[lo + i]
        lo, hi, step = t.a[2:]
        if all(b.k == "const" for b in (lo, hi, step)) and step.a[1] in (None, 1):
            lo, hi = lo.a[1] or 0, hi.a[1]
            if lo >= 0 and (hi is None or hi > lo + k.a[1]):
                return mk("item", t.a[1], const(lo + k.a[1]))
    return mk("item", t, k)


def is_const(t):
    return t.k == "const"


def cval(t):
    return t.a[1]


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if t.r is not None:
        return t.r
    if d > 12:
        return "..."
    k, a = t.k, t.a
    if k == "const":
        r = repr(a[1])
    elif k == "sym":
        r = a[0]
    elif k == "attr":
        r = "%s.%s" % (show(a[0], d + 1), a[1])
    elif k == "item":
        r = "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    elif k == "call":
        name, recv, args, kw, seq = a
        xs = [show(x, d + 1) for x in args] + ["%s=%s" % (n, show(x, d + 1)) for n, x in kw]
        r = "%s%s(%s)%s" % (
            (show(recv, d + 1) + "." if recv is not None else ""),
            name,
            ", ".join(xs),
            "#%d" % seq if seq else "",
        )
    elif k == "alloc":
        r = "<%s>" % (a[0],)
    elif k == "elem":
        r = "elem%s(%s)" % (a[2], show(a[0], d + 1))
    elif k == "op":
        r = "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    elif k == "cond":
        r = ("" if a[1] else "not ") + show_atom(a[0])
    elif k == "not":
        r = "not " + show(a[0], d + 1)
    elif k == "tuple":
        r = "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    elif k in ("func", "klass", "mod", "ext"):
        r = "%s:%s" % (k, a[0])
    else:
        r = "%s(%s)" % (k, ", ".join(show(x, d + 1) for x in a))
    t.r = r
    return r


def show_atom(at):
    if at[0] == "T":
        return show(at[1])
    if at[0] == "EQ":
        return "%s == %s" % (show(at[1]), show(at[2]))
    if at[0] == "LT":
        return "%s < %s" % (show(at[1]), show(at[2]))
    if at[0] == "IN":
        return "%s in %s" % (show(at[1]), show(at[2]))
    if at[0] == "NONE":
        return "%s is None" % show(at[1])
    if at[0] == "ISA":
        return "isinstance(%s, %s)" % (show(at[1]), at[2])
    return str(at)


def subterms(t, seen=None):
    """All sub-terms of t (including t)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


# --------------------------------------------------------------------------
# Program index
# --------------------------------------------------------------------------


def _parse(src, path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _Lookups().visit(ast.parse(src, path))


class _Lookups(ast.NodeTransformer):
    """try: v = x["k"]  except KeyError: v = None   is   v = x.get("k")   (also with return for v =)"""

    def path(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name)

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.orelse or n.finalbody or len(n.body) != 1 or len(n.handlers) != 1 or len(n.handlers[0].body) != 1:
            return n
        h = n.handlers[0]
        a, b = n.body[0], h.body[0]
        if not (isinstance(h.type, ast.Name) and h.type.id in ("KeyError", "LookupError")):
            return n
        if type(a) is not type(b) or not isinstance(a, (ast.Assign, ast.Return)) or not isinstance(a.value, ast.Subscript):
            return n
        if isinstance(a, ast.Assign) and not (len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and ast.dump(a.targets[0]) == ast.dump(b.targets[0])):
            return n
        v = a.value
        if not (self.path(v.value) and isinstance(v.slice, ast.Constant) and isinstance(v.slice.value, str)):
            return n
        d = b.value if b.value is not None else ast.Constant(None)
        if not (isinstance(d, ast.Constant) or isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) or isinstance(d, (ast.List, ast.Dict)) and not ast.dump(d).count("Name(")
                or isinstance(d, ast.Name)):
            return n
        c = ast.Call(ast.Attribute(v.value, "get", ast.Load()), [v.slice] + ([] if isinstance(d, ast.Constant) and d.value is None else [d]), [])
        a.value = ast.copy_location(c, v)
        return ast.fix_missing_locations(a)

    def visit_Call(self, n):
        """dict.fromkeys(x, v)   is   {k: v for k in x}"""
        self.generic_visit(n)
        f = n.func
        if (isinstance(f, ast.Attribute) and f.attr == "fromkeys" and isinstance(f.value, ast.Name) and f.value.id == "dict"
                and 0 < len(n.args) < 3 and not n.keywords and not isinstance(n.args[0], ast.Starred)
                and all(isinstance(a, (ast.Constant, ast.Name)) for a in n.args[1:])):
            k = ast.Name("_key", ast.Load())
            c = ast.DictComp(k, n.args[1] if n.args[1:] else ast.Constant(None),
                             [ast.comprehension(ast.Name("_key", ast.Store()), n.args[0], [], 0)])
            return ast.fix_missing_locations(ast.copy_location(c, n))
        return n

    def visit_FunctionDef(self, n):
        """h = hmac.new(..); h.update(x)   is   h = h.hash_update(x)"""
        self.generic_visit(n)
        hs = {t.id for a in ast.walk(n) if isinstance(a, ast.Assign) and isinstance(a.value, ast.Call)
              for t in a.targets if isinstance(t, ast.Name) and ast.unparse(a.value.func).split(".")[0] in ("hmac", "hashlib")}
        if hs:
            for b in ast.walk(n):
                for body in (getattr(b, f, None) for f in ("body", "orelse", "finalbody")):
                    for i, x in enumerate(body if isinstance(body, list) else ()):
                        if (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)
                                and x.value.func.attr == "update" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id in hs):
                            x.value.func.attr = "hash_update"
                            body[i] = ast.fix_missing_locations(ast.copy_location(
                                ast.Assign([ast.Name(x.value.func.value.id, ast.Store())], x.value), x))
        return n


class FuncInfo(object):
    def __init__(self, module, cls, node, qual):
        self.module = module
        self.cls = cls  # ClassInfo or None
        self.node = node
        self.name = node.name
        self.qual = qual  # e.g. oidcop.session.grant.Grant.mint_token
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.static = "staticmethod" in self.decorators
        self.classm = "classmethod" in self.decorators
        self.prop = "property" in self.decorators
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node)
        )
        self._bool = None

    @property
    def short(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<fn %s>" % self.qual


class ClassInfo(object):
    def __init__(self, module, node, qual):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = qual
        self.methods = {}
        self.attrs = {}  # class-level name -> expr
        self.bases = []  # resolved quals / external dotted names
        self.self_stores = set()

    def __repr__(self):
        return "<class %s>" % self.qual


class Module(object):
    def __init__(self, name, path, tree, src, external=False):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.external = external
        self.imports = {}  # local name -> dotted
        self.funcs = {}
        self.classes = {}
        self.globals = {}  # name -> expr (last assignment)


def walk_scope(node):
    """Walk a function body without entering nested function/class scopes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


_BUILTIN_EXC = {
    n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)
}


def _falls_through(body):
    """may the end of these statements be reached?"""
    for n in body:
        if isinstance(n, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(n, ast.If) and n.orelse and not _falls_through(n.body) and not _falls_through(n.orelse):
            return False
        if isinstance(n, ast.With) and not _falls_through(n.body):
            return False
        if isinstance(n, ast.Try):
            if n.finalbody and not _falls_through(n.finalbody):
                return False
            if not _falls_through(n.body + n.orelse) and not any(_falls_through(h.body) for h in n.handlers):
                return False
        if isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(n)):
            return False
    return True


class Program(object):
    def __init__(self, repo=None, packages=("oidcop",)):
        self.repo = repo or REPO
        self.src = os.path.join(self.repo, "src")
        self.modules = {}
        self._ext = {}
        self.classes = {}
        self.funcs = {}
        for pkg in packages:
            base = os.path.join(self.src, pkg)
            if not os.path.isdir(base):
                raise Broken("package %s not found under %s" % (pkg, self.src))
            for root, dirs, files in os.walk(base):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith(".py"):
                        p = os.path.join(root, f)
                        rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                        if rel.endswith(".__init__"):
                            rel = rel[: -len(".__init__")]
                        self._load(rel, p)
        self._link()
        self.method_index = {}
        for c in self.classes.values():
            if c.module.external:
                continue
            for m, f in c.methods.items():
                self.method_index.setdefault(m, []).append(f)
        self._mro = {}

    # -- loading ---------------------------------------------------------
    def _load(self, name, path, external=False):
        with open(path, encoding="utf-8") as fp:
            src = fp.read()
        tree = _parse(src, path)
        m = Module(name, path, tree, src, external)
        is_pkg = path.endswith("__init__.py")
        self.modules[name] = m
        self._scan_body(m, tree.body, is_pkg)
        return m

    def _scan_body(self, m, body, is_pkg):
        for n in body:
            if isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        m.imports[al.asname] = al.name
                    else:
                        m.imports[al.name.split(".")[0]] = al.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    drop = n.level - (1 if is_pkg else 0)
                    parts = parts[: len(parts) - drop] if drop else parts
                    base = ".".join(parts + ([n.module] if n.module else []))
                for al in n.names:
                    m.imports[al.asname or al.name] = base + "." + al.name
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, None, n, m.name + "." + n.name)
                m.funcs[n.name] = fi
                self.funcs[fi.qual] = fi
            elif isinstance(n, ast.ClassDef):
                self._scan_class(m, n, m.name + "." + n.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    m.globals[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan_body(m, n.body, is_pkg)
                self._scan_body(m, n.orelse, is_pkg)
                for h in getattr(n, "handlers", []):
                    self._scan_body(m, h.body, is_pkg)

    def _scan_class(self, m, n, qual):
        ci = ClassInfo(m, n, qual)
        m.classes[n.name] = ci
        self.classes[qual] = ci
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, ci, b, qual + "." + b.name)
                ci.methods[b.name] = fi
                self.funcs[fi.qual] = fi
                for x in ast.walk(b):
                    if (
                        isinstance(x, ast.Attribute)
                        and isinstance(x.ctx, (ast.Store, ast.Del))
                        and isinstance(x.value, ast.Name)
                        and x.value.id == "self"
                    ):
                        ci.self_stores.add(x.attr)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = b.value
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                if b.value is not None:
                    ci.attrs[b.target.id] = b.value
            elif isinstance(b, ast.ClassDef):
                self._scan_class(m, b, qual + "." + b.name)

    def _link(self):
        for ci in list(self.classes.values()):
            if ci.bases:
                continue
            for b in ci.node.bases:
                d = self.resolve_expr_name(ci.module, b)
                if d:
                    ci.bases.append(d)

    # -- resolution --------------------------------------------------------
    def dotted(self, node):
        if isinstance(node, ast.Name):
            return [node.id]
        if isinstance(node, ast.Attribute):
            p = self.dotted(node.value)
            return p + [node.attr] if p else None
        return None

    def resolve_expr_name(self, module, node):
        p = self.dotted(node)
        if not p:
            return None
        return self.resolve_dotted(self.resolve_local(module, p[0]) or p[0], p[1:])

    def resolve_local(self, module, name):
        if name in module.classes:
            return module.classes[name].qual
        if name in module.funcs:
            return module.funcs[name].qual
        if name in module.globals:
            return module.name + "." + name
        if name in module.imports:
            return self.canon(module.imports[name])
        return None

    def resolve_dotted(self, base, rest):
        return self.canon(".".join([base] + list(rest)))

    def canon(self, dotted, depth=0):
        """Follow re-exports inside the analysed packages."""
        if depth > 6:
            return dotted
        if dotted in self.classes or dotted in self.funcs or dotted in self.modules:
            return dotted
        if "." in dotted:
            m, _, n = dotted.rpartition(".")
            mod = self.modules.get(m)
            if mod is not None and n in mod.imports and mod.imports[n] != dotted:
                return self.canon(mod.imports[n], depth + 1)
        return dotted

    # -- external packages (only class hierarchies) ------------------------
    def ext_module(self, name):
        if name in self._ext:
            return self._ext[name]
        self._ext[name] = None
        for site in SITE:
            base = os.path.join(site, *name.split("."))
            for p in (base + ".py", os.path.join(base, "__init__.py")):
                if os.path.isfile(p):
                    try:
                        with open(p, encoding="utf-8") as fp:
                            src = fp.read()
                        tree = _parse(src, p)
                    except (SyntaxError, UnicodeDecodeError):
                        return None
                    sub = Module(name, p, tree, src, True)
                    keep_c, keep_f = dict(self.classes), dict(self.funcs)
                    self._scan_body(sub, tree.body, p.endswith("__init__.py"))
                    for q, c in self.classes.items():
                        if q not in keep_c:
                            c.bases = []
                            for b in c.node.bases:
                                d = self.resolve_expr_name(sub, b)
                                if d:
                                    c.bases.append(d)
                    for q in list(self.funcs):
                        if q not in keep_f:
                            del self.funcs[q]
                    self._ext[name] = sub
                    return sub
        return None

    def get_class(self, qual):
        ci = self.classes.get(qual)
        if ci is not None:
            return ci
        if qual and "." in qual and qual.split(".")[0] in ("oidcmsg", "cryptojwt"):
            m, _, n = qual.rpartition(".")
            mod = self.ext_module(m)
            if mod is not None:
                if n in mod.classes:
                    return mod.classes[n]
                if n in mod.imports:
                    return self.get_class(mod.imports[n])
        return None

    def mro(self, qual):
        """Linearised ancestors (quals); good enough for this code base."""
        if qual in self._mro:
            return self._mro[qual]
        ci = self.get_class(qual)
        out = [ci.qual if ci else qual]
        self._mro[qual] = out
        if ci is None:
            last = qual.rpartition(".")[2]
            if last in _BUILTIN_EXC:
                out.extend(c.__name__ for c in _BUILTIN_EXC[last].__mro__[1:-1])
        else:
            tails = [list(self.mro(b)) for b in ci.bases]
            # C3-ish merge
            seqs = tails + [list(ci.bases)]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in o[1:] for o in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for s in seqs:
                    while cand in s:
                        s.remove(cand)
            seen = set()
            out[:] = [x for x in out if not (x in seen or seen.add(x))]
        return out

    def is_sub(self, a, b):
        """a subclass of b? True/False, None when unknown."""
        if a == b:
            return True
        m = self.mro(a)
        bl = b.rpartition(".")[2]
        if b in m:
            return True
        # builtins appear undotted
        if bl in _BUILTIN_EXC and "." not in b and any(x == bl for x in m):
            return True
        if b in ("object", "Exception", "BaseException"):
            return True if b != "object" else True
        known = all(
            (self.get_class(x) is not None) or x in _BUILTIN_EXC or x in ("object", "dict", "list")
            for x in m
        )
        return False if known else None

    def find_method(self, qual, name, after=None):
        m = self.mro(qual)
        if after is not None:
            if after in m:
                m = m[m.index(after) + 1 :]
        for q in m:
            ci = self.get_class(q)
            if ci is not None and name in ci.methods:
                return ci.methods[name]
        return None

    def find_attr(self, qual, name):
        for q in self.mro(qual):
            ci = self.get_class(q)
            if ci is not None and name in ci.attrs:
                return ci, ci.attrs[name]
        return None, None

    def self_stored(self, qual, name):
        for q in self.mro(qual):
            ci = self.get_class(q)
            if ci is not None and name in ci.self_stores:
                return True
        return False

    def subclasses(self, qual):
        out = []
        for c in self.classes.values():
            if not c.module.external and c.qual != qual and qual in self.mro(c.qual):
                out.append(c.qual)
        return sorted(out)

    # -- explicit raises (transitive, by name) --------------------------------
    # -- functions that return a bool ------------------------------------
    def returns_bool(self, fi):
        """every value the function returns is True or False, whoever computes it"""
        m = self.__dict__.setdefault("_rbool", {})
        if fi not in m:
            m[fi] = True  # recursion: as the others
            rets = [n for n in walk_scope(fi.node) if isinstance(n, ast.Return)]
            m[fi] = bool(rets) and not fi.is_gen and not _falls_through(fi.node.body) and all(self._boolish(fi, n.value) for n in rets)
        return m[fi]

    def _boolish(self, fi, n, seen=()):
        go = lambda x: self._boolish(fi, x, seen)
        if isinstance(n, ast.Constant):
            return isinstance(n.value, bool)
        if isinstance(n, ast.Compare):
            return True
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return True
        if isinstance(n, ast.BoolOp):
            return all(go(v) for v in n.values)
        if isinstance(n, ast.IfExp):
            return go(n.body) and go(n.orelse)
        if isinstance(n, ast.NamedExpr):
            return go(n.value)
        if isinstance(n, ast.Name):
            if n.id in fi.params or n.id in fi.kwonly or n.id in (fi.vararg, fi.kwarg) or n.id in seen:
                return n.id in seen
            vs = []
            for x in walk_scope(fi.node):
                if isinstance(x, ast.Name) and x.id == n.id and not isinstance(x.ctx, ast.Load):
                    vs.append(None)
                elif isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Name) and t.id == n.id and x.value is not None:
                            vs.append(x.value)
            plain = [v for v in vs if v is not None]
            return bool(plain) and 2 * len(plain) == len(vs) and all(self._boolish(fi, v, seen + (n.id,)) for v in plain)
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                if f.id in ("bool", "any", "all", "isinstance", "hasattr", "issubclass", "callable"):
                    return True
                t = self.funcs.get("%s.%s" % (fi.module.name, f.id)) or self.funcs.get(self.resolve_expr_name(fi.module, f) or "")
                return t is not None and self.returns_bool(t)
            if isinstance(f, ast.Attribute):
                c = [x for x in self.method_index.get(f.attr, ())]
                return bool(c) and all(self.returns_bool(x) for x in c)
        return False

    def raises(self, fi):
        if not hasattr(self, "_raises"):
            direct, calls = {}, {}
            for q, f in self.funcs.items():
                d, c = set(), set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Raise) and n.exc is not None:
                        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                        r = self.resolve_expr_name(f.module, e)
                        if r and r.startswith("oidcop."):
                            d.add(r)
                    elif isinstance(n, ast.Call):
                        if isinstance(n.func, ast.Attribute):
                            c.add(n.func.attr)
                        elif isinstance(n.func, ast.Name):
                            c.add(n.func.id)
                    elif isinstance(n, ast.Subscript):
                        c.add("__getitem__")
                direct[q], calls[q] = d, c
            byname = {}
            for q, f in self.funcs.items():
                byname.setdefault(f.name, []).append(q)
                if f.name == "__init__" and f.cls is not None:
                    byname.setdefault(f.cls.name, []).append(q)
            ch = True
            while ch:
                ch = False
                for q in direct:
                    for c in calls[q]:
                        for q2 in byname.get(c, ()):
                            if not direct[q2] <= direct[q]:
                                direct[q] |= direct[q2]
                                ch = True
            self._raises = {q: frozenset(d) for q, d in direct.items()}
        return self._raises.get(fi.qual, frozenset())

    # -- lookup with Broken on a missing anchor -----------------------------
    def need_class(self, qual):
        ci = self.classes.get(qual)
        if ci is None:
            # moved? accept a unique class of that name
            last = qual.rpartition(".")[2]
            cands = [c for c in self.classes.values() if c.name == last and not c.module.external]
            if len(cands) == 1:
                return cands[0]
            raise Broken("anchor class %s not found" % qual)
        return ci

    def need_method(self, qual, name):
        ci = self.need_class(qual)
        f = self.find_method(ci.qual, name)
        if f is None:
            raise Broken("anchor method %s.%s not found" % (qual, name))
        return f

    def need_func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            last = qual.rpartition(".")[2]
            cands = [x for x in self.funcs.values() if x.name == last and x.cls is None]
            if len(cands) == 1:
                return cands[0]
            raise Broken("anchor function %s not found" % qual)
        return f


def relpath(p):
    return os.path.relpath(p, REPO)
