"""Path-sensitive dataflow over the syntax tree (property-simulation style).

A state is (environment, heap, attribute/item overlay, guard facts, event trace).
Branches split the state on the guard fact; splits that do not matter are merged
again at joins (states that differ in one guard only are fused exactly, larger
fan-outs by intersecting their facts).  Calls that resolve inside the program are
analysed in context; everything else is an uninterpreted value.  Loops over an
unknown collection are analysed for zero, one (and optionally two) generic
elements.  No constraint solver and no execution is involved: guards are compared
syntactically after normalisation.
"""
import os
import ast

from .core import Broken
from .core import FALSE
from .core import NONE
from .core import T
from .core import TRUE
from .core import attr
from .core import const
from .core import cval
from .core import is_const
from .core import item
from .core import mk
from .core import relpath
from .core import show
from .core import sym
from .core import walk_scope

DELETED = mk("deleted")
MUTATED = mk("sym", "%mutated")
REMOVERS = {"pop", "popitem", "remove", "discard", "clear", "__delitem__", "insert"}
EXC_ANY = mk("exc", "?", ())
CTX = sym("CTX")

MESSAGE = "oidcmsg.message.Message"

# receiver typing of the long-lived singletons --------------------------------
ATTR_TYPES = {
    "session_manager": "oidcop.session.manager.SessionManager",
    "cookie_handler": "oidcop.cookie_handler.CookieHandler",
    "claims_interface": "oidcop.session.claims.ClaimsInterface",
    "authz": "oidcop.authz.AuthzHandling",
    "scopes_handler": "oidcop.scopes.Scopes",
    "authn_broker": "oidcop.user_authn.authn_context.AuthnBroker",
    "endpoint_context": "oidcop.endpoint_context.EndpointContext",
    "token_handler": "oidcop.token.handler.TokenHandler",
    "userinfo": "oidcop.user_info.UserInfo",
}
ELEM_TYPES = {
    "issued_token": "oidcop.session.token.SessionToken",
}
ITEM_TYPES = {
    "grant": "oidcop.session.grant.Grant",
    "client_session_info": "oidcop.session.info.ClientSessionInfo",
    "user_session_info": "oidcop.session.info.UserSessionInfo",
}
PARAM_TYPES = {
    "endpoint_context": "oidcop.endpoint_context.EndpointContext",
    "grant": "oidcop.session.grant.Grant",
    "session_manager": "oidcop.session.manager.SessionManager",
}
CALL_TYPES = {
    "get_token": "oidcop.session.token.SessionToken",
    "get_grant": "oidcop.session.grant.Grant",
    "create_session": None,
}

GENERIC_METHODS = (
    set(dir(dict)) | set(dir(list)) | set(dir(str)) | set(dir(set)) | {"verify", "to_dict", "request"}
)

MUTATORS = {
    "append",
    "extend",
    "update",
    "insert",
    "pop",
    "popitem",
    "remove",
    "discard",
    "clear",
    "setdefault",
    "add",
    "sort",
    "reverse",
    "__setitem__",
    "__delitem__",
}

LOGGERS = {"logger", "LOGGER", "logging", "log"}


class Obj(object):
    """Abstract contents of an allocation."""

    __slots__ = ("kind", "cls", "layers", "h")

    def __init__(self, kind, cls, layers):
        self.kind = kind
        self.cls = cls
        self.layers = layers
        self.h = hash((kind, cls, layers))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return (
            isinstance(o, Obj)
            and self.h == o.h
            and self.kind == o.kind
            and self.cls == o.cls
            and self.layers == o.layers
        )

    def __repr__(self):
        return "%s%s%r" % (self.kind, ":" + self.cls if self.cls else "", self.layers)


class Ev(object):
    __slots__ = ("kind", "name", "recv", "args", "res", "site", "facts", "key", "stack")

    def __init__(self, kind, name, recv, args, res, site, facts, stack=()):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = args
        self.res = res
        self.site = site
        self.facts = facts
        self.stack = stack
        self.key = (kind, name, recv, args, res, site)

    def arg(self, name, default=None):
        for k, v in self.args:
            if k == name:
                return v
        return default

    def with_facts(self, facts):
        return Ev(self.kind, self.name, self.recv, self.args, self.res, self.site, facts, self.stack)

    def __repr__(self):
        return "Ev(%s %s.%s(%s) @%s)" % (
            self.kind,
            show(self.recv) if self.recv is not None else "",
            self.name,
            ", ".join("%s=%s" % (k, show(v)) for k, v in self.args),
            self.site,
        )


class St(object):
    __slots__ = ("env", "heap", "ov", "facts", "trace")

    def __init__(self, env, heap, ov, facts, trace):
        self.env = env
        self.heap = heap
        self.ov = ov
        self.facts = facts
        self.trace = trace

    def setenv(self, k, v):
        e = dict(self.env)
        e[k] = v
        return St(e, self.heap, self.ov, self.facts, self.trace)

    def withenv(self, env):
        return St(env, self.heap, self.ov, self.facts, self.trace)

    def setheap(self, k, v):
        h = dict(self.heap)
        h[k] = v
        return St(self.env, h, self.ov, self.facts, self.trace)

    def setov(self, k, v):
        o = dict(self.ov)
        o[k] = v
        return St(self.env, self.heap, o, self.facts, self.trace)

    def setfacts(self, f):
        return St(self.env, self.heap, self.ov, f, self.trace)

    def addev(self, ev):
        return St(self.env, self.heap, self.ov, self.facts, self.trace + (ev,))


class Outcome(object):
    __slots__ = ("kind", "st", "val", "site")

    def __init__(self, kind, st, val, site=None):
        self.kind = kind  # return | raise
        self.st = st
        self.val = val
        self.site = site

    @property
    def facts(self):
        return self.st.facts

    @property
    def trace(self):
        return self.st.trace

    def __repr__(self):
        return "<%s %s>" % (self.kind, show(self.val))


# library functions that always return a value
NEVER_NONE = {"token_urlsafe", "token_hex", "token_bytes", "urandom", "hexdigest", "digest", "uuid1", "uuid4", "utc_time_sans_frac", "rndstr",
              "b64encode", "urlencode", "quote", "unquote", "urlparse", "urlsplit", "urlunsplit", "parse_qs", "encode"}


def error_message(t):
    """an error message made here: error_cls(error=...), SomethingErrorResponse(error=...)"""
    return (t.k == "call" and (t.a[0] == "error_cls" or t.a[0].endswith("ErrorResponse"))
            and any(k == "error" and is_const(x) and x.a[1] for k, x in t.a[3]))


class Put(object):
    __slots__ = ("base", "key", "val", "facts", "site", "before", "trace")

    def __init__(self, base, key, val, facts, site, before, trace):
        self.base = base
        self.key = key  # None: everything in val
        self.val = val
        self.facts = facts
        self.site = site
        self.before = before  # what base held
        self.trace = trace  # events until then


class Lossy(Exception):
    pass


class Policy(object):
    """What a rule wants the analysis to see."""

    def __init__(
        self,
        opaque=(),
        watch=(),
        watch_attrs=(),
        watch_items=None,
        watch_mut=None,
        watch_ctor=(),
        fresh=("mint_token", "create_session", "create_grant", "uuid1", "uuid4"),
        loop=1,
        depth=14,
        types=None,
        keep=None,
        cap=400,
        inline=None,
        ctor_inline=(),
        maxsteps=4000000,
        watch_fn=None,
        no_inline_unique=(),
        noraise=(),
        watch_ret=(),
        loop_track=False,
        raise_all=False,
        ignore_attrs=(),
        ignore_keys=(),
        ev_args=None,
        copies=False,  # what comes out of a deep copy is not the original
        widen=300,
        throws=None,
        log_puts=False,
        nogc=False,
        qloop=None,
        partial=None,
        strict=False,
    ):
        # give up when something has to be forgotten
        self.strict = strict
        # partial(mapping): a subscript of it may fail also outside of a try
        self.partial = partial

        # elements that comprehensions and quantifiers see (quantifiers: loop)
        self.qloop = qloop
        # keep what is known about values that are not used any more
        self.nogc = nogc
        # record every entry written into any mapping, see Interp.puts
        self.log_puts = log_puts
        # calls that are assumed to fail: name -> exception class
        self.throws = dict(throws or {})
        self.ignore_keys = set(ignore_keys)
        self.ev_args = dict(ev_args or {})
        self.copies = copies
        self.widen = widen
        self.ignore_attrs = set(ignore_attrs)
        self.opaque = set(opaque)
        self.watch = set(watch)
        self.watch_attrs = set(watch_attrs)
        self.watch_items = watch_items
        self.watch_mut = watch_mut
        self.watch_ctor = set(watch_ctor)
        self.fresh = set(fresh)
        self.loop = loop
        self.depth = depth
        self.types = dict(types or {})
        self.types.setdefault(CTX, "oidcop.endpoint_context.EndpointContext")
        self.keep = keep
        self.cap = cap
        self.inline = inline
        self.ctor_inline = set(ctor_inline)
        self.maxsteps = maxsteps
        self.watch_fn = watch_fn
        self.no_inline_unique = set(no_inline_unique)
        self.noraise = set(noraise)
        self.watch_ret = set(watch_ret)
        self.loop_track = loop_track
        self.raise_all = raise_all


def F_get_false(f, at):
    return f.get(at) is False


class Frame(object):
    __slots__ = ("fi", "module", "cls", "node", "callsite", "base", "roots")

    def __init__(self, fi, module, cls, node, callsite):
        self.base = frozenset()  # allocations that existed at entry
        self.roots = []  # extra live values (loop iterators)
        self.fi = fi
        self.module = module
        self.cls = cls
        self.node = node
        self.callsite = callsite


class Flow(object):
    __slots__ = ("next", "ret", "brk", "cont")

    def __init__(self):
        self.next = []
        self.ret = []
        self.brk = []
        self.cont = []


_LOADS = {}
_ALLOCS = {}


def allocs_in(t):
    """allocations / closures mentioned by a term"""
    r = _ALLOCS.get(t)
    if r is None:
        if t.k in ("alloc", "closure"):
            r = frozenset((t,))
        else:
            acc = set()
            stack = list(t.a)
            while stack:
                x = stack.pop()
                if isinstance(x, T):
                    acc |= allocs_in(x)
                elif isinstance(x, tuple):
                    stack.extend(x)
            r = frozenset(acc)
        _ALLOCS[t] = r
    return r


def loads(node):
    """Names read anywhere inside node (nested scopes included)."""
    r = _LOADS.get(node)
    if r is None:
        r = frozenset(
            n.id
            for n in ast.walk(node)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))
        )
        if any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "locals"
            for n in ast.walk(node)
        ):
            r = r | {"*"}
        _LOADS[node] = r
    return r


def loads_all(nodes):
    s = set()
    for n in nodes:
        s |= loads(n)
    return s


def pairwise(n):
    """(a, b) == (c, d) as a == c and b == d"""
    if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
        return None
    a, b = n.left, n.comparators[0]
    if type(a) is not type(b) or not isinstance(a, (ast.Tuple, ast.List)) or len(a.elts) != len(b.elts) or not a.elts:
        return None
    if any(isinstance(x, ast.Starred) for x in a.elts + b.elts):
        return None
    d = getattr(n, "_pairwise", None)
    if d is None:
        cs = [ast.copy_location(ast.Compare(left=x, ops=[ast.Eq()], comparators=[y]), n) for x, y in zip(a.elts, b.elts)]
        d = cs[0] if len(cs) == 1 else ast.copy_location(ast.BoolOp(op=ast.And(), values=cs), n)
        if isinstance(n.ops[0], ast.NotEq):
            d = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=d), n)
        n._pairwise = d
    return d


def fmtfield(fld):
    """'a.b[c]' -> 'a', [(True, 'b'), (False, 'c')]"""
    import _string

    first, rest = _string.formatter_field_name_split(fld)
    return str(first), list(rest)


class Interp(object):
    def __init__(self, prog, policy):
        self.p = prog
        self.pol = policy
        self.frames = []
        self.sinks = []
        self.trydepth = 0
        self.closures = {}
        self.steps = 0
        self.covered = set()  # functions analysed
        self.sites = 0
        self.gcache = {}
        self.maxstates = 0
        self.lossy = 0
        self.puts = {}
        self.iterating = []
        self.literal_len = {}
        self.live_iter = {}

    # ------------------------------------------------------------------ run
    def run(self, fi, binds=None, pre=None, facts=None, truth=False):
        """Analyse function fi with the given parameter terms."""
        st = St({}, {}, {}, dict(facts or {}), ())
        if pre is not None:
            st = pre(st)
        env = {}
        binds = dict(binds or {})
        names = list(fi.params) + list(fi.kwonly)
        if fi.vararg:
            names.append(fi.vararg)
        if fi.kwarg:
            names.append(fi.kwarg)
        for n in names:
            if n in binds:
                env[n] = binds[n]
            elif n == "self" and fi.cls is not None:
                env[n] = sym("self")
            elif n == "endpoint_context":
                env[n] = CTX
            else:
                env[n] = sym(n)
        if fi.cls is not None and not fi.static and names:
            s = env.get(names[0])
            if s is not None and s not in self.pol.types:
                self.pol.types[s] = fi.cls.qual
        sink = []
        self.sinks.append(sink)
        self.frames.append(Frame(fi, fi.module, fi.cls, fi.node, None))
        self.covered.add(fi.qual)
        flow = self.block(fi.node.body, st.withenv(env), frozenset())
        outs = []
        rets = [(s, v) for s, v in flow.ret] + [(s, NONE) for s in flow.next]
        if truth:
            rets = [(s2, const(b)) for s, v in rets for s2, b in self.fork(s, v)]
        self.sinks.pop()
        rets = self.merge_vals([(s.withenv({}), v) for s, v in rets])
        for s, v in rets:
            outs.append(Outcome("return", s, v))
        for s, e in self.merge_vals([(s.withenv({}), e) for s, e in sink]):
            outs.append(Outcome("raise", s, e))
        self.frames.pop()
        return outs

    # ------------------------------------------------------------ utilities
    def site(self, node):
        f = self.frames[-1]
        return "%s:%s (%s)" % (
            relpath(f.module.path),
            getattr(node, "lineno", "?"),
            f.fi.short if f.fi is not None else "<nested>",
        )

    def stack(self):
        return tuple(f.fi.short if f.fi is not None else "<nested>" for f in self.frames)

    def tick(self):
        self.steps += 1
        if self.steps > self.pol.maxsteps:
            raise Broken("analysis budget exceeded (%d steps)" % self.steps)

    def alloc(self, st, node, kind, cls, layers):
        f = self.frames[-1]
        base = "%s:%s:%s" % (
            f.module.name.rpartition(".")[2],
            getattr(node, "lineno", 0),
            getattr(node, "col_offset", 0),
        )
        if len(self.frames) > 1:
            cs = tuple(fr.callsite for fr in self.frames[1:])
            base += "/%x" % (hash(cs) & 0xFFFFFF)
        n = 0
        t = mk("alloc", base)
        while t in st.heap:
            n += 1
            t = mk("alloc", "%s~%d" % (base, n))
        return st.setheap(t, Obj(kind, cls, layers)), t

    def obj(self, st, t):
        if t.k == "alloc":
            return st.heap.get(t)
        return None

    def typeof(self, st, t):
        r = self.pol.types.get(t)
        if r is not None:
            return r
        if t.k == "alloc":
            o = st.heap.get(t)
            return o.cls if o is not None else None
        if t.k == "attr":
            r = ATTR_TYPES.get(t.a[1])
            if r:
                return r
            if t.a[1] == "endpoint":
                return None
        if t.k == "item" and is_const(t.a[1]):
            return ITEM_TYPES.get(cval(t.a[1]))
        if t.k == "elem" and t.a[0].k == "attr":
            return ELEM_TYPES.get(t.a[0].a[1])
        if t.k == "call":
            return CALL_TYPES.get(t.a[0])
        if t.k == "sym":
            return PARAM_TYPES.get(t.a[0])
        return None

    # ------------------------------------------------------------- garbage
    def lost(self):
        self.lossy += 1
        if self.pol.strict:
            raise Lossy()

    def gc(self, st, val=None):
        if self.pol.nogc:
            return st
        return self.collect(st, val)

    def collect(self, st, val=None):
        """drop allocations made since the current frame was entered that
        nothing refers to any more"""
        fr = self.frames[-1]
        base = fr.base
        cand = [t for t in st.heap if t not in base and t.a[0][:2] != "G:"]
        if not cand:
            return st
        live = set(base)
        work = []

        def add(t):
            for a in allocs_in(t):
                if a not in seen:
                    seen.add(a)
                    work.append(a)

        seen = set()
        for v in st.env.values():
            add(v)
        for v in fr.roots:
            add(v)
        if val is not None:
            add(val)
        for e in st.trace:
            if e.recv is not None:
                add(e.recv)
            if e.res is not None:
                add(e.res)
            for _, v in e.args:
                add(v)
        byb = {}
        for k, v in st.ov.items():
            bs = allocs_in(k[1])
            if not bs:
                add(v)
                if isinstance(k[2], T):
                    add(k[2])
            else:
                for b in bs:
                    byb.setdefault(b, []).append((k, v))
        for b in base:
            if b not in seen:
                seen.add(b)
                work.append(b)
        while work:
            a = work.pop()
            if a.k == "closure":
                for v in self.closures[a][1].values():
                    add(v)
                continue
            o = st.heap.get(a)
            if o is not None:
                for ly in o.layers:
                    for x in ly[1:]:
                        if isinstance(x, T):
                            add(x)
            for k, v in byb.get(a, ()):
                add(v)
                if isinstance(k[2], T):
                    add(k[2])
        dead = [t for t in cand if t not in seen]
        if not dead:
            return st
        dead = set(dead)
        heap = {k: v for k, v in st.heap.items() if k not in dead}
        ov = st.ov
        if any(allocs_in(k[1]) & dead for k in ov):
            ov = {k: v for k, v in ov.items() if not (allocs_in(k[1]) & dead)}
        facts = st.facts
        drop = [
            a
            for a in facts
            if any(isinstance(x, T) and (allocs_in(x) & dead) for x in a[1:])
        ]
        if drop:
            facts = {k: v for k, v in facts.items() if k not in set(drop)}
        return St(st.env, heap, ov, facts, st.trace)

    # ------------------------------------------------------------- merging
    def merge(self, sts, live=None):
        if live is not None and "*" not in live:
            out = []
            for s in sts:
                e = {k: v for k, v in s.env.items() if k in live or k == "self" or k[:2] == "__"}
                out.append(s if len(e) == len(s.env) else s.withenv(e))
            sts = [self.gc(s) for s in out] if len(out) > 1 else out
        if len(sts) < 2:
            return sts
        return [s for s, _ in self.merge_vals([(s, None) for s in sts])]

    def merge_vals(self, pairs):
        if len(pairs) > self.maxstates:
            self.maxstates = len(pairs)
        if len(pairs) < 2:
            return pairs
        pairs = self.fuse_get(pairs)
        groups = {}
        order = []
        for s, v in pairs:
            key = (
                v,
                frozenset(s.env.items()),
                frozenset(s.heap.items()),
                frozenset(s.ov.items()),
                tuple(e.key for e in s.trace),
            )
            g = groups.get(key)
            if g is None:
                groups[key] = g = []
                order.append(key)
            g.append((s, v))
        out = []
        for key in order:
            g = groups[key]
            if len(g) == 1:
                out.append(g[0])
            else:
                out.extend(self.fuse(g))
        if len(out) > self.pol.widen // 3 and os.environ.get("SA_DEBUG"):
            print("NEAR %d of %d" % (len(out), self.pol.widen), self.stack())
        if len(out) > self.pol.widen:
            out = self.widen_states(out)
        return out

    def fuse_get(self, pairs):
        """x[k] where k is in x and None where it is not: that is x.get(k)"""
        no, yes = {}, {}
        for i, (s, v) in enumerate(pairs):
            if v is NONE or NONE in s.env.values():
                for a, b in s.facts.items():
                    if a[0] == "IN" and b is False and is_const(a[1]) and a[2].k != "lit":
                        no.setdefault(a, []).append(i)
        if not no:
            return pairs
        for i, (s, v) in enumerate(pairs):
            for a, b in s.facts.items():
                if b is True and a in no:
                    yes.setdefault(a, []).append(i)
        gone = set()
        pairs = list(pairs)
        for a in no:
            if a not in yes:
                continue
            t = item(a[2], a[1])
            idx = {}
            nn = lambda x: NONE if x is t else x

            def key(s, v):
                return (nn(v), frozenset((n, nn(x)) for n, x in s.env.items()), frozenset(s.heap.items()), frozenset(s.ov.items()),
                        tuple(e.key for e in s.trace), frozenset((b, c) for b, c in s.facts.items() if b != a))

            for i in yes[a]:
                s, v = pairs[i]
                if i not in gone and (v is t or t in s.env.values()):
                    idx.setdefault(key(s, v), i)
            if not idx:
                continue
            for j in no[a]:
                if j in gone:
                    continue
                i = idx.get(key(*pairs[j]))
                if i is not None and i not in gone and i != j:
                    s, v = pairs[i]
                    ns = self._with(s, pairs[j][0], {b: c for b, c in s.facts.items() if b != a})
                    pairs[i] = (ns, v)
                    gone.add(j)
        return [x for i, x in enumerate(pairs) if i not in gone]

    def phi(self, vals):
        alts = []
        for v in vals:
            for x in v.a if v.k == "phi" else (v,):
                if x not in alts:
                    alts.append(x)
        if len(alts) == 1:
            return alts[0]
        if len(alts) > 8:
            alts = [mk("sym", "many:" + self.site(self.frames[-1].node))]
            return alts[0]
        return mk("phi", *sorted(alts, key=show))

    def widen_states(self, pairs):
        """too many states at a join: states with the same trace (and the same
        kept facts) are joined value by value"""
        if os.environ.get("SA_DEBUG"):
            print("WIDEN", len(pairs), self.stack())
            for z in diffstates(pairs):
                print("   ", z)
        self.lost()
        keep = self.pol.keep
        groups = {}
        for s, v in pairs:
            kk = frozenset(i for i in s.facts.items() if keep is not None and keep(i[0]))
            key = (
                kk,
                tuple(e.key for e in s.trace),
                v if v is None or v.k in ("const", "exc", "alloc") else v.k,
                frozenset(k for k in s.env),
            )
            groups.setdefault(key, []).append((s, v))
        out = []
        for key, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            s0, v0 = g[0]
            env = {k: self.phi([s.env[k] for s, _ in g]) for k in s0.env}
            v = None if v0 is None else self.phi([x for _, x in g])
            heap = {}
            for s, _ in g:
                for t, o in s.heap.items():
                    if t in heap:
                        continue
                    os_ = [z.heap[t] for z, _ in g if t in z.heap]
                    if all(x == o for x in os_):
                        heap[t] = o
                    elif o.kind in ("dict", "inst"):
                        common = [ly for ly in o.layers if all(ly in x.layers for x in os_)]
                        extra = ("s", mk("sym", "join:" + show(t)))
                        heap[t] = Obj(o.kind, o.cls, tuple(common) + (extra,))
                    else:
                        heap[t] = Obj(o.kind, o.cls, (("s", mk("sym", "join:" + show(t))),))
            ov = {}
            for s, _ in g:
                for k in s.ov:
                    if k in ov:
                        continue
                    vs = []
                    for z, _ in g:
                        vs.append(z.ov.get(k) or (attr(k[1], k[2]) if k[0] == "a" else item(k[1], k[2])))
                    ov[k] = self.phi(vs)
            facts = {
                a: b for a, b in s0.facts.items() if all(z.facts.get(a) is b for z, _ in g[1:])
            }
            cur = s0
            for z, _ in g[1:]:
                cur = self._with(cur, z, facts)
            out.append((St(env, heap, ov, facts, cur.trace), v))
        if len(out) > 60 * self.pol.widen:
            raise Broken("state explosion: %d states at a join" % len(out))
        return out

    def fuse(self, g):
        """States equal up to facts."""
        v = g[0][1]
        pool = {}
        for s, _ in g:
            fs = frozenset(s.facts.items())
            if fs in pool:
                pool[fs] = self._with(pool[fs], s, pool[fs].facts)
            else:
                pool[fs] = s
        changed = True
        while changed and len(pool) > 1:
            changed = False
            sets = list(pool)
            common = frozenset.intersection(*sets)
            for fs in sets:
                if fs not in pool:
                    continue
                for lit in fs - common:
                    if lit[1] is not True and lit[1] is not False:
                        continue
                    fl = (fs - {lit}) | {(lit[0], not lit[1])}
                    if fl in pool and fl != fs:
                        a, b = pool.pop(fs), pool.pop(fl)
                        nf = fs - {lit}
                        ns = self._with(a, b, dict(nf))
                        if nf in pool:
                            ns = self._with(pool[nf], ns, ns.facts)
                        pool[nf] = ns
                        changed = True
                        break
            # subsumption
            if len(pool) <= 80:
                sets = sorted(pool, key=len)
                drop = set()
                for i, a in enumerate(sets):
                    if a in drop:
                        continue
                    for b in sets[i + 1 :]:
                        if b not in drop and a < b:
                            pool[a] = self._with(pool[a], pool[b], pool[a].facts)
                            drop.add(b)
                for b in drop:
                    del pool[b]
                    changed = True
        res = list(pool.values())
        if len(res) > self.pol.cap:
            self.lost()
            if os.environ.get("SA_DEBUG"):
                print("FORGET", len(res), self.stack())
            keep = self.pol.keep
            sub = {}
            for s in res:
                kk = frozenset(i for i in s.facts.items() if keep is not None and keep(i[0]))
                sub.setdefault(kk, []).append(s)
            res = []
            for kk, ss in sub.items():
                res.extend(self.forget(ss, max(self.pol.cap // len(sub), 1)))
        return [(s, v) for s in res]

    def forget(self, ss, limit):
        """states equal up to facts, too many of them: the facts that split them
        most are forgotten, as few of them as needed"""
        keep = self.pol.keep
        sets = [frozenset(s.facts.items()) for s in ss]
        while len(set(sets)) > limit:
            common = frozenset.intersection(*sets)
            atoms = []
            for fs in sets:
                for a, _ in fs - common:
                    if a not in atoms and not (keep is not None and keep(a)):
                        atoms.append(a)
            if not atoms:
                break
            best = None
            distinct = set(sets)
            for a in atoms[:80]:
                n = len({frozenset(i for i in fs if i[0] != a) for fs in distinct})
                if best is None or n <= best[0]:
                    best = (n, a)
            sets = [frozenset(i for i in fs if i[0] != best[1]) for fs in sets]
        pool = {}
        for s, fs in zip(ss, sets):
            if fs in pool:
                pool[fs] = self._with(pool[fs], s, pool[fs].facts)
            else:
                pool[fs] = s.setfacts(dict((a, b) for a, b in s.facts.items() if (a, b) in fs))
        return list(pool.values())

    def _with(self, a, b, facts):
        tr = []
        for x, y in zip(a.trace, b.trace):
            if x.facts is y.facts:
                tr.append(x)
            else:
                f = {k: v for k, v in x.facts.items() if y.facts.get(k) is v}
                tr.append(x if len(f) == len(x.facts) else x.with_facts(f))
        return St(a.env, a.heap, a.ov, facts, tuple(tr))

    # ------------------------------------------------------------ facts
    def objtruth(self, st, t):
        o = st.heap.get(t)
        if o is None:
            return None
        if o.kind == "inst":
            return True
        spreads = []
        for ly in o.layers:
            if ly[0] in ("kv", "i"):
                return True
            spreads.append(ly[1])
        if not spreads:
            return False
        if len(spreads) == 1:
            return self.decide(st, ("T", spreads[0]))
        rs = [self.decide(st, ("T", x)) for x in spreads]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None

    def decide(self, st, at):
        F = st.facts
        k = at[0]
        if k == "T":
            t = at[1]
            tk = t.k
            if tk == "const":
                return bool(t.a[1])
            if tk == "cond":
                d = self.decide(st, t.a[0])
                return None if d is None else (d == t.a[1])
            if tk == "not":
                d = self.decide(st, ("T", t.a[0]))
                return None if d is None else not d
            if tk == "alloc":
                return self.objtruth(st, t)
            if tk == "phi" and at not in F:
                ds = {self.decide(st, ("T", x)) for x in t.a}
                return ds.pop() if len(ds) == 1 else None
            if tk == "tuple":
                return bool(t.a)
            if tk == "lit":
                return bool(t.a[1])
            if tk == "op" and t.a[0] == "range" and all(is_const(x) and isinstance(x.a[1], int) for x in t.a[1:]):
                try:
                    return bool(range(*[x.a[1] for x in t.a[1:]]))
                except (ValueError, OverflowError, TypeError):
                    return None
            if tk in ("func", "klass", "mod", "closure", "ext", "exc"):
                return True
            if t in self.pol.types and t.k == "sym":
                return True
            r = F.get(at)
            if r is not None:
                return r
            v = F.get(("VAL", t))
            if v is not None:
                return bool(v.a[1])
            if F.get(("NONE", t)):
                return False
            if tk == "call" and (t.a[0] in ("token_urlsafe", "token_hex", "urandom", "hexdigest") or error_message(t)):
                return True
            if tk == "item" and F.get(("IN", t.a[1], t.a[0])) is False:
                return False
            if tk == "op" and t.a[0] == "fmt":
                for x in t.a[1:]:
                    if is_const(x) and x.a[1]:
                        return True
            return None
        if k == "NONE":
            t = at[1]
            if t.k == "const":
                return t.a[1] is None
            if t.k in ("alloc", "tuple", "func", "klass", "mod", "cond", "not", "closure", "lit", "exc"):
                return False
            if t in self.pol.types and t.k == "sym":
                return False
            if t.k == "op":
                if t.a[0] in ("fmt", "add", "sub", "len", "int", "str", "copy"):
                    return False
            if t.k == "call" and (t.a[0] in NEVER_NONE or error_message(t)):
                return False
            r = F.get(at)
            if r is not None:
                return r
            if F.get(("T", t)):
                return False
            v = F.get(("VAL", t))
            if v is not None:
                return v.a[1] is None
            if t.k == "item" and F.get(("IN", t.a[1], t.a[0])) is False:
                return True
            if t.k == "elem":
                return None
            return None
        if k == "EQ":
            a, b = at[1], at[2]
            if a is b:
                return True
            if a.k == "const" and b.k == "const":
                return a.a[1] == b.a[1]
            if b.k == "const" and a.k in ("alloc", "tuple", "func", "klass", "closure", "mod"):
                if b.a[1] is None or isinstance(b.a[1], (str, int, bool)):
                    return False
            r = F.get(at)
            if r is not None:
                return r
            if b.k == "const":
                v = F.get(("VAL", a))
                if v is not None:
                    return v.a[1] == b.a[1]
                if F.get(("T", a)) is not None and F[("T", a)] != bool(b.a[1]):
                    return False
                if b.a[1] is not None and self.decide(st, ("NONE", a)):
                    return False
                if b.a[1] is True or b.a[1] is False:
                    d = self.decide(st, ("T", a))
                    if d is not None and d != b.a[1]:
                        return False
                    if a.k in ("cond", "not") and d is not None:
                        return d == b.a[1]
                for x, yes in F.items():
                    if x[0] == "IN" and x[1] is a and x[2].k == "lit" and (b in x[2].a[1]) != yes:
                        if not yes or all(is_const(e) for e in x[2].a[1]):
                            return False
            if a.k == "lit" and b.k == "lit":
                if all(is_const(x) for x in a.a[1] + b.a[1]):
                    return a.a == b.a
                pairs = self.eqpairs(at)
                if pairs is not None:
                    ds = [self.decide(st, x) for x in pairs]
                    if False in ds:
                        return False
                    if None not in ds:
                        return True
            return None
        if k == "LT":
            a, b = at[1], at[2]
            if a is b:
                return False
            if a.k == "const" and b.k == "const":
                try:
                    return a.a[1] < b.a[1]
                except TypeError:
                    return None
            r = F.get(at)
            if r is not None:
                return r
            if F.get(("LT", b, a)):
                return False
            va, vb = F.get(("VAL", a)), F.get(("VAL", b))
            if va is not None and b.k == "const":
                va, vb = va, b
            elif vb is not None and a.k == "const":
                va, vb = a, vb
            if va is not None and vb is not None:
                try:
                    return va.a[1] < vb.a[1]
                except TypeError:
                    return None
            return None
        if k == "IN":
            x, c = at[1], at[2]
            if c.k == "lit":
                if x.k == "const":
                    if all(is_const(e) for e in c.a[1]):
                        return x in c.a[1]
                    if x in c.a[1]:
                        return True
                    return F.get(at)
                if x in c.a[1]:
                    return True
                if not c.a[1]:
                    return False
                v = F.get(("VAL", x))
                if v is not None and all(is_const(e) for e in c.a[1]):
                    return v in c.a[1]
            if c.k == "const" and x.k == "const":
                try:
                    return x.a[1] in c.a[1]
                except TypeError:
                    return None
            if x.k == "elem" and x.a[0] is c:
                return True
            r = F.get(at)
            if r is not None:
                return r
            if x.k == "const":
                v = F.get(("SEQ", c))
                if v is not None:
                    return x in v.a[1]
            it = item(c, x)
            ov = st.ov.get(("i", c, x))
            if ov is not None:
                return ov is not DELETED
            if F.get(("T", it)) or F.get(("NONE", it)) is False or F.get(("VAL", it)) is not None:
                v = F.get(("VAL", it))
                if v is None or v.a[1] is not None:
                    return True
            if F.get(("T", c)) is False:
                return False
            if self.decide(st, ("NONE", c)):
                return False
            return None
        if k == "ISA":
            t, cn = at[1], at[2]
            r = F.get(at)
            if r is not None:
                return r
            ty = None
            if error_message(t) and cn.rpartition(".")[2] in ("error_cls", "ResponseMessage", "Message", t.a[0]):
                return True
            if t.k == "alloc":
                o = st.heap.get(t)
                if o is not None:
                    if o.cls:
                        ty = o.cls
                    else:
                        if cn in ("dict", "list", "set", "str", "tuple", "int", "bytes"):
                            return o.kind == cn
                        if cn.rpartition(".")[2][:1].isupper():
                            return False
            if t.k == "const":
                if cn in ("str", "int", "bool", "dict", "list", "bytes", "tuple"):
                    return type(t.a[1]).__name__ == cn
                return False
            if t.k == "exc" and t.a[0] != "?":
                ty = t.a[0]
            if ty is not None:
                if cn in ("dict",) and self.p.is_sub(ty, MESSAGE):
                    return False
                return self.p.is_sub(ty, cn)
            for f, v in F.items():
                if f[0] == "ISA" and f[1] is t:
                    s = self.p.is_sub(f[2], cn)
                    if v and s:
                        return True
                    if v and s is False and self.p.is_sub(cn, f[2]) is False:
                        return False
                    if not v and self.p.is_sub(cn, f[2]):
                        return False
            if F.get(("T", t)) is False and F.get(("NONE", t)):
                return False
            if self.decide(st, ("NONE", t)):
                return False
            return None
        return F.get(at)

    def eqpairs(self, at):
        """(a, b) == (c, d) -> [a == c, b == d]"""
        if at[0] == "EQ" and at[1].k == at[2].k == "lit" and at[1].a[0] == at[2].a[0] == "seq":
            xs, ys = at[1].a[1], at[2].a[1]
            if len(xs) == len(ys) and xs:
                return [self._eqatom(x, y) for x, y in zip(xs, ys)]
        return None

    def assume(self, st, at, val):
        d = self.decide(st, at)
        if d is not None:
            return st if d == val else None
        pairs = self.eqpairs(at)
        if pairs is not None:
            if val:
                for x in pairs:
                    st = self.assume(st, x, True)
                    if st is None:
                        return None
                return st
            open_ = [x for x in pairs if self.decide(st, x) is None]
            if len(open_) == 1:
                return self.assume(st, open_[0], False)
        if at[0] == "T" and at[1].k == "cond":
            c = at[1]
            return self.assume(st, c.a[0], c.a[1] == val)
        if at[0] == "T" and at[1].k == "not":
            return self.assume(st, ("T", at[1].a[0]), not val)
        if at[0] == "T" and at[1].k == "alloc":
            o = st.heap.get(at[1])
            if o is not None:
                sp = [ly[1] for ly in o.layers if ly[0] == "s"]
                if len(sp) == 1:
                    return self.assume(st, ("T", sp[0]), val)
                if not val:
                    for x in sp:
                        st = self.assume(st, ("T", x), False)
                        if st is None:
                            return None
                    return st
        f = dict(st.facts)
        f[at] = val
        if at[0] == "EQ" and val and at[2].k == "const":
            f[("VAL", at[1])] = at[2]
        if at[0] == "EQ" and val:
            for x, y in (at[1:], at[2:0:-1]):
                if x.k == "lit" and y.k != "lit" and x.a[1] and all(is_const(z) for z in x.a[1]):
                    for z in x.a[1]:
                        if F_get_false(f, ("IN", z, y)):
                            return None
                    f[("SEQ", y)] = x
        if at[0] == "T" and val and at[1].k == "item":
            f[("IN", at[1].a[1], at[1].a[0])] = True
        if at[0] == "NONE" and not val and at[1].k == "item":
            f[("IN", at[1].a[1], at[1].a[0])] = True
        return st.setfacts(f)

    def both(self, st, at):
        """[(state, bool)] for an atom."""
        d = self.decide(st, at)
        if d is not None:
            return [(st, d)]
        out = []
        a = self.assume(st, at, True)
        if a is not None:
            out.append((a, True))
        b = self.assume(st, at, False)
        if b is not None:
            out.append((b, False))
        return out

    def fork(self, st, t):
        """truthiness of a term"""
        if t.k == "cond":
            return [(s, b == t.a[1]) for s, b in self.both(st, t.a[0])]
        if t.k == "not":
            return [(s, not b) for s, b in self.fork(st, t.a[0])]
        if t.k == "op" and t.a[0] in ("len", "bool", "enumerate"):
            return self.fork(st, t.a[1])
        if t.k == "op" and t.a[0] in ("diff", "inter"):
            pos = t.a[0] == "inter"

            def pred(s, e):
                return [(s2, b == pos) for s2, b in self.contains(s, e, t.a[2])]

            return [(s, v is TRUE) for s, v in self.quant(st, t.a[1], pred, False)]
        return self.both(st, ("T", t))

    # ------------------------------------------------------- value helpers
    def freeze(self, st, t):
        """closed literal containers become comparable literal terms"""
        if t.k == "alloc":
            o = st.heap.get(t)
            if o is not None and o.kind in ("list", "set") and all(l[0] == "i" for l in o.layers):
                xs = tuple(l[1] for l in o.layers)
                if o.kind == "set":
                    xs = tuple(sorted(set(xs), key=show))
                    if len(xs) > 1 and not all(is_const(x) for x in xs):
                        return mk("lit", "set", xs)
                return mk("lit", "seq", xs)
            if o is not None and o.kind in ("list", "set", "dict"):
                if len(o.layers) == 1 and o.layers[0][0] == "s":
                    return self.freeze(st, o.layers[0][1])
        if t.k == "tuple":
            return mk("lit", "seq", t.a)
        if t.k == "op" and t.a[0] == "coll":
            return self.freeze(st, t.a[1])
        return t

    def is_empty_lit(self, st, t):
        if t.k == "alloc":
            o = st.heap.get(t)
            return o is not None and o.kind in ("dict", "list", "set") and not o.layers and not o.cls
        if t.k == "tuple":
            return not t.a
        return False

    def boolcall(self, t):
        """is t known to be a bool?"""
        if t.k in ("cond", "not"):
            return True
        if t.k == "call":
            name = t.a[0]
            c = self.p.method_index.get(name)
            if c and name not in GENERIC_METHODS:
                return all(self.p.returns_bool(f) for f in c)
            if name in ("isinstance", "hasattr", "issubset", "startswith", "endswith", "bool", "issuperset"):
                return True
        return False

    def eqcond(self, st, a, b, pol=True):
        if self.is_empty_lit(st, b):
            if is_const(a):
                return const(not pol)
            if a.k != "alloc" and self.decide(st, ("T", a)) is False:
                return self.condterm(st, ("NONE", a), not pol)
            return mk("not", a) if pol else (a if a.k in ("cond", "not") else mk("not", mk("not", a)))
        if self.is_empty_lit(st, a):
            return self.eqcond(st, b, a, pol)
        a, b = self.freeze(st, a), self.freeze(st, b)
        if a.k == "const" and b.k != "const":
            a, b = b, a
        if b.k == "const":
            if b.a[1] is None:
                return self.condterm(st, ("NONE", a), pol)
            if isinstance(b.a[1], bool) and self.boolcall(a):
                want = b.a[1] == pol
                return a if want else mk("not", a)
            if a.k == "op" and a.a[0] == "len" and b.a[1] == 0 and not isinstance(b.a[1], bool):
                return mk("not", a.a[1]) if pol else mk("not", mk("not", a.a[1]))
        elif show(b) < show(a):
            a, b = b, a
        return self.condterm(st, ("EQ", a, b), pol)

    def condterm(self, st, at, pol):
        d = self.decide(st, at)
        if d is not None:
            return const(d == pol)
        return mk("cond", at, pol)

    def ltcond(self, st, a, b, pol=True):
        # len(x) > 0 and friends are emptiness tests
        if a.k == "const" and b.k == "op" and b.a[0] == "len":
            if cval(a) == 0:  # 0 < len(x)
                return mk("not", mk("not", b.a[1])) if pol else mk("not", b.a[1])
        if b.k == "const" and a.k == "op" and a.a[0] == "len":
            if cval(b) == 1:  # len(x) < 1
                return mk("not", a.a[1]) if pol else mk("not", mk("not", a.a[1]))
        for x, y, sub in ((a, b, False), (b, a, True)):
            pass
        if self.setlike(st, a) or self.setlike(st, b):
            # strict subset: treat as uninterpreted
            return self.condterm(st, ("PSUB", self.freeze(st, a), self.freeze(st, b)), pol)
        return self.condterm(st, ("LT", a, b), pol)

    def setlike(self, st, t):
        if t.k == "alloc":
            o = st.heap.get(t)
            return o is not None and o.kind == "set"
        if t.k == "op" and t.a[0] in ("diff", "inter", "union", "keys"):
            return True
        return False

    def contains(self, st, k, c):
        """fork on `k in c`"""
        if c.k == "alloc":
            o = st.heap.get(c)
            if o is not None and ("i", c, k) in st.ov:
                return [(st, st.ov[("i", c, k)] is not DELETED)]
            if o is not None and o.kind in ("dict", "inst"):
                cur = [st]
                out = []
                for ly in reversed(o.layers):
                    if ly[0] == "kv":
                        if ly[1] is k:
                            if ly[2] is DELETED:
                                out.extend((s, False) for s in cur)
                            else:
                                out.extend((s, True) for s in cur)
                            return out
                        if not (is_const(ly[1]) and is_const(k)):
                            # symbolic key: may be equal
                            nxt = []
                            for s in cur:
                                for s2, b in self.both(s, self._eqatom(ly[1], k)):
                                    if b:
                                        out.append((s2, ly[2] is not DELETED))
                                    else:
                                        nxt.append(s2)
                            cur = nxt
                    elif ly[0] == "s":
                        nxt = []
                        for s in cur:
                            for s2, b in self.contains(s, k, ly[1]):
                                if b:
                                    out.append((s2, True))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                out.extend((s, False) for s in cur)
                return out
            if o is not None and o.kind in ("list", "set"):
                fz = self.freeze(st, c)
                if fz.k == "lit":
                    return self.contains(st, k, fz)
                if not o.layers:
                    return [(st, False)]
                cur = [st]
                out = []
                for ly in o.layers:
                    nxt = []
                    for s in cur:
                        rs = (
                            self.both(s, self._eqatom(ly[1], k))
                            if ly[0] == "i"
                            else self.contains(s, k, ly[1])
                        )
                        for s2, b in rs:
                            if b:
                                out.append((s2, True))
                            else:
                                nxt.append(s2)
                    cur = nxt
                out.extend((s, False) for s in cur)
                return out
        if c.k in ("tuple",):
            c = mk("lit", "seq", c.a)
        if c.k == "lit":
            if len(c.a[1]) == 1:
                return self.both(st, self._eqatom(k, c.a[1][0]))
            if not c.a[1]:
                return [(st, False)]
            if not all(is_const(x) for x in c.a[1]):
                cur, out = [st], []
                for e in c.a[1]:
                    nxt = []
                    for s in cur:
                        for s2, b in self.both(s, self._eqatom(e, k)):
                            (out if b else nxt).append((s2, True) if b else s2)
                    cur = nxt
                out.extend((s, False) for s in cur)
                return out
        if c.k == "op" and c.a[0] in ("keys", "coll"):
            return self.contains(st, k, c.a[1])
        if c.k == "op" and c.a[0] == "union":
            out = []
            for s, b in self.contains(st, k, c.a[1]):
                if b:
                    out.append((s, True))
                else:
                    out.extend(self.contains(s, k, c.a[2]))
            return out
        if c.k == "op" and c.a[0] == "inter":
            out = []
            for s, b in self.contains(st, k, c.a[1]):
                if not b:
                    out.append((s, False))
                else:
                    out.extend(self.contains(s, k, c.a[2]))
            return out
        if c.k == "op" and c.a[0] == "diff":
            out = []
            for s, b in self.contains(st, k, c.a[1]):
                if not b:
                    out.append((s, False))
                else:
                    out.extend((s2, not b2) for s2, b2 in self.contains(s, k, c.a[2]))
            return out
        return self.both(st, ("IN", k, c))

    def _eqatom(self, a, b):
        if a.k == "const" and b.k != "const":
            a, b = b, a
        if b.k == "const":
            if b.a[1] is None:
                return ("NONE", a)
        elif show(b) < show(a):
            a, b = b, a
        return ("EQ", a, b)

    MISSING = mk("missing")

    def lookup(self, st, base, key):
        """[(st, value|MISSING)]; on opaque containers the value may be absent
        (then it is represented by the same item term)."""
        ov = st.ov.get(("i", base, key))
        if ov is not None:
            return [(st, self.MISSING if ov is DELETED else ov)]
        o = self.obj(st, base)
        if o is not None:
            if o.kind in ("dict", "inst"):
                cur = [st]
                out = []
                layers = list(reversed(o.layers))
                for i, ly in enumerate(layers):
                    if ly[0] == "kv":
                        if ly[1] is key:
                            v = self.MISSING if ly[2] is DELETED else ly[2]
                            out.extend((s, v) for s in cur)
                            return out
                        if not (is_const(ly[1]) and is_const(key)):
                            nxt = []
                            for s in cur:
                                for s2, b in self.both(s, self._eqatom(ly[1], key)):
                                    if b:
                                        out.append(
                                            (s2, self.MISSING if ly[2] is DELETED else ly[2])
                                        )
                                    else:
                                        nxt.append(s2)
                            cur = nxt
                    else:
                        x = ly[1]
                        if i == len(layers) - 1 and x.k != "alloc":
                            for s in cur:
                                out.extend(self.lookup(s, x, key))
                            return out
                        nxt = []
                        for s in cur:
                            for s2, b in self.contains(s, key, x):
                                if b:
                                    out.extend(self.lookup(s2, x, key))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                out.extend((s, self.MISSING) for s in cur)
                return out
            if o.kind in ("list", "set"):
                if is_const(key) and isinstance(cval(key), int):
                    if all(l[0] == "i" for l in o.layers):
                        try:
                            return [(st, o.layers[cval(key)][1])]
                        except IndexError:
                            return [(st, self.MISSING)]
                    if len(o.layers) == 1 and o.layers[0][0] == "s":
                        return self.lookup(st, o.layers[0][1], key)
                return [(st, item(base, key))]
        if base.k in ("tuple", "lit"):
            xs = base.a if base.k == "tuple" else base.a[1]
            if is_const(key) and isinstance(cval(key), int):
                try:
                    return [(st, xs[cval(key)])]
                except IndexError:
                    return [(st, self.MISSING)]
        if base.k == "const" and is_const(key):
            try:
                return [(st, const(cval(base)[cval(key)]))]
            except Exception:
                pass
        if base.k == "op" and base.a[0] == "copy":
            return self.lookup(st, base.a[1], key)
        if st.facts.get(("IN", key, base)) is False:
            return [(st, self.MISSING)]
        return [(st, item(base, key))]

    def getattr(self, st, base, name, node):
        ov = st.ov.get(("a", base, name))
        if ov is not None:
            return ov
        if base.k == "mod":
            return self.global_name(st, base.a[0], name)
        if base.k == "ext":
            d = self.p.canon(base.a[0] + "." + name)
            return self.ref(d)
        if name == "server_get" and base.k != "sym":
            return mk("sget", base)
        if base.k == "super":
            f = self.p.find_method(base.a[0], name, after=base.a[1])
            if f is not None:
                return mk("func", f.qual, base.a[2])
            return mk("meth", base, name)
        if base.k == "klass":
            q = base.a[0]
            f = self.p.find_method(q, name)
            if f is not None:
                return mk("func", f.qual, None if not f.classm else base)
            ci, e = self.p.find_attr(q, name)
            if e is not None:
                return self.global_expr(ci.module, e, "%s.%s" % (ci.qual, name))
            return attr(base, name)
        ty = self.typeof(st, base)
        if ty is not None:
            f = self.p.find_method(ty, name)
            if f is not None:
                if f.module.external:
                    return mk("meth", base, name)
                if f.prop:
                    return mk("prop", f.qual, base)
                return mk("func", f.qual, None if f.static else base)
            if not self.p.self_stored(ty, name):
                ci, e = self.p.find_attr(ty, name)
                if e is not None:
                    v = self.global_expr(ci.module, e, "%s.%s" % (ci.qual, name))
                    if v is not None and v.k in ("klass", "const", "alloc"):
                        return v
        o = self.obj(st, base)
        if o is not None and o.kind == "dict" and name not in GENERIC_METHODS:
            pass
        return attr(base, name)

    # --------------------------------------------------------- global names
    def ref(self, dotted):
        p = self.p
        if dotted in p.classes:
            return mk("klass", dotted)
        if dotted in p.funcs:
            return mk("func", dotted, None)
        if dotted in p.modules:
            return mk("mod", dotted)
        if "." in dotted:
            m, _, n = dotted.rpartition(".")
            mod = p.modules.get(m)
            if mod is not None and n in mod.globals:
                return self.global_expr(mod, mod.globals[n], dotted)
            ci = p.get_class(dotted)
            if ci is not None:
                return mk("klass", ci.qual)
        return mk("ext", dotted)

    def global_name(self, st, modname, name):
        mod = self.p.modules.get(modname)
        if mod is None:
            return mk("ext", modname + "." + name)
        d = self.p.resolve_local(mod, name)
        if d is None:
            sub = modname + "." + name
            if sub in self.p.modules:
                return mk("mod", sub)
            return mk("ext", modname + "." + name)
        return self.ref(d)

    def global_expr(self, mod, expr, qual):
        """Value of a module/class level assignment: constants and literal
        containers are represented as shared global objects."""
        if qual in self.gcache:
            return self.gcache[qual]
        self.gcache[qual] = mk("sym", "G:" + qual)
        v = None
        if isinstance(expr, ast.Constant):
            v = const(expr.value)
        elif isinstance(expr, (ast.Name, ast.Attribute)):
            d = self.p.resolve_expr_name(mod, expr)
            if d:
                v = self.ref(d)
        elif isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub):
            if isinstance(expr.operand, ast.Constant):
                v = const(-expr.operand.value)
        elif isinstance(expr, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
            v = mk("glob", qual)
        if v is None:
            v = mk("sym", "G:" + qual)
        self.gcache[qual] = v
        if v.k == "glob":
            v2 = self._glob_obj(mod, expr, qual)
            self.gcache[qual] = v2
            v = v2
        return v

    def _glob_obj(self, mod, expr, qual):
        def ev(e, path):
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, (ast.Name, ast.Attribute)):
                d = self.p.resolve_expr_name(mod, e)
                if d:
                    return self.ref(d)
                return mk("sym", "G:" + path)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(
                e.operand, ast.Constant
            ):
                return const(-e.operand.value)
            if isinstance(e, ast.Tuple):
                return mk("tuple", *[ev(x, path + "[%d]" % i) for i, x in enumerate(e.elts)])
            if isinstance(e, (ast.List, ast.Set)):
                t = mk("alloc", "G:" + path)
                self.gobjs[t] = Obj(
                    "list" if isinstance(e, ast.List) else "set",
                    None,
                    tuple(("i", ev(x, path + "[%d]" % i)) for i, x in enumerate(e.elts)),
                )
                return t
            if isinstance(e, ast.Dict):
                t = mk("alloc", "G:" + path)
                ly = []
                for kx, vx in zip(e.keys, e.values):
                    if kx is None:
                        ly.append(("s", ev(vx, path + ".**")))
                    else:
                        kk = ev(kx, path + ".key")
                        ly.append(("kv", kk, ev(vx, path + "[%s]" % show(kk))))
                self.gobjs[t] = Obj("dict", None, tuple(ly))
                return t
            return mk("sym", "G:" + path)

        return ev(expr, qual)

    gobjs = {}

    def need_heap(self, st, t):
        """make shared global containers visible in the state's heap"""
        if t.k == "alloc" and t not in st.heap and t in self.gobjs:
            st = st.setheap(t, self.gobjs[t])
            for ly in self.gobjs[t].layers:
                for x in ly[1:]:
                    if isinstance(x, T):
                        st = self.need_heap(st, x)
        elif t.k == "tuple":
            for x in t.a:
                st = self.need_heap(st, x)
        return st

    # ------------------------------------------------------------- raising
    def throw(self, st, exc):
        if self.sinks:
            self.sinks[-1].append((st, exc))

    def may_raise(self, st, fi=None, name=None):
        """an uninterpreted call inside a try block may fail; exception classes
        defined by the program itself are only possible when the callee can
        (transitively) raise them explicitly"""
        if self.trydepth > 0 or self.pol.raise_all:
            if fi is not None:
                own = self.p.raises(fi)
            elif name is not None and name in self.p.method_index and name not in GENERIC_METHODS:
                own = frozenset().union(*[self.p.raises(f) for f in self.p.method_index[name]])
            else:
                own = frozenset()
            self.throw(st, mk("exc", "?", tuple(sorted(own))))

    # ----------------------------------------------------------- statements
    def block(self, stmts, st, live):
        """live: names needed after the block"""
        flow = Flow()
        cur = [st]
        n = len(stmts)
        lv = [None] * (n + 1)
        lv[n] = live
        for i in range(n - 1, -1, -1):
            lv[i] = lv[i + 1] | loads(stmts[i])
        for i, s in enumerate(stmts):
            nxt = []
            for c in cur:
                self.tick()
                r = self.stmt(s, c, lv[i + 1])
                nxt.extend(r.next)
                flow.ret.extend(r.ret)
                flow.brk.extend(r.brk)
                flow.cont.extend(r.cont)
            compound = isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With))
            if len(nxt) > 1 and (compound or len(nxt) > len(cur)):
                cur = self.merge(nxt, lv[i + 1])
            else:
                cur = nxt
            if not cur:
                break
        flow.next = cur
        return flow

    def stmt(self, s, st, live):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Broken("unsupported statement %s at %s" % (type(s).__name__, self.site(s)))
        return m(s, st, live)

    def _n(self, sts):
        f = Flow()
        f.next = sts
        return f

    def s_Expr(self, s, st, live):
        if isinstance(s.value, ast.Constant):
            return self._n([st])
        if self.is_log(s.value):
            return self._n([st])
        return self._n([x for x, _ in self.ev(s.value, st)])

    def is_log(self, n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            b = n.func.value
            if isinstance(b, ast.Name) and b.id in LOGGERS:
                return True
            if isinstance(b, ast.Attribute) and b.attr in LOGGERS:
                return True
        return False

    def s_Pass(self, s, st, live):
        return self._n([st])

    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, s, st, live):
        for al in s.names:
            nm = al.asname or al.name.split(".")[0]
            tgt = al.name if al.asname else al.name.split(".")[0]
            st = st.setenv(nm, self.ref(self.p.canon(tgt)))
        return self._n([st])

    def s_ImportFrom(self, s, st, live):
        for al in s.names:
            base = s.module or ""
            if s.level:
                parts = self.frames[-1].module.name.split(".")
                parts = parts[: len(parts) - s.level]
                base = ".".join(parts + ([s.module] if s.module else []))
            st = st.setenv(al.asname or al.name, self.ref(self.p.canon(base + "." + al.name)))
        return self._n([st])

    def s_Assert(self, s, st, live):
        out = []
        for x, b in self.br(s.test, st):
            if b:
                out.append(x)
            else:
                self.throw(x, mk("exc", "AssertionError", ()))
        return self._n(out)

    def s_Delete(self, s, st, live):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    e = dict(x.env)
                    e.pop(t.id, None)
                    nxt.append(x.withenv(e))
                elif isinstance(t, ast.Subscript):
                    for x2, b in self.ev(t.value, x):
                        for x3, k in self.ev_index(t.slice, x2):
                            nxt.extend(self.del_item(x3, b, k, t))
                elif isinstance(t, ast.Attribute):
                    for x2, b in self.ev(t.value, x):
                        nxt.append(x2.setov(("a", b, t.attr), NONE))
                else:
                    nxt.append(x)
            cur = nxt
        return self._n(cur)

    def del_item(self, st, base, k, node):
        if self.trydepth > 0:
            out = []
            for s, b in self.contains(st, k, base):
                if b:
                    out.append(self._del(s, base, k, node))
                else:
                    self.throw(s, mk("exc", "KeyError", ()))
            return out
        return [self._del(st, base, k, node)]

    def _del(self, st, base, k, node):
        st = self.record(st, "delitem", "[]", base, (("key", k),), None, node)
        self.put(st, base, (("kv", k, DELETED),), node)
        o = self.obj(st, base)
        if o is not None and o.kind in ("dict", "inst"):
            return st.setheap(base, Obj(o.kind, o.cls, o.layers + (("kv", k, DELETED),)))
        if o is not None:
            return st
        return st.setov(("i", base, k), DELETED)

    def s_FunctionDef(self, s, st, live):
        return self._n([st.setenv(s.name, self.mkclosure(s, st))])

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, live):
        return self._n([st.setenv(s.name, mk("ext", "<local class %s>" % s.name))])

    def mkclosure(self, node, st):
        need = loads(node)
        env = {k: v for k, v in st.env.items() if k in need or k == "self"}
        f = self.frames[-1]
        key = (node, frozenset(env.items()))
        t = mk("closure", "%s:%d" % (f.module.name, node.lineno), hash(key))
        self.closures[t] = (node, env, f)
        return t

    def s_Return(self, s, st, live):
        f = Flow()
        if s.value is None:
            f.ret = [(st, NONE)]
        else:
            f.ret = list(self.ev(s.value, st))
            if self.frames and self.frames[-1].fi is not None:
                nm = self.frames[-1].fi.short
                if nm in self.pol.watch_ret:
                    f.ret = [
                        (self.addev(x, "ret", nm, None, (("value", v),), None, s), v)
                        for x, v in f.ret
                    ]
        return f

    def s_Raise(self, s, st, live):
        if s.exc is None:
            self.throw(st, st.env.get("__exc__", EXC_ANY))
            return Flow()
        for x, v in self.ev(s.exc, st):
            self.throw(x, self.toexc(x, v))
        return Flow()

    def toexc(self, st, v):
        if v.k == "klass":
            return mk("exc", v.a[0], ())
        if v.k == "ext":
            return mk("exc", v.a[0].rpartition(".")[2] if v.a[0].startswith("builtins.") else v.a[0], ())
        if v.k == "exc":
            return v
        o = self.obj(st, v)
        if o is not None and o.cls:
            args = tuple(l[1] for l in o.layers if l[0] == "i")
            return mk("exc", o.cls, args)
        if v.k == "call":
            return mk("exc", v.a[0], v.a[2])
        return EXC_ANY

    def s_Assign(self, s, st, live):
        cur = self.ev(s.value, st)
        for t in s.targets:
            nxt = []
            for x, v in cur:
                nxt.extend((y, v) for y in self.assign(t, x, v, s))
            cur = nxt
        return self._n([x for x, _ in cur])

    def s_AnnAssign(self, s, st, live):
        if s.value is None:
            return self._n([st])
        out = []
        for x, v in self.ev(s.value, st):
            out.extend(self.assign(s.target, x, v, s))
        return self._n(out)

    def s_AugAssign(self, s, st, live):
        out = []
        t = s.target
        if isinstance(t, ast.Name):
            for x, v in self.ev(s.value, st):
                for x2, old in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), x):
                    o = self.obj(x2, old)
                    if o is not None and o.kind == "list" and isinstance(s.op, ast.Add):
                        out.append(self.list_extend(x2, old, v, s))
                        continue
                    for x3, nv in self.binop(x2, s.op, old, v, s):
                        out.append(x3.setenv(t.id, nv))
        elif isinstance(t, ast.Attribute):
            for x, b in self.ev(t.value, st):
                for x2, v in self.ev(s.value, x):
                    old = self.getattr(x2, b, t.attr, t)
                    for x3, nv in self.binop(x2, s.op, old, v, s):
                        out.append(self.store_attr(x3, b, t.attr, nv, s, aug=True))
        elif isinstance(t, ast.Subscript):
            for x, b in self.ev(t.value, st):
                for x2, k in self.ev_index(t.slice, x):
                    for x3, v in self.ev(s.value, x2):
                        for x4, old in self.lookup(x3, b, k):
                            if old is self.MISSING:
                                old = item(b, k)
                            for x5, nv in self.binop(x4, s.op, old, v, s):
                                out.append(self.store_item(x5, b, k, nv, s))
        return self._n(out)

    def assign(self, t, st, v, node):
        if isinstance(t, ast.Name):
            return [st.setenv(t.id, v)]
        if isinstance(t, ast.Attribute):
            return [self.store_attr(x, b, t.attr, v, node) for x, b in self.ev(t.value, st)]
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st):
                for x2, k in self.ev_index(t.slice, x):
                    out.append(self.store_item(x2, b, k, v, node))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            xs, _ = self.iter_shape(st, v)
            if xs is not None and (len(xs) < len(t.elts) - 1 if star else len(xs) != len(t.elts)):
                self.throw(st, mk("exc", "ValueError", ()))
                return []
            for i, e in enumerate(t.elts):
                nxt = []
                for x in cur:
                    if isinstance(e, ast.Starred):
                        nxt.extend(self.assign(e.value, x, mk("op", "rest", v, const(i)), node))
                    else:
                        idx = i if not star or i < star[0] else i - len(t.elts)
                        for x2, iv in self.lookup(x, v, const(idx)):
                            if iv is self.MISSING:
                                iv = item(v, const(idx))
                            nxt.extend(self.assign(e, x2, iv, node))
                cur = nxt
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, st, v, node)
        raise Broken("assign target %s" % type(t).__name__)

    def store_attr(self, st, base, name, v, node, aug=False):
        if name in self.pol.watch_attrs:
            st = self.addev(st, "setattr", name, base, (("value", v),), None, node)
        elif self.pol.watch_fn is not None and self.pol.watch_fn("setattr", name, base, self, st):
            st = self.addev(st, "setattr", name, base, (("value", v),), None, node)
        if name in self.pol.ignore_attrs:
            return st
        return st.setov(("a", base, name), v)

    def put(self, st, base, layers, node):
        """entries written into a mapping, whatever happens to the state later"""
        if self.pol.log_puts:
            o = self.obj(st, base) if base is not None else None
            before = o.layers if o is not None else ()
            for l in layers:
                k, v = (l[1], l[2]) if l[0] == "kv" else (None, l[1])
                self.puts.setdefault((base, k, v, frozenset(st.facts.items()), before), Put(base, k, v, st.facts, self.site(node), before, st.trace))

    def store_item(self, st, base, k, v, node):
        ty = self.typeof(st, base)
        if ty is not None:
            f = self.p.find_method(ty, "__setitem__")
            if f is not None and not f.module.external:
                rs = self.call_func(st, f, base, [k, v], [], node)
                # stores never split the caller
                if rs:
                    ms = self.merge([x for x, _ in rs], None)
                    if len(ms) == 1:
                        return ms[0]
                    # keep the first but intersect facts conservatively
                    cur = ms[0]
                    for o in ms[1:]:
                        f2 = {a: b for a, b in cur.facts.items() if o.facts.get(a) is b}
                        cur = St(cur.env, cur.heap, cur.ov, f2, cur.trace)
                    return cur
        st = self.record(st, "setitem", "[]", base, (("key", k), ("value", v)), None, node)
        self.put(st, base, (("kv", k, v),), node)
        if is_const(k) and cval(k) in self.pol.ignore_keys:
            v = sym("ignored")
        o = self.obj(st, base)
        if o is not None and o.kind in ("dict", "inst"):
            ly = tuple(l for l in o.layers if not (l[0] == "kv" and l[1] is k))
            return st.setheap(base, Obj(o.kind, o.cls, ly + (("kv", k, v),)))
        if o is not None:
            if o.kind == "list" and is_const(k) and all(l[0] == "i" for l in o.layers):
                ly = list(o.layers)
                try:
                    ly[cval(k)] = ("i", v)
                    return st.setheap(base, Obj(o.kind, o.cls, tuple(ly)))
                except (IndexError, TypeError):
                    pass
            return st
        return st.setov(("i", base, k), v)

    def mutated(self, st, base):
        """something is removed from a collection that is being iterated over"""
        for t in self.iterating:
            if t is base:
                st = st.setov(("i", MUTATED, t), const(True))
        return st

    def end_of_body(self, sts, it, node):
        out = []
        k = ("i", MUTATED, it)
        for x in sts:
            if k in x.ov:
                ov = dict(x.ov)
                del ov[k]
                x = St(x.env, x.heap, ov, x.facts, x.trace)
                self.live_iter.setdefault((self.site(node), it), x.facts)
            out.append(x)
        return out

    def record(self, st, kind, name, base, args, res, node):
        if base is not None and self.iterating and (kind == "delitem" or (kind == "mutate" and name in REMOVERS)):
            st = self.mutated(st, base)
        wi = self.pol.watch_items
        if wi is not None and wi(kind, base, args, self, st):
            return self.addev(st, kind, name, base, args, res, node)
        wf = self.pol.watch_fn
        if wf is not None and wf(kind, name, base, self, st):
            return self.addev(st, kind, name, base, args, res, node)
        return st

    def addev(self, st, kind, name, recv, args, res, node):
        keepargs = self.pol.ev_args.get(name)
        if keepargs is not None:
            args = tuple((k, v) for k, v in args if k in keepargs)
        return st.addev(
            Ev(kind, name, recv, args, res, self.site(node), st.facts, self.stack())
        )

    def s_If(self, s, st, live):
        f = Flow()
        for x, b in self.br(s.test, st):
            body = s.body if b else s.orelse
            if not body:
                f.next.append(x)
                continue
            r = self.block(body, x, live)
            f.next.extend(r.next)
            f.ret.extend(r.ret)
            f.brk.extend(r.brk)
            f.cont.extend(r.cont)
        return f

    def s_Break(self, s, st, live):
        f = Flow()
        if self.pol.loop_track:
            st = self.addev(st, "break", "break", None, (), None, s)
        f.brk = [st]
        return f

    def s_Continue(self, s, st, live):
        f = Flow()
        f.cont = [st]
        return f

    def s_While(self, s, st, live):
        f = Flow()
        lv = live | loads(s)
        cur = [st]
        exits = []
        for i in range(self.pol.loop + 1):
            nxt = []
            for c in cur:
                for x, b in self.br(s.test, c):
                    if not b:
                        exits.append(x)
                        continue
                    if i == self.pol.loop:
                        continue
                    r = self.block(s.body, x, lv)
                    f.ret.extend(r.ret)
                    f.next.extend(r.brk)
                    nxt.extend(r.next)
                    nxt.extend(r.cont)
            cur = self.merge(nxt, lv)
            if not cur:
                break
        for x in self.merge(exits, lv):
            if s.orelse:
                r = self.block(s.orelse, x, live)
                f.next.extend(r.next)
                f.ret.extend(r.ret)
                f.brk.extend(r.brk)
                f.cont.extend(r.cont)
            else:
                f.next.append(x)
        return f

    def iter_shape(self, st, it):
        """known sequence of elements, or None (generic iteration)
        returns (elements list | None, source term)"""
        o = self.obj(st, it)
        if o is not None:
            if o.kind in ("list", "set"):
                if all(l[0] == "i" for l in o.layers) and len(o.layers) <= 12:
                    return [l[1] for l in o.layers], it
                sp = [l for l in o.layers if l[0] == "s"]
                if len(sp) == 1 and len(o.layers) == 1:
                    return self.iter_shape(st, sp[0][1])
                return None, it
            if o.kind in ("dict", "inst"):
                if all(l[0] == "kv" for l in o.layers) and len(o.layers) <= 12:
                    return [l[1] for l in o.layers if l[2] is not DELETED], it
                sp = [l for l in o.layers if l[0] == "s"]
                if len(o.layers) == 1 and sp:
                    return self.iter_shape(st, sp[0][1])
                return None, it
        if it.k == "tuple":
            return list(it.a), it
        if it.k == "lit":
            return list(it.a[1]), it
        if it.k == "const" and isinstance(cval(it), (str, tuple)) and len(cval(it)) <= 8:
            return [const(c) for c in cval(it)], it
        if it.k == "op" and it.a[0] in ("keys", "values", "items"):
            o = self.obj(st, it.a[1])
            if o is not None and o.kind in ("dict", "inst"):
                sp = [l for l in o.layers if l[0] == "s"]
                if not sp and len(o.layers) <= 14:
                    kv = [l for l in o.layers if l[2] is not DELETED]
                    if it.a[0] == "keys":
                        return [l[1] for l in kv], it
                    if it.a[0] == "values":
                        return [l[2] for l in kv], it
                    return [mk("tuple", l[1], l[2]) for l in kv], it
                if len(sp) == 1 and len(o.layers) == 1:
                    return self.iter_shape(st, mk("op", it.a[0], sp[0][1]))
            return None, it
        if it.k == "op" and it.a[0] == "enumerate":
            xs, src = self.iter_shape(st, it.a[1])
            if xs is not None:
                return [mk("tuple", const(i), x) for i, x in enumerate(xs)], it
            return None, it
        if it.k == "op" and it.a[0] == "zip":
            return None, it
        return None, it

    def generic_elem(self, st, it, n):
        """[(state, element)] for a generic iteration over it"""
        if it.k == "op" and it.a[0] in ("items", "keys", "values"):
            b = it.a[1]
            o = self.obj(st, b)
            if o is not None and len(o.layers) == 1 and o.layers[0][0] == "s":
                b = o.layers[0][1]
            k = mk("elem", b, "k", n)
            st = self.assume(st, ("IN", k, b), True) or st
            if it.a[0] == "keys":
                return [(st, k)]
            out = []
            for s2, v in self.lookup(st, b, k):
                if v is self.MISSING:
                    v = item(b, k)
                out.append((s2, v if it.a[0] == "values" else mk("tuple", k, v)))
            return out
        if it.k == "op" and it.a[0] == "enumerate":
            return [
                (s2, mk("tuple", mk("elem", it, "i", n), e))
                for s2, e in self.generic_elem(st, it.a[1], n)
            ]
        o = self.obj(st, it)
        if o is not None and o.kind in ("list", "set") and o.layers:
            # a mixed list: element is one of the listed ones or of a spread
            out = []
            for ly in o.layers:
                if ly[0] == "i":
                    out.append((st, ly[1]))
                else:
                    out.extend(self.generic_elem(st, ly[1], n))
            return out
        if o is not None and o.kind in ("dict", "inst"):
            out = []
            for ly in o.layers:
                if ly[0] == "kv" and ly[2] is not DELETED:
                    out.append((st, ly[1]))
                elif ly[0] == "s":
                    out.extend(self.generic_elem(st, ly[1], n))
            return out
        if it.k == "op" and it.a[0] in ("union",):
            return self.generic_elem(st, it.a[1], n) + self.generic_elem(st, it.a[2], n)
        if it.k == "op" and it.a[0] == "inter":
            out = []
            for s2, e in self.generic_elem(st, it.a[1], n):
                out.extend((s3, e) for s3, b in self.contains(s2, e, it.a[2]) if b)
            return out
        if it.k == "op" and it.a[0] == "diff":
            out = []
            for s2, e in self.generic_elem(st, it.a[1], n):
                out.extend((s3, e) for s3, b in self.contains(s2, e, it.a[2]) if not b)
            return out
        return [(st, mk("elem", it, "e", n))]

    def s_For(self, s, st, live):
        f = Flow()
        lv = live | loads(s)
        for x, it in self.ev(s.iter, st):
            xs, src = self.iter_shape(x, it)
            done = []
            roots = self.frames[-1].roots
            nroots = len(roots)
            roots.append(it)
            roots.extend(xs or ())
            over = it.a[1] if it.k == "op" and it.a[0] == "enumerate" else it
            over = over.a[1] if over.k == "op" and over.a[0] in ("items", "keys", "values") and len(over.a) > 1 else over
            self.iterating.append(over)
            if xs is not None:
                cur = [x]
                for e in xs:
                    nxt = []
                    for c in cur:
                        for c2 in self.assign(s.target, c, e, s):
                            r = self.block(s.body, c2, lv)
                            f.ret.extend(r.ret)
                            f.next.extend(r.brk)
                            nxt.extend(r.next)
                            nxt.extend(r.cont)
                    cur = self.merge(self.end_of_body(nxt, over, s), lv)
                done = cur
            else:
                cur = []
                for s0, b in self.fork(x, it):
                    if b:
                        cur.append(s0)
                    else:
                        done.append(s0)
                for i in range(self.pol.loop):
                    nxt = []
                    for c in cur:
                        for c1, e in self.generic_elem(c, src, i):
                            for c2 in self.assign(s.target, c1, e, s):
                                r = self.block(s.body, c2, lv)
                                if self.pol.loop_track:
                                    for z in r.brk:
                                        f.next.append(self.early(z, src, s))
                                    for z, v in r.ret:
                                        f.ret.append((self.early(z, src, s), v))
                                    nxt.extend(r.next)
                                    nxt.extend(r.cont)
                                    continue
                                f.ret.extend(r.ret)
                                f.next.extend(r.brk)
                                nxt.extend(r.next)
                                nxt.extend(r.cont)
                    nxt = self.merge(self.end_of_body(nxt, over, s), lv)
                    done.extend(nxt)
                    cur = nxt
            self.iterating.pop()
            del roots[nroots:]
            done = self.merge(done, lv)
            for c in done:
                if s.orelse:
                    r = self.block(s.orelse, c, live)
                    f.next.extend(r.next)
                    f.ret.extend(r.ret)
                    f.brk.extend(r.brk)
                    f.cont.extend(r.cont)
                else:
                    f.next.append(c)
        return f

    def s_With(self, s, st, live):
        cur = [st]
        for it in s.items:
            nxt = []
            for c in cur:
                for x, v in self.ev(it.context_expr, c):
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, x, v, s))
                    else:
                        nxt.append(x)
            cur = nxt
        f = Flow()
        for c in cur:
            r = self.block(s.body, c, live)
            f.next.extend(r.next)
            f.ret.extend(r.ret)
            f.brk.extend(r.brk)
            f.cont.extend(r.cont)
        return f

    def exc_matches(self, exc, h_types):
        """True / False / None"""
        if exc.a[0] == "?":
            r = False
            for t in h_types:
                if t.startswith("oidcop."):
                    if any(self.p.is_sub(x, t) is not False for x in exc.a[1]):
                        r = None
                else:
                    r = None
            return r
        res = False
        for t in h_types:
            if t in ("Exception", "BaseException", "?"):
                return True
            r = self.p.is_sub(exc.a[0], t)
            if r:
                return True
            if r is None:
                res = None
        return res

    def handler_types(self, h):
        if h.type is None:
            return ["BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            d = self.p.resolve_expr_name(self.frames[-1].module, n)
            ci = self.p.get_class(d) if d else None
            out.append(ci.qual if ci else (d or "?"))
        return out

    def s_Try(self, s, st, live):
        f = Flow()
        hl = set(live)
        for h in s.handlers:
            hl |= loads(h)
        for n in s.orelse + s.finalbody:
            hl |= loads(n)
        sink = []
        self.sinks.append(sink)
        if s.handlers:
            self.trydepth += 1
        r = self.block(s.body, st, frozenset(hl))
        if s.handlers:
            self.trydepth -= 1
        self.sinks.pop()
        pend = Flow()  # before finally
        pend.ret.extend(r.ret)
        pend.brk.extend(r.brk)
        pend.cont.extend(r.cont)
        fin_sink = []
        self.sinks.append(fin_sink)
        for x in r.next:
            if s.orelse:
                r2 = self.block(s.orelse, x, live | loads_all(s.finalbody))
                pend.next.extend(r2.next)
                pend.ret.extend(r2.ret)
                pend.brk.extend(r2.brk)
                pend.cont.extend(r2.cont)
            else:
                pend.next.append(x)
        htypes = [self.handler_types(h) for h in s.handlers]
        sink = self.merge_vals([(x, e) for x, e in sink])
        for x, e in sink:
            caught = False
            maybe_out = True
            for h, ht in zip(s.handlers, htypes):
                m = self.exc_matches(e, ht)
                if m is False:
                    continue
                ee = e
                if e.a[0] == "?" and len(ht) == 1 and ht[0] not in ("?",):
                    ee = mk("exc", ht[0], ())
                x2 = x.setenv("__exc__", ee)
                if h.name:
                    x2 = x2.setenv(h.name, ee)
                r2 = self.block(h.body, x2, live | loads_all(s.finalbody))
                pend.next.extend(r2.next)
                pend.ret.extend(r2.ret)
                pend.brk.extend(r2.brk)
                pend.cont.extend(r2.cont)
                if m is True:
                    caught = True
                    break
                if e.a[0] == "?" and any(t in ("Exception", "BaseException") for t in ht):
                    caught = True
                    break
            if not caught:
                if e.a[0] == "?" and self.trydepth == 0 and not self.pol.raise_all:
                    # unknown failure leaving the function: an error exit
                    fin_sink.append((x, e))
                else:
                    fin_sink.append((x, e))
        self.sinks.pop()
        if s.finalbody:
            for x, e in fin_sink:
                r2 = self.block(s.finalbody, x, live)
                for y in r2.next:
                    self.throw(y, e)
                f.ret.extend(r2.ret)
            for x, v in pend.ret:
                r2 = self.block(s.finalbody, x, live)
                for y in r2.next:
                    f.ret.append((y, v))
                f.ret.extend(r2.ret)
            for nm in ("next", "brk", "cont"):
                for x in getattr(pend, nm):
                    r2 = self.block(s.finalbody, x, live)
                    getattr(f, nm).extend(r2.next)
                    f.ret.extend(r2.ret)
        else:
            for x, e in fin_sink:
                self.throw(x, e)
            f.next, f.brk, f.cont = pend.next, pend.brk, pend.cont
            f.ret.extend(pend.ret)
        return f

    # ----------------------------------------------------------- conditions
    def br(self, n, st):
        """[(state, bool)] for a condition"""
        self.tick()
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            cur = [st]
            out = []
            for v in n.values:
                nxt = []
                for c in cur:
                    for x, b in self.br(v, c):
                        if b == is_and:
                            nxt.append(x)
                        else:
                            out.append((x, b))
                cur = nxt
            out.extend((x, is_and) for x in cur)
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(x, not b) for x, b in self.br(n.operand, st)]
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = n.ops[0]
            d = pairwise(n)
            if d is not None:
                return self.br(d, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                out = []
                pol = isinstance(op, ast.In)
                for x, a in self.ev(n.left, st):
                    for x2, c in self.ev(n.comparators[0], x):
                        out.extend((x3, b == pol) for x3, b in self.contains(x2, a, c))
                return out
        out = []
        for x, v in self.ev(n, st):
            out.extend(self.fork(x, v))
        return out

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Broken("unsupported expression %s at %s" % (type(n).__name__, self.site(n)))
        self.tick()
        return m(n, st)

    def evs(self, nodes, st):
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for x, vs in cur:
                for x2, v in self.ev(n, x):
                    nxt.append((x2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        if v is not None:
            return [(st, v)]
        f = self.frames[-1]
        d = self.p.resolve_local(f.module, n.id)
        if d is not None:
            t = self.ref(d)
            return [(self.need_heap(st, t), t)]
        return [(st, mk("ext", "builtins." + n.id))]

    def e_Attribute(self, n, st):
        out = []
        for x, b in self.ev(n.value, st):
            t = self.getattr(x, b, n.attr, n)
            if t.k == "prop":
                fi = self.p.funcs[t.a[0]]
                out.extend(self.call_func(x, fi, t.a[1], [], [], n))
                continue
            x = self.need_heap(x, t)
            out.append((x, t))
        return out

    def ev_index(self, n, st):
        if isinstance(n, ast.Slice):
            cur = [(st, [])]
            for p in (n.lower, n.upper, n.step):
                nxt = []
                for x, vs in cur:
                    if p is None:
                        nxt.append((x, vs + [NONE]))
                    else:
                        nxt.extend((x2, vs + [v]) for x2, v in self.ev(p, x))
                cur = nxt
            return [(x, mk("op", "slice", *vs)) for x, vs in cur]
        return self.ev(n, st)

    def e_Subscript(self, n, st):
        out = []
        for x, b in self.ev(n.value, st):
            for x2, k in self.ev_index(n.slice, x):
                out.extend(self.subscript(x2, b, k, n))
        return out

    def subscript(self, st, b, k, n):
        ty = self.typeof(st, b)
        if ty is not None and self.obj(st, b) is None:
            f = self.p.find_method(ty, "__getitem__")
            if f is not None and not f.module.external:
                return self.call_func(st, f, b, [k], [], n)
        if k.k == "op" and k.a[0] == "slice":
            if b.k == "const" and all(is_const(z) for z in k.a[1:]):
                try:
                    return [(st, const(cval(b)[slice(*[cval(z) for z in k.a[1:]])]))]
                except Exception:
                    pass
            if b.k == "tuple" and all(is_const(z) for z in k.a[1:]):
                return [(st, mk("tuple", *b.a[slice(*[cval(z) for z in k.a[1:]])]))]
            o = self.obj(st, b)
            if o is not None and o.kind == "list" and all(is_const(z) for z in k.a[1:]):
                lo, hi, step = [cval(z) for z in k.a[1:]]
                known = 0
                while known < len(o.layers) and o.layers[known][0] == "i":
                    known += 1
                if known == len(o.layers) or (step in (None, 1) and isinstance(hi, int) and 0 <= hi <= known and (lo or 0) >= 0):
                    return [self.alloc(st, n, "list", None, o.layers[:known][slice(lo, hi, step)])]
            if all(is_const(z) and cval(z) is None for z in k.a[1:]) and isinstance(n.ctx, ast.Load) and b.k in ("attr", "item", "sym"):
                # a copy
                return [self.alloc(st, n, "list", None, self.seq_layers(st, b))]
            if b.k in ("item", "attr", "sym", "call") and all(is_const(z) and cval(z) is None for z in k.a[1:]):
                return [(st, b)]
            return [(st, mk("op", "slice", b, *k.a[1:]))]
        out = []
        for x, v in self.lookup(st, b, k):
            if v is self.MISSING:
                self.throw(x, mk("exc", "KeyError", ()))
                continue
            if v.k == "item" and v.a[0] is not None and v.a[1] is k and (self.trydepth > 0 or self.pol.partial and self.pol.partial(v.a[0])):
                base = v.a[0]
                o = self.obj(x, base)
                if o is None or o.kind in ("dict", "inst"):
                    for x2, p in self.both(x, ("IN", k, base)):
                        if p:
                            out.append((x2, v))
                        else:
                            self.throw(x2, mk("exc", "KeyError", ()))
                    continue
            if v.k == "item" and not (is_const(k) and isinstance(cval(k), int)):
                x2 = self.assume(x, ("IN", k, v.a[0]), True)
                if x2 is None:
                    self.throw(x, mk("exc", "KeyError", ()))
                    continue
                x = x2
            out.append((x, v))
        return out

    def e_Tuple(self, n, st):
        return [(x, mk("tuple", *vs)) for x, vs in self.evs(n.elts, st)]

    def _seq(self, n, st, kind):
        cur = [(st, ())]
        for e in n.elts:
            nxt = []
            for x, ly in cur:
                if isinstance(e, ast.Starred):
                    for x2, v in self.ev(e.value, x):
                        nxt.append((x2, ly + self.seq_layers(x2, v)))
                else:
                    for x2, v in self.ev(e, x):
                        nxt.append((x2, ly + (("i", v),)))
            cur = nxt
        return [self.alloc(x, n, kind, None, ly) for x, ly in cur]

    def seq_layers(self, st, v):
        xs, src = self.iter_shape(st, v)
        if xs is not None:
            return tuple(("i", x) for x in xs)
        o = self.obj(st, v)
        if o is not None and o.kind in ("list", "set"):
            return o.layers
        return (("s", v),)

    def e_List(self, n, st):
        out = self._seq(n, st, "list")
        if n.elts and not any(isinstance(e, ast.Starred) for e in n.elts):
            for _, t in out:
                self.literal_len[t] = len(n.elts)
        return out

    def e_Set(self, n, st):
        return self._seq(n, st, "set")

    def dict_layers(self, st, v):
        """layers contributed by **v / dict(v) / update(v)"""
        o = self.obj(st, v)
        if o is not None and o.kind in ("dict", "inst"):
            return o.layers
        return (("s", v),)

    def add_layers(self, ly, new):
        out = list(ly)
        for l in new:
            if l[0] == "kv":
                out = [x for x in out if not (x[0] == "kv" and x[1] is l[1])]
            out.append(l)
        return tuple(out)

    def merge_layers(self, ly, new):
        """dict.update: a key the source does not have leaves the target's own"""
        res = []
        for l in new:
            if l[0] == "kv" and l[2] is DELETED:
                back = None
                for x in reversed(ly):
                    if x[0] != "kv" or x[1] is l[1]:
                        back = x
                        break
                if back is None:
                    res.append(l)
                elif back[0] == "kv":
                    res.append(back)
                else:
                    res = [x for x in res if not (x[0] == "kv" and x[1] is l[1])]
            else:
                res.append(l)
        return self.add_layers(ly, tuple(res))

    def e_Dict(self, n, st):
        cur = [(st, ())]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for x, ly in cur:
                if k is None:
                    for x2, vv in self.ev(v, x):
                        nxt.append((x2, self.merge_layers(ly, self.dict_layers(x2, vv))))
                else:
                    for x2, kk in self.ev(k, x):
                        for x3, vv in self.ev(v, x2):
                            nxt.append((x3, self.add_layers(ly, (("kv", kk, vv),))))
            cur = nxt
        for x, ly in cur:
            self.put(x, None, ly, n)
        return [self.alloc(x, n, "dict", None, ly) for x, ly in cur]

    def e_JoinedStr(self, n, st):
        cur = [(st, [])]
        for v in n.values:
            nxt = []
            for x, ps in cur:
                e = v.value if isinstance(v, ast.FormattedValue) else v
                for x2, t in self.ev(e, x):
                    nxt.append((x2, ps + [t]))
            cur = nxt
        return [(x, self.fmt(ps)) for x, ps in cur]

    def fmt(self, ps):
        flat = []
        for p in ps:
            if p.k == "op" and p.a[0] == "fmt":
                flat.extend(p.a[1:])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if out and is_const(p) and is_const(out[-1]):
                out[-1] = const(str(cval(out[-1])) + str(cval(p)))
            else:
                out.append(p)
        if len(out) == 1 and is_const(out[0]):
            return const(str(cval(out[0])))
        return mk("op", "fmt", *out)

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for c in cur:
                for x, t in self.ev(v, c):
                    if last:
                        out.append((x, t))
                        continue
                    for x2, b in self.fork(x, t):
                        if b == is_and:
                            nxt.append(x2)
                        else:
                            if not b and t.k in ("cond", "not"):
                                t2 = FALSE
                            elif b and t.k in ("cond", "not"):
                                t2 = TRUE
                            else:
                                t2 = t
                            out.append((x2, t2))
            cur = nxt
        return self.merge_vals(out)

    def e_UnaryOp(self, n, st):
        out = []
        for x, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                d = self.decide(x, ("T", v))
                if d is not None:
                    out.append((x, const(not d)))
                elif v.k == "cond":
                    out.append((x, mk("cond", v.a[0], not v.a[1])))
                elif v.k == "not":
                    out.append((x, mk("not", v)))
                else:
                    out.append((x, mk("not", v)))
            elif is_const(v) and isinstance(n.op, ast.USub) and isinstance(cval(v), (int, float)):
                out.append((x, const(-cval(v))))
            else:
                out.append((x, mk("op", type(n.op).__name__, v)))
        return out

    def e_BinOp(self, n, st):
        out = []
        for x, (a, b) in self.evs([n.left, n.right], st):
            out.extend(self.binop(x, n.op, a, b, n))
        return out

    def binop(self, st, op, a, b, n):
        nm = type(op).__name__
        if nm == "Mod" and (is_const(a) and isinstance(cval(a), str)):
            args = list(b.a) if b.k == "tuple" else [b]
            return [(st, self.pct(cval(a), args))]
        if nm == "Add":
            if is_const(a) and is_const(b):
                try:
                    return [(st, const(cval(a) + cval(b)))]
                except TypeError:
                    pass
            sa = is_const(a) and isinstance(cval(a), str)
            sb = is_const(b) and isinstance(cval(b), str)
            fa = a.k == "op" and a.a[0] == "fmt"
            fb = b.k == "op" and b.a[0] == "fmt"
            if sa or sb or fa or fb:
                return [(st, self.fmt([a, b]))]
            oa, ob = self.obj(st, a), self.obj(st, b)
            if (oa is not None and oa.kind == "list") or (ob is not None and ob.kind == "list"):
                ly = self.seq_layers(st, a) + self.seq_layers(st, b)
                return [self.alloc(st, n, "list", None, ly)]
            if a.k == "tuple" and b.k == "tuple":
                return [(st, mk("tuple", *(a.a + b.a)))]
            if not is_const(a) and not is_const(b) and show(b) < show(a):
                pass
            return [(st, mk("op", "add", a, b))]
        if nm == "Sub":
            if is_const(a) and is_const(b):
                try:
                    return [(st, const(cval(a) - cval(b)))]
                except TypeError:
                    pass
            if self.setlike(st, a) or self.setlike(st, b):
                return [(st, mk("op", "diff", self.freeze(st, a), self.freeze(st, b)))]
            return [(st, mk("op", "sub", a, b))]
        if nm == "BitAnd":
            return [(st, mk("op", "inter", self.freeze(st, a), self.freeze(st, b)))]
        if nm == "BitOr":
            return [(st, mk("op", "union", self.freeze(st, a), self.freeze(st, b)))]
        if is_const(a) and is_const(b) and nm == "Mult":
            try:
                return [(st, const(cval(a) * cval(b)))]
            except TypeError:
                pass
        return [(st, mk("op", nm, a, b))]

    def pct(self, f, args):
        parts = []
        import re

        i = 0
        pos = 0
        for m in re.finditer(r"%(?:\((\w+)\))?[-#0 +]*\d*(?:\.\d+)?([sdrifx%])", f):
            parts.append(const(f[pos : m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                parts.append(const("%"))
            elif m.group(1):
                parts.append(item(args[0], const(m.group(1))) if args else const("?"))
            else:
                parts.append(args[i] if i < len(args) else const("?"))
                i += 1
        parts.append(const(f[pos:]))
        return self.fmt([p for p in parts if not (is_const(p) and cval(p) == "")] or [const("")])

    def strformat(self, st, f, args, kw):
        parts = []
        import string

        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(f):
                if lit:
                    parts.append(const(lit))
                if fld is None:
                    continue
                fld, path = fmtfield(fld)
                if fld == "":
                    parts.append(args[auto] if auto < len(args) else const("?"))
                    auto += 1
                elif fld.isdigit():
                    i = int(fld)
                    parts.append(args[i] if i < len(args) else const("?"))
                else:
                    nm = fld
                    d = dict((k, v) for k, v in kw if k)
                    v = d.get(nm)
                    if v is None:
                        for k, sp in kw:
                            if k is None:
                                for s2, vv in self.lookup(st, sp, const(nm)):
                                    v = vv if vv is not self.MISSING else None
                                    break
                    parts.append(v if v is not None else sym("fmt:" + nm))
                for is_attr, x in path:
                    parts[-1] = attr(parts[-1], x) if is_attr else item(parts[-1], const(x))
        except ValueError:
            return mk("op", "fmt", const(f), *args)
        return self.fmt(parts or [const("")])

    def e_Compare(self, n, st):
        d = pairwise(n)
        if d is not None:
            return [(x, const(b)) for x, b in self.br(d, st)]
        if len(n.ops) > 1:
            out = []
            cur = [(st, None)]
            # evaluate as chained conjunction, by branching
            for x, vs in self.evs([n.left] + n.comparators, st):
                states = [x]
                for i, op in enumerate(n.ops):
                    nxt = []
                    for s2 in states:
                        for s3, c in self.cmp(s2, op, vs[i], vs[i + 1]):
                            for s4, b in self.fork(s3, c):
                                if b:
                                    nxt.append(s4)
                                else:
                                    out.append((s4, FALSE))
                    states = nxt
                out.extend((s2, TRUE) for s2 in states)
            return out
        out = []
        for x, (a, b) in self.evs([n.left, n.comparators[0]], st):
            out.extend(self.cmp(x, n.ops[0], a, b))
        return out

    def cmp(self, st, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return [(st, self.eqcond(st, a, b, True))]
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return [(st, self.eqcond(st, a, b, False))]
        if isinstance(op, ast.Lt):
            return [(st, self.ltcond(st, a, b, True))]
        if isinstance(op, ast.Gt):
            return [(st, self.ltcond(st, b, a, True))]
        if isinstance(op, ast.LtE):
            if self.setlike(st, a) or self.setlike(st, b):
                return self.subset(st, a, b)
            return [(st, self.ltcond(st, b, a, False))]
        if isinstance(op, ast.GtE):
            if self.setlike(st, a) or self.setlike(st, b):
                return self.subset(st, b, a)
            return [(st, self.ltcond(st, a, b, False))]
        pol = isinstance(op, ast.In)
        return [(x, const(r == pol)) for x, r in self.contains(st, a, b)]

    def subset(self, st, a, b):
        """a <= b : every generic element of a is in b (same shape as a loop)"""
        return self.quant(st, a, lambda s, e: self.contains(s, e, b), True)

    def quant(self, st, coll, pred, universal):
        """[(state, TRUE/FALSE)]: all(pred(e) for e in coll) (universal) or any"""
        xs, src = self.iter_shape(st, coll)
        out = []
        if xs is not None:
            cur = [st]
            for e in xs:
                nxt = []
                for c in cur:
                    for c2, b in pred(c, e):
                        if b == universal:
                            nxt.append(c2)
                        else:
                            out.append((c2, const(not universal)))
                cur = nxt
            out.extend((c, const(universal)) for c in cur)
            return out
        for s0, b in self.fork(st, coll):
            if not b:
                out.append((s0, const(universal)))
                continue
            cur = [s0]
            for i in range(1 if universal else self.pol.qloop or self.pol.loop):
                nxt = []
                for c in cur:
                    for s1, e in self.generic_elem(c, src, i):
                        for s2, b2 in pred(s1, e):
                            if b2 == universal:
                                out.append((s2, const(universal)))
                                nxt.append(s2)
                            else:
                                out.append((s2, const(not universal)))
                cur = nxt
        return out

    def e_IfExp(self, n, st):
        out = []
        for x, b in self.br(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, x))
        return self.fuse_get(out) if len(out) > 1 else out

    def e_Lambda(self, n, st):
        return [(st, self.mkclosure(n, st))]

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        out = []
        for x, v in self.ev(n.value, st):
            out.extend((y, v) for y in self.assign(n.target, x, v, n))
        return out

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        return [(st, NONE)]

    # comprehensions: same generic iteration as for-loops -------------------
    def early(self, st, it, node):
        if it.k == "op" and it.a[0] == "enumerate":
            return self.early(st, it.a[1], node)
        return self.addev(st, "early", "loop", it, (), None, node)

    def comp(self, n, st, elt_fn, kind):
        """returns [(state, layers)]"""

        def gen(i, s, layers):
            if i == len(n.generators):
                return elt_fn(s, layers)
            g = n.generators[i]
            res = []
            for x, it in self.ev(g.iter, s):
                xs, src = self.iter_shape(x, it)
                if xs is not None:
                    cur = [(x, layers)]
                    for e in xs:
                        nxt = []
                        for c, ly in cur:
                            nxt.extend(one(i, g, c, ly, e))
                        cur = self._mergely(nxt)
                    res.extend(cur)
                else:
                    # a comprehension without a filter that maps a collection:
                    # zero or one generic element
                    for s0, b in self.fork(x, it):
                        if not b:
                            res.append((s0, layers))
                            continue
                        cur = [(s0, layers)]
                        for j in range(self.pol.qloop or (self.pol.loop if kind == "quant" else 1)):
                            nxt = []
                            for c0, ly in cur:
                                if ("hit",) in ly:
                                    continue
                                for c, e in self.generic_elem(c0, src, j):
                                    nxt.extend(one(i, g, c, ly, e))
                            cur = self._mergely(nxt)
                            res.extend(cur)
            return res

        def one(i, g, c, ly, e):
            res = []
            for c2 in self.assign(g.target, c, e, n):
                states = [c2]
                for cond in g.ifs:
                    nxt = []
                    for s2 in states:
                        for s3, b in self.br(cond, s2):
                            if b:
                                nxt.append(s3)
                            else:
                                res.append((s3, ly))
                    states = nxt
                for s2 in states:
                    res.extend(gen(i + 1, s2, ly))
            return res

        env = st.env
        out = gen(0, st, ())
        return [(x.withenv(env), ly) for x, ly in self._mergely(out)]

    def _mergely(self, pairs):
        return self.merge_vals(pairs)

    def e_ListComp(self, n, st):
        def elt(s, ly):
            return [(x, ly + (("i", v),)) for x, v in self.ev(n.elt, s)]

        # identity comprehension over an unknown collection without filter
        out = []
        for x, ly in self.comp(n, st, elt, "list"):
            out.append(self.alloc(x, n, "set" if isinstance(n, ast.SetComp) else "list", None, ly))
        return out

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        def elt(s, ly):
            res = self.evs([n.key, n.value], s)
            for x, (k, v) in res:
                self.put(x, None, (("kv", k, v),), n)
            return [(x, self.add_layers(ly, (("kv", k, v),))) for x, (k, v) in res]

        # {k: v for k, v in X.items() if ...} over an unknown mapping keeps a
        # filtered view: represented by one generic entry
        return [self.alloc(x, n, "dict", None, ly) for x, ly in self.comp(n, st, elt, "dict")]

    # ------------------------------------------------------------- calls
    def e_Call(self, n, st):
        if self.is_log(n):
            return [(st, NONE)]
        # any()/all() over a generator: evaluate lazily, element by element
        if (
            isinstance(n.func, ast.Name)
            and n.func.id in ("any", "all")
            and n.func.id not in st.env
            and len(n.args) == 1
            and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp))
        ):
            return self.anyall(n.args[0], st, n.func.id == "all")
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            return self.do_super(n, st)
        for x, fn in self.ev(n.func, st):
            for x2, args, kw in self.ev_args(n, x):
                out.extend(self.call(x2, fn, args, kw, n))
        if len(out) > 1:
            out = self.merge_vals(out)
        return out

    def do_super(self, n, st):
        f = self.frames[-1]
        cls = f.cls.qual if f.cls is not None else None
        s = st.env.get("self") or sym("self")
        ty = self.typeof(st, s) or cls
        if len(n.args) >= 1:
            d = self.p.resolve_expr_name(f.module, n.args[0])
            cls = d or cls
        return [(st, mk("super", ty, cls, s))]

    def anyall(self, g, st, universal):
        def elt(s, ly):
            res = []
            for x, b in self.br(g.elt, s):
                if b == universal:
                    res.append((x, ly))
                else:
                    res.append((x, ly + (("hit",),)))
            return res

        out = []
        for x, ly in self.comp(g, st, elt, "quant"):
            hit = ("hit",) in ly
            out.append((x, const(universal != hit)))
        return self.merge_vals(out)

    def ev_args(self, n, st):
        cur = [(st, [], [])]
        for a in n.args:
            nxt = []
            for x, args, kw in cur:
                if isinstance(a, ast.Starred):
                    for x2, v in self.ev(a.value, x):
                        xs, _ = self.iter_shape(x2, v)
                        if xs is not None:
                            nxt.append((x2, args + xs, kw))
                        else:
                            nxt.append((x2, args + [mk("op", "star", v)], kw))
                else:
                    for x2, v in self.ev(a, x):
                        nxt.append((x2, args + [v], kw))
            cur = nxt
        for k in n.keywords:
            nxt = []
            for x, args, kw in cur:
                for x2, v in self.ev(k.value, x):
                    if k.arg is None:
                        add = []
                        for ly in self.dict_layers(x2, v):
                            if ly[0] == "kv" and is_const(ly[1]):
                                if ly[2] is not DELETED:
                                    add.append((cval(ly[1]), ly[2]))
                            elif ly[0] == "s":
                                add.append((None, ly[1]))
                        nxt.append((x2, args, kw + add))
                    else:
                        nxt.append((x2, args, kw + [(k.arg, v)]))
            cur = nxt
        return cur

    def call(self, st, fn, args, kw, n):
        self.sites += 1
        k = fn.k
        if k == "func":
            fi = self.p.funcs.get(fn.a[0])
            if fi is not None:
                return self.call_func(st, fi, fn.a[1], args, kw, n)
        if k == "closure":
            return self.call_closure(st, fn, args, kw, n)
        if k == "klass":
            return self.construct(st, fn, args, kw, n)
        if k == "ext":
            return self.call_ext(st, fn.a[0], args, kw, n)
        if k == "sget":
            return self.server_get(st, fn, args, kw, n)
        if k == "meth":
            return self.call_method(st, fn.a[0], fn.a[1], args, kw, n)
        if k == "attr":
            return self.call_method(st, fn.a[0], fn.a[1], args, kw, n)
        if k == "op" and fn.a[0] == "ite":
            pass
        # unknown callable value
        name = "<call>"
        return self.opaque(st, name, fn, self.argpairs(args, kw), n)

    def server_get(self, st, fn, args, kw, n):
        if args and is_const(args[0]):
            w = cval(args[0])
            if w == "endpoint_context":
                return [(st, CTX)]
            if w == "endpoint" and len(args) > 1:
                t = mk("call", "endpoint", None, (args[1],), (), 0)
                return [(st, t)]
            return [(st, mk("call", "server_get", None, tuple(args), tuple(kw), 0))]
        return self.opaque(st, "server_get", None, self.argpairs(args, kw), n)

    def argpairs(self, args, kw):
        return tuple((i, a) for i, a in enumerate(args)) + tuple(
            sorted(kw, key=lambda p: str(p[0]))
        )

    def named(self, fi, args, kw, bound):
        """normalise to parameter names"""
        ps = fi.params[1:] if bound else fi.params
        out = []
        for i, a in enumerate(args):
            out.append((ps[i] if i < len(ps) else i, a))
        out.extend(kw)
        return tuple(sorted(out, key=lambda p: str(p[0])))

    def opaque(self, st, name, recv, pairs, n, qual=None, record=True, noraise=False, fi=None):
        """uninterpreted call"""
        pos = tuple(v for k, v in pairs if isinstance(k, int))
        kws = tuple((k, v) for k, v in pairs if not isinstance(k, int))
        seq = 0
        short = name
        if short in self.pol.fresh or (qual and qual in self.pol.fresh):
            seq = 1 + sum(1 for e in st.trace if e.kind == "call" and e.name == name)
        fp = tuple(self.freeze(st, a) for a in pos)
        fk = tuple((k, self.freeze(st, a)) for k, a in kws)
        t = mk("call", name, recv, fp, fk, seq)
        if name in self.pol.throws:
            st = self.addev(st, "thrown", "thrown:" + name, recv, pairs, t, n)
            self.throw(st, mk("exc", self.pol.throws[name], ()))
            return []
        if not noraise and name not in self.pol.noraise:
            self.may_raise(st, fi, name)
        w = name in self.pol.watch or (qual is not None and qual in self.pol.watch)
        if not w and self.pol.watch_fn is not None:
            w = self.pol.watch_fn("call", name, recv, self, st)
        if record and w:
            st = self.addev(st, "call", name, recv, pairs, t, n)
        return [(st, t)]

    def call_func(self, st, fi, selfterm, args, kw, n):
        pol = self.pol
        bound = selfterm is not None and not fi.static
        if selfterm is None and fi.cls is not None and not fi.static and args:
            # Base.method(self, ...)
            selfterm = args[0]
            args = args[1:]
            bound = True
        nm, q = fi.name, fi.short
        pairs = None
        is_opaque = nm in pol.opaque or q in pol.opaque or fi.qual in pol.opaque
        depth_ok = len(self.frames) < pol.depth
        rec = sum(1 for f in self.frames if f.fi is fi)
        if not is_opaque and pol.inline is not None and not pol.inline(fi):
            is_opaque = True
        if is_opaque or not depth_ok or rec >= 1 or fi.is_gen or fi.module.external:
            pairs = self.named(fi, args, kw, bound)
            return self.opaque(st, nm, selfterm, pairs, n, qual=q, fi=fi)
        if nm in pol.watch or q in pol.watch:
            pairs = self.named(fi, args, kw, bound)
            st = self.addev(st, "call", nm, selfterm, pairs, None, n)
        elif pol.watch_fn is not None and pol.watch_fn("call", nm, selfterm, self, st):
            pairs = self.named(fi, args, kw, bound)
            st = self.addev(st, "call", nm, selfterm, pairs, None, n)
        return self.inline(
            st, fi, fi.node, fi.module, fi.cls, ([selfterm] if bound else []) + list(args), kw, n, {}
        )

    def call_closure(self, st, fn, args, kw, n):
        node, env, f = self.closures[fn]
        if isinstance(node, ast.Lambda):
            body = [ast.copy_location(ast.Return(node.body), node)]
            for s in body:
                ast.fix_missing_locations(s)
        else:
            body = node.body
        if len(self.frames) >= self.pol.depth or any(fr.node is node for fr in self.frames):
            return self.opaque(st, "<closure>", fn, self.argpairs(args, kw), n)
        return self.inline(st, None, node, f.module, f.cls, list(args), kw, n, env, body=body)

    def inline(self, st, fi, node, module, cls, args, kw, n, env0, body=None):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = dict(env0)
        extra = []
        for i, v in enumerate(args):
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        unk = [v for k, v in kw if k is None]
        rest = []
        kwonly = [x.arg for x in a.kwonlyargs]
        given = set(params[: len(args)])
        for k, v in kw:
            if k is None:
                continue
            if k in params or k in kwonly:
                env[k] = v
                given.add(k)
            else:
                rest.append((k, v))
        caller_env = st.env
        states = [st]
        # defaults
        dpar = params[len(params) - len(a.defaults) :] if a.defaults else []
        dmap = dict(zip(dpar, a.defaults))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dmap[k] = d
        if fi is not None and fi.qual:
            self.covered.add(fi.qual)
        fr = Frame(fi, module, cls, node, "%s:%s" % (getattr(n, "lineno", 0), getattr(n, "col_offset", 0)))
        self.frames.append(fr)
        cur = [(st, env)]
        for pname in params + kwonly:
            if pname in given or pname in env and pname not in env0:
                continue
            nxt = []
            for s, e in cur:
                if unk and len(unk) >= 1:
                    # value may come from an unknown ** mapping
                    src = unk[-1]
                    if pname in dmap:
                        d = dmap[pname]
                        for s2, b in self.contains(s, const(pname), src):
                            if b:
                                for s3, v in self.lookup(s2, src, const(pname)):
                                    e2 = dict(e)
                                    e2[pname] = v
                                    nxt.append((s3, e2))
                            else:
                                for s3, v in self.ev(d, s2.withenv({})):
                                    e2 = dict(e)
                                    e2[pname] = v
                                    nxt.append((s3, e2))
                    else:
                        e2 = dict(e)
                        e2[pname] = item(src, const(pname))
                        nxt.append((s, e2))
                elif pname in dmap:
                    if any(isinstance(x, ast.Call) for x in ast.walk(dmap[pname])):
                        # evaluated once, when the function is defined
                        e2 = dict(e)
                        e2[pname] = sym("default:%s.%s" % (fi.qual if fi is not None and fi.qual else getattr(node, "name", "lambda"), pname))
                        nxt.append((s, e2))
                        continue
                    for s3, v in self.ev(dmap[pname], s.withenv({})):
                        e2 = dict(e)
                        e2[pname] = v
                        nxt.append((s3, e2))
                else:
                    e2 = dict(e)
                    e2[pname] = mk("sym", "missing:" + pname)
                    nxt.append((s, e2))
            cur = nxt
        ready = []
        for s, e in cur:
            if a.vararg:
                e[a.vararg.arg] = mk("tuple", *extra)
            if a.kwarg:
                ly = tuple(("s", u) for u in unk) + tuple(("kv", const(k), v) for k, v in rest)
                if len(ly) == 1 and ly[0][0] == "s":
                    # f(**kwargs) forwards: a fresh dict with the same contents
                    s, t = self.alloc(s, node, "dict", None, ly)
                    e[a.kwarg.arg] = t
                else:
                    s, t = self.alloc(s, node, "dict", None, ly)
                    e[a.kwarg.arg] = t
            ready.append(s.withenv(e))
        fr.base = frozenset(t for s in ready for t in s.heap)
        sink = []
        self.sinks.append(sink)
        rets = []
        for s in ready:
            flow = self.block(body if body is not None else node.body, s, frozenset())
            rets.extend(flow.ret)
            rets.extend((x, NONE) for x in flow.next)
        self.sinks.pop()
        exc = self.merge_vals([(self.gc(s.withenv({}), e), e) for s, e in sink])
        rets = self.merge_vals([(self.gc(s.withenv({}), v), v) for s, v in rets])
        self.frames.pop()
        for s, e in exc:
            if self.sinks:
                self.sinks[-1].append((s.withenv(caller_env), e))
        return [(s.withenv(caller_env), v) for s, v in rets]

    # -- construction -------------------------------------------------------
    def construct(self, st, fn, args, kw, n):
        q = fn.a[0]
        p = self.p
        ci = p.get_class(q)
        short = q.rpartition(".")[2]
        self.may_raise(st)
        if p.is_sub(q, MESSAGE) or p.is_sub(q, "dict"):
            ly = ()
            for a in args:
                ly = self.add_layers(ly, self.dict_layers(st, a))
            for k, v in kw:
                if k is None:
                    ly = self.add_layers(ly, self.dict_layers(st, v))
                else:
                    ly = self.add_layers(ly, (("kv", const(k), v),))
            st, t = self.alloc(st, n, "dict", ci.qual if ci else q, ly)
            if short in self.pol.watch_ctor:
                st = self.addev(st, "ctor", short, None, self.argpairs(args, kw), t, n)
            return [(st, t)]
        ly = tuple(("i", a) for a in args)
        st, t = self.alloc(st, n, "inst", ci.qual if ci else q, ly)
        init = p.find_method(q, "__init__")
        pairs = self.argpairs(args, kw)
        if init is not None:
            pairs = self.named(init, args, kw, True)
            if q in self.pol.ctor_inline or short in self.pol.ctor_inline:
                if short in self.pol.watch_ctor:
                    st = self.addev(st, "ctor", short, None, pairs, t, n)
                return [
                    (x, t)
                    for x, _ in self.call_func(st, init, t, list(args), list(kw), n)
                ]
            for k, v in pairs:
                if isinstance(k, str):
                    st = st.setov(("a", t, k), v)
        if short in self.pol.watch_ctor:
            st = self.addev(st, "ctor", short, None, pairs, t, n)
        return [(st, t)]

    # -- external functions ---------------------------------------------------
    def call_ext(self, st, dotted, args, kw, n):
        name = dotted.rpartition(".")[2]
        if dotted.startswith("builtins."):
            m = getattr(self, "b_" + name, None)
            if m is not None:
                r = m(st, args, kw, n)
                if r is not None:
                    return r
            import builtins as _b

            o = getattr(_b, name, None)
            if isinstance(o, type) and issubclass(o, BaseException):
                return [(st, mk("exc", name, tuple(args)))]
            return self.opaque(st, name, None, self.argpairs(args, kw), n)
        if name in ("copy", "deepcopy") and len(args) == 1 and dotted.startswith("copy."):
            return self.copy_of(st, args[0], n, deep=name == "deepcopy")
        if name[:1].isupper() and not name.isupper():
            # external class we could not resolve
            ly = []
            for k, v in kw:
                if k is None:
                    ly.append(("s", v))
                else:
                    ly.append(("kv", const(k), v))
            st, t = self.alloc(st, n, "dict" if not args else "inst", dotted, tuple(("i", a) for a in args) + tuple(ly) if args else tuple(ly))
            self.may_raise(st)
            if name in self.pol.watch_ctor:
                st = self.addev(st, "ctor", name, None, self.argpairs(args, kw), t, n)
            return [(st, t)]
        return self.opaque(st, name, None, self.argpairs(args, kw), n, qual=dotted)

    def copy_of(self, st, v, n, deep=False):
        o = self.obj(st, v)
        if o is not None:
            ly = o.layers
            if deep and o.kind in ("dict", "list", "set"):
                res = []
                for l in ly:
                    x = l[-1]
                    xo = self.obj(st, x) if isinstance(x, T) and l[0] in ("kv", "i") else None
                    if xo is not None and xo.kind in ("dict", "list", "set"):
                        ((st, x),) = self.copy_of(st, x, n, True)
                    res.append(l[:-1] + (x,))
                ly = tuple(res)
            st, t = self.alloc(st, n, o.kind, o.cls, ly)
            return [(st, t)]
        if is_const(v) or v.k == "tuple":
            return [(st, v)]
        if deep and self.pol.copies:
            v = mk("op", "copied", v)
        st, t = self.alloc(st, n, "dict", None, (("s", v),))
        return [(st, t)]

    def b_isinstance(self, st, args, kw, n):
        if len(args) != 2:
            return None
        t, c = args
        cs = list(c.a) if c.k == "tuple" else [c]
        names = []
        for x in cs:
            if x.k == "klass":
                names.append(x.a[0])
            elif x.k == "ext":
                nm = x.a[0]
                names.append(nm[len("builtins.") :] if nm.startswith("builtins.") else nm)
            elif x.k == "attr":
                names.append("." + x.a[1])
            else:
                names.append("?" + show(x))
        cur, out = [st], []
        for nm in names:
            nxt = []
            for s in cur:
                for s2, b in self.both(s, ("ISA", t, nm)):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s, FALSE) for s in cur)
        return out

    def b_issubclass(self, st, args, kw, n):
        return None

    def b_len(self, st, args, kw, n):
        t = args[0]
        if is_const(t) and isinstance(cval(t), str):
            return [(st, const(len(cval(t))))]
        o = self.obj(st, t)
        if o is not None and o.kind in ("list", "dict", "set"):
            if all(l[0] in ("i", "kv") for l in o.layers) and not o.layers:
                return [(st, const(0))]
            if len(o.layers) == 1 and o.layers[0][0] == "s":
                return [(st, mk("op", "len", o.layers[0][1]))]
            if len(o.layers) == self.literal_len.get(t) and all(l[0] == "i" for l in o.layers):
                return [(st, const(len(o.layers)))]
        if t.k == "tuple":
            return [(st, const(len(t.a)))]
        return [(st, mk("op", "len", self.freeze(st, t)))]

    def b_bool(self, st, args, kw, n):
        if not args:
            return [(st, FALSE)]
        return [(s, const(b)) for s, b in self.fork(st, args[0])]

    def b_str(self, st, args, kw, n):
        if args and is_const(args[0]):
            return [(st, const(str(cval(args[0]))))]
        if not args:
            return [(st, const(""))]
        return [(st, mk("op", "str", args[0]))]

    def b_int(self, st, args, kw, n):
        if args and is_const(args[0]):
            try:
                return [(st, const(int(cval(args[0]))))]
            except (TypeError, ValueError):
                return None
        self.may_raise(st)
        return [(st, mk("op", "int", args[0]))] if args else [(st, const(0))]

    def _mkseq(self, st, args, n, kind):
        if not args:
            return [self.alloc(st, n, kind, None, ())]
        return [self.alloc(st, n, kind, None, self.seq_layers(st, args[0]))]

    def b_list(self, st, args, kw, n):
        return self._mkseq(st, args, n, "list")

    def b_sorted(self, st, args, kw, n):
        return self._mkseq(st, args, n, "list")

    def b_reversed(self, st, args, kw, n):
        return self._mkseq(st, args, n, "list")

    def b_set(self, st, args, kw, n):
        return self._mkseq(st, args, n, "set")

    def b_frozenset(self, st, args, kw, n):
        return self._mkseq(st, args, n, "set")

    def b_tuple(self, st, args, kw, n):
        if not args:
            return [(st, mk("tuple"))]
        xs, _ = self.iter_shape(st, args[0])
        if xs is not None:
            return [(st, mk("tuple", *xs))]
        return self._mkseq(st, args, n, "list")

    def b_iter(self, st, args, kw, n):
        return [(st, args[0])]

    def b_next(self, st, args, kw, n):
        c = args[0]
        xs, src = self.iter_shape(st, c)
        if xs is not None:
            if xs:
                return [(st, xs[0])]
            if len(args) > 1:
                return [(st, args[1])]
            self.throw(st, mk("exc", "StopIteration", ()))
            return []
        out = []
        for s, b in self.fork(st, c):
            if b:
                out.extend(self.generic_elem(s, src, 0))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                self.throw(s, mk("exc", "StopIteration", ()))
        return out

    def b_dict(self, st, args, kw, n):
        ly = ()
        for a in args:
            ly = self.add_layers(ly, self.dict_layers(st, a))
        for k, v in kw:
            if k is None:
                ly = self.add_layers(ly, self.dict_layers(st, v))
            else:
                ly = self.add_layers(ly, (("kv", const(k), v),))
        self.put(st, None, ly, n)
        return [self.alloc(st, n, "dict", None, ly)]

    def b_any(self, st, args, kw, n):
        return self.quant(st, args[0], lambda s, e: self.fork(s, e), False)

    def b_all(self, st, args, kw, n):
        return self.quant(st, args[0], lambda s, e: self.fork(s, e), True)

    def b_enumerate(self, st, args, kw, n):
        return [(st, mk("op", "enumerate", args[0]))]

    def b_zip(self, st, args, kw, n):
        return [(st, mk("op", "zip", *args))]

    def b_range(self, st, args, kw, n):
        return [(st, mk("op", "range", *args))]

    def b_hasattr(self, st, args, kw, n):
        if len(args) == 2 and is_const(args[1]):
            return [(s, const(b)) for s, b in self.both(st, ("HAS", args[0], args[1]))]
        return None

    def b_getattr(self, st, args, kw, n):
        if len(args) >= 2 and is_const(args[1]):
            t = self.getattr(st, args[0], cval(args[1]), n)
            st = self.need_heap(st, t)
            return [(st, t)]
        return [(st, mk("op", "getattr", *args))]

    def b_setattr(self, st, args, kw, n):
        if len(args) == 3 and is_const(args[1]):
            return [(self.store_attr(st, args[0], cval(args[1]), args[2], n), NONE)]
        if len(args) == 3:
            st = self.record(
                st, "setattr*", "setattr", args[0], (("key", args[1]), ("value", args[2])), None, n
            )
        return [(st, NONE)]

    def b_type(self, st, args, kw, n):
        if len(args) == 1:
            ty = None
            o = self.obj(st, args[0])
            if o is not None and o.cls:
                return [(st, mk("klass", o.cls))]
            return [(st, mk("op", "type", args[0]))]
        return None

    def b_print(self, st, args, kw, n):
        return [(st, NONE)]

    def b_callable(self, st, args, kw, n):
        return [(s, const(b)) for s, b in self.both(st, ("CALLABLE", args[0]))]

    def b_min(self, st, args, kw, n):
        if len(args) == 2 and not kw:
            a, b = args
            return [(s, a if lt else b) for s, lt in self.both(st, ("LT", a, b))]
        return [(st, mk("op", "min", *sorted(args, key=show)))]

    def b_max(self, st, args, kw, n):
        if len(args) == 2 and not kw:
            a, b = args
            return [(s, b if lt else a) for s, lt in self.both(st, ("LT", a, b))]
        return [(st, mk("op", "max", *sorted(args, key=show)))]

    def b_id(self, st, args, kw, n):
        return [(st, mk("op", "id", *args))]

    # -- methods ----------------------------------------------------------------
    def call_method(self, st, recv, name, args, kw, n):
        o = self.obj(st, recv)
        if name == "server_get":
            return self.server_get(st, mk("sget", recv), args, kw, n)
        # closures stored as attributes etc.
        g = getattr(self, "m_" + name, None)
        if g is not None and name not in self.pol.opaque:
            r = g(st, recv, o, args, kw, n)
            if r is not None:
                return r
        if name in MUTATORS and not (self.typeof(st, recv) and self.p.find_method(self.typeof(st, recv), name)):
            st = self.record(st, "mutate", name, recv, self.argpairs(args, kw), None, n)
        # unknown receiver: unique method of the program?
        foreign = o is not None and o.cls and (
            o.cls not in self.p.classes or self.p.classes[o.cls].module.external)
        if recv.k == "call" and recv.a[1] is None and recv.a[0][:1].isupper():
            foreign = True  # an instance of a class that is not part of the program
        if name not in GENERIC_METHODS and name not in self.pol.no_inline_unique and not foreign:
            c = self.p.method_index.get(name)
            if c and len(c) == 1 and not c[0].module.external:
                return self.call_func(st, c[0], recv, args, kw, n)
            if c:
                # several definitions: uninterpreted, but with named arguments
                fi = c[0]
                pairs = self.named(fi, args, kw, True)
                return self.opaque(st, name, recv, pairs, n)
        return self.opaque(st, name, recv, self.argpairs(args, kw), n)

    def m_get(self, st, recv, o, args, kw, n):
        ty = self.typeof(st, recv)
        if ty is not None and o is None:
            f = self.p.find_method(ty, "get")
            if f is not None:
                return None
        if not args or len(args) > 2:
            return None
        key = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        for k, v in kw:
            if k == "default":
                dflt = v
        out = []
        for x, v in self.lookup(st, recv, key):
            if v is self.MISSING:
                out.append((x, dflt))
            elif v.k == "item" and v.a[1] is key and dflt is not NONE and self.obj(x, v.a[0]) is None:
                for x2, b in self.both(x, ("IN", key, v.a[0])):
                    out.append((x2, v if b else dflt))
            else:
                out.append((x, v))
        return out

    def m_setdefault(self, st, recv, o, args, kw, n):
        if len(args) < 1:
            return None
        key = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        out = []
        for x, b in self.contains(st, key, recv):
            if b:
                for x2, v in self.lookup(x, recv, key):
                    out.append((x2, v))
            else:
                out.append((self.store_item(x, recv, key, dflt, n), dflt))
        return out

    def m_update(self, st, recv, o, args, kw, n):
        ty = self.typeof(st, recv)
        if ty is not None and o is None and self.p.find_method(ty, "update"):
            f = self.p.find_method(ty, "update")
            if not f.module.external:
                return self.call_func(st, f, recv, args, kw, n)
        st = self.record(st, "mutate", "update", recv, self.argpairs(args, kw), None, n)
        new = ()
        for a in args:
            new = self.merge_layers(new, self.dict_layers(st, a))
        for k, v in kw:
            if k is None:
                new = self.merge_layers(new, self.dict_layers(st, v))
            else:
                new = self.add_layers(new, (("kv", const(k), v),))
        self.put(st, recv, new, n)
        if o is not None and o.kind == "set":
            return [(st.setheap(recv, Obj("set", o.cls, o.layers + tuple(("s", a) for a in args))), NONE)]
        if o is not None and o.kind in ("dict", "inst"):
            return [(st.setheap(recv, Obj(o.kind, o.cls, self.merge_layers(o.layers, new))), NONE)]
        for l in new:
            if l[0] == "kv":
                st = st.setov(("i", recv, l[1]), l[2])
            elif len(l) == 2 and isinstance(l[1], T):
                e = mk("elem", l[1], "k", 0)
                st = st.setov(("i", recv, e), item(l[1], e))
        return [(st, NONE)]

    def m_pop(self, st, recv, o, args, kw, n):
        st = self.record(st, "mutate", "pop", recv, self.argpairs(args, kw), None, n)
        if o is not None and o.kind in ("list", "set"):
            if o.layers and all(l[0] == "i" for l in o.layers) and not args:
                return [(st.setheap(recv, Obj(o.kind, o.cls, o.layers[:-1])), o.layers[-1][1])]
            return [(st, mk("op", "pop", recv))]
        if not args:
            return [(st, mk("op", "pop", recv))]
        key = args[0]
        out = []
        for x, b in self.contains(st, key, recv):
            if b:
                for x2, v in self.lookup(x, recv, key):
                    out.append((self._del(x2, recv, key, n), v))
            elif len(args) > 1:
                out.append((x, args[1]))
            else:
                self.throw(x, mk("exc", "KeyError", ()))
        return out

    def own_method(self, st, recv, name):
        ty = self.typeof(st, recv)
        f = self.p.find_method(ty, name) if ty is not None else None
        return f is not None and not f.module.external

    def m___delitem__(self, st, recv, o, args, kw, n):
        if len(args) != 1 or self.own_method(st, recv, "__delitem__"):
            return None
        return [(x, NONE) for x in self.del_item(st, recv, args[0], n)]

    def m___setitem__(self, st, recv, o, args, kw, n):
        if len(args) != 2 or self.own_method(st, recv, "__setitem__"):
            return None
        return [(self.store_item(st, recv, args[0], args[1], n), NONE)]

    def m___contains__(self, st, recv, o, args, kw, n):
        if len(args) != 1 or self.own_method(st, recv, "__contains__"):
            return None
        return [(x, const(b)) for x, b in self.contains(st, args[0], recv)]

    def m_append(self, st, recv, o, args, kw, n):
        st = self.record(st, "mutate", "append", recv, self.argpairs(args, kw), None, n)
        if o is not None and o.kind == "list":
            return [(st.setheap(recv, Obj(o.kind, o.cls, o.layers + (("i", args[0]),))), NONE)]
        return [(st, NONE)]

    def m_add(self, st, recv, o, args, kw, n):
        if o is not None and o.kind == "set":
            return [(st.setheap(recv, Obj(o.kind, o.cls, o.layers + (("i", args[0]),))), NONE)]
        return None

    def m_insert(self, st, recv, o, args, kw, n):
        st = self.record(st, "mutate", "insert", recv, self.argpairs(args, kw), None, n)
        if o is not None and o.kind == "list" and len(args) == 2:
            return [(st.setheap(recv, Obj(o.kind, o.cls, (("i", args[1]),) + o.layers)), NONE)]
        return [(st, NONE)]

    def list_extend(self, st, recv, v, n):
        o = self.obj(st, recv)
        st = self.record(st, "mutate", "extend", recv, ((0, v),), None, n)
        if o is not None:
            return st.setheap(recv, Obj(o.kind, o.cls, o.layers + self.seq_layers(st, v)))
        return st

    def m_extend(self, st, recv, o, args, kw, n):
        return [(self.list_extend(st, recv, args[0], n), NONE)]

    def m_remove(self, st, recv, o, args, kw, n):
        return None

    def m_keys(self, st, recv, o, args, kw, n):
        return [(st, mk("op", "keys", recv))]

    def m_values(self, st, recv, o, args, kw, n):
        return [(st, mk("op", "values", recv))]

    def m_items(self, st, recv, o, args, kw, n):
        return [(st, mk("op", "items", recv))]

    def m_copy(self, st, recv, o, args, kw, n):
        if self.typeof(st, recv) and o is None and self.p.find_method(self.typeof(st, recv), "copy"):
            return None
        return self.copy_of(st, recv, n)

    def m_to_dict(self, st, recv, o, args, kw, n):
        if o is not None and o.kind == "dict":
            return [self.alloc(st, n, "dict", None, o.layers)]
        return [self.alloc(st, n, "dict", None, (("s", recv),))]

    def m_format(self, st, recv, o, args, kw, n):
        if is_const(recv) and isinstance(cval(recv), str):
            return [(st, self.strformat(st, cval(recv), args, kw))]
        return None

    def m_join(self, st, recv, o, args, kw, n):
        if is_const(recv) and args:
            xs, _ = self.iter_shape(st, args[0])
            if xs is not None:
                ps = []
                for i, x in enumerate(xs):
                    if i:
                        ps.append(recv)
                    ps.append(x)
                return [(st, self.fmt(ps or [const("")]))]
            return [(st, mk("op", "join", recv, self.freeze(st, args[0])))]
        return None

    def _strm(self, name):
        pass

    def m_startswith(self, st, recv, o, args, kw, n):
        if is_const(recv) and args and is_const(args[0]):
            return [(st, const(cval(recv).startswith(cval(args[0]))))]
        return None

    def m_lower(self, st, recv, o, args, kw, n):
        if is_const(recv):
            return [(st, const(cval(recv).lower()))]
        return None

    def m_split(self, st, recv, o, args, kw, n):
        if is_const(recv) and isinstance(cval(recv), str) and all(is_const(a) for a in args):
            return [
                self.alloc(
                    st, n, "list", None, tuple(("i", const(x)) for x in cval(recv).split(*[cval(a) for a in args]))
                )
            ]
        return None

    def m_issubset(self, st, recv, o, args, kw, n):
        return self.subset(st, recv, args[0])

    def m_issuperset(self, st, recv, o, args, kw, n):
        return self.subset(st, args[0], recv)

    def m_difference(self, st, recv, o, args, kw, n):
        return [(st, mk("op", "diff", self.freeze(st, recv), self.freeze(st, args[0])))]

    def m_intersection(self, st, recv, o, args, kw, n):
        return [(st, mk("op", "inter", self.freeze(st, recv), self.freeze(st, args[0])))]

    def m_union(self, st, recv, o, args, kw, n):
        return [(st, mk("op", "union", self.freeze(st, recv), self.freeze(st, args[0])))]

    def m_isdisjoint(self, st, recv, o, args, kw, n):
        return [
            (s, FALSE if cval(v) else TRUE)
            for s, v in self.quant(st, recv, lambda s, e: self.contains(s, e, args[0]), False)
        ]


def diffstates(pairs, limit=6):
    """debug aid: where do states differ"""
    import collections

    c = collections.Counter()
    for s, v in pairs:
        c[("val", v)] += 1
        for k, x in s.env.items():
            c[("env", k, show(x)[:80])] += 1
        for k, x in s.heap.items():
            c[("heap", show(k), str(x)[:100])] += 1
        for k, x in s.ov.items():
            c[("ov", show(k)[:80], show(x)[:80])] += 1
        c[("trace", tuple(e.name for e in s.trace))] += 1
    n = len(pairs)
    return [(k, x) for k, x in c.most_common() if x < n][:60]
