"""Rule framework: obligations, reports, evidence."""
import json
import os
import time

from .core import Broken
from .core import Program
from .core import SRC
from .core import T
from .core import attr
from .core import const
from .core import cval
from .core import is_const
from .core import item
from .core import mk
from .core import show
from .core import show_atom
from .core import subterms
from .core import sym
from .interp import CTX
from .interp import Interp
from .interp import Lossy
from .interp import Policy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# functions that stay uninterpreted in most analyses
BASE_OPAQUE = {
    "Database.set",
    "Database.get",
    "Database.__setitem__",
    "SessionManager.__setitem__",
    "SessionManager.__getitem__",
    "unpack_session_key",
    "session_key",
    "decrypt_session_id",
    "encrypted_session_id",
    "get_session_info_by_token",
    "get_session_info",
    "mint_token",
    "register_usage",
    "get_token",
    "is_active",
    "sanitize",
}

REQ = sym("REQ")
SELF = sym("self")


class Violation(object):
    def __init__(self, clause, construct, msg, detail):
        self.clause = clause
        self.construct = construct
        self.msg = msg
        self.detail = detail

    @property
    def key(self):
        return "%s|%s" % (self.clause, self.construct)


class Check(object):
    _prog = None

    def __init__(self, pid, tier="quick"):
        if Check._prog is None:
            Check._prog = Program()
        self.p = Check._prog
        self.pid = pid
        self.tier = tier
        self.viol = {}
        self.obl = {}  # clause -> count
        self.rules = {}  # clause -> text
        self.minima = {}
        self.functions = set()
        self.entries = []
        self.paths = 0
        self.sites = 0
        self.steps = 0
        self.cache = {}
        self.notes = []

    # -- analyses -------------------------------------------------------
    def method(self, cls, name):
        return self.p.need_method(cls, name)

    def run(self, cls, name=None, params=None, binds=None, pre=None, facts=None, raises=False, truth=False, **pol):
        """analyse a method (cls, name) or function; positional parameters are
        renamed to the given canonical symbols"""
        if name is None:
            fi = self.p.need_func(cls)
            label = fi.qual
            cq = None
        else:
            fi = self.p.need_method(cls, name)
            cq = self.p.need_class(cls)
            cq = getattr(cq, "qual", cls)
            label = "%s.%s" % (cq.rpartition(".")[2], name)
        op = pol.pop("opaque", None)
        if op is None:
            op = set(BASE_OPAQUE)
        op = (set(op) | set(pol.pop("more_opaque", ()))) - set(pol.pop("expose", ()))
        pol.setdefault("cap", 40)
        b = dict(binds or {})
        ps = [x for x in fi.params]
        if params:
            for n, s in zip(ps, params):
                if s is not None and n != "self":
                    b[n] = sym(s) if isinstance(s, str) else s
        t = time.time()
        # first with everything that becomes known kept, if that is not too much
        for first in (True, False, None):
            P = Policy(opaque=op, **pol)
            if first is None:
                # too much: more is forgotten
                P.cap, P.widen = max(P.cap // 10, 30), max(P.widen // 10, 200)
            if first:
                if P.nogc:
                    continue
                P.nogc = P.strict = True
                P.maxsteps = min(P.maxsteps, 400000)
            if cq is not None:
                P.types[SELF] = cq
            it = Interp(self.p, P)
            try:
                outs = it.run(fi, binds=b, pre=pre, facts=facts, truth=truth)
                break
            except (Lossy, Broken):
                if first is None:
                    raise
        self.puts = list(it.puts.values())
        self.live_iter = it.live_iter
        self.functions |= set(it.covered)
        self.paths += len(outs)
        self.sites += it.sites
        self.steps += it.steps
        self.entries.append(
            {"entry": label, "outcomes": len(outs), "calls": it.sites, "s": round(time.time() - t, 2)}
        )
        if not outs:
            raise Broken("no outcome for %s" % label)
        return [o for o in outs if raises or o.kind == "return"] if not raises else outs

    # -- obligations ----------------------------------------------------
    def rule(self, clause, text, minimum=1):
        self.rules[clause] = text
        self.minima[clause] = minimum
        self.obl.setdefault(clause, 0)

    def ob(self, clause, construct, ok, msg="", o=None, where=None, extra=None):
        self.obl[clause] = self.obl.get(clause, 0) + 1
        if ok:
            return True
        v = Violation(clause, construct, msg or self.rules.get(clause, ""), {})
        if v.key not in self.viol:
            d = v.detail
            d["where"] = where
            if o is not None:
                facts = getattr(o, "facts", None) or {}
                d["path_guards"] = [
                    "%s%s" % ("" if b is True else ("not " if b is False else "%s = " % show(b)), show_atom(a)[:400])
                    for a, b in list(facts.items())[:60]
                ]
                tr = getattr(o, "trace", None)
                if tr is not None and hasattr(o, "kind"):
                    d["path_events"] = [str(e)[:400] for e in tr][:40]
                    d["result"] = "%s %s" % (o.kind, show(o.val)[:400])
                if hasattr(o, "site"):
                    d.setdefault("where", None)
                    d["where"] = d["where"] or o.site
            if extra:
                d["extra"] = extra
            self.viol[v.key] = v
        return False

    def done(self):
        for c, m in self.minima.items():
            # far fewer than on the tree the clause was written for: it no longer sees its subject
            if self.obl.get(c, 0) < (m + 2) // 3:
                raise Broken(
                    "clause %s matched %d instances, expected at least %d"
                    % (c, self.obl.get(c, 0), m)
                )


# ------------------------------------------------------------------ queries


def facts_of(o):
    return o if isinstance(o, dict) else o.facts


def true(o, t):
    return facts_of(o).get(("T", t)) is True


def any_fact(o, kind, pred, val=True):
    for a, b in facts_of(o).items():
        if a[0] == kind and b is val and pred(*a[1:]):
            return True
    return False


def eq_pairs(o, val=True):
    for a, b in facts_of(o).items():
        if a[0] == "EQ" and b is val:
            yield a[1], a[2]
        elif a[0] == "VAL" and val is True:
            yield a[1], b


def has_eq(o, p, q, val=True):
    for x, y in eq_pairs(o, val):
        if (p(x) and q(y)) or (p(y) and q(x)):
            return True
    return False


def is_key(t, key, base=None):
    """t is X[key]"""
    return (
        t.k == "item" and is_const(t.a[1]) and cval(t.a[1]) == key and (base is None or base(t.a[0]))
    )


def is_call(t, *names):
    return t.k == "call" and t.a[0] in names


def mentions(t, pred):
    for s in subterms(t):
        if pred(s):
            return True
    return False


def has_call(t, *names):
    return mentions(t, lambda s: is_call(s, *names))


def has_sub(t, sub):
    return mentions(t, lambda s: s is sub)


def req_key(t, key, req=REQ):
    """a read of REQ[key], possibly normalised by string methods"""
    return mentions(t, lambda s: s.k == "item" and s.a[0] is req and is_const(s.a[1]) and cval(s.a[1]) == key)


def alts(t):
    return t.a if t.k == "phi" else (t,)


def kv(o, t, key):
    """value stored under key in a dict/instance allocation (last write wins)"""
    st = o.st
    if t.k != "alloc":
        return None
    ob = st.heap.get(t)
    if ob is None:
        return None
    for ly in reversed(ob.layers):
        if ly[0] == "kv" and is_const(ly[1]) and cval(ly[1]) == key:
            return ly[2]
    return None


def layers(o, t):
    ob = o.st.heap.get(t) if t.k == "alloc" else None
    return ob.layers if ob is not None else ()


ERRCALL = {"error_cls"}


def is_error_val(o, v):
    if v.k == "phi":
        return all(is_error_val(o, x) for x in v.a)
    if v.k == "call":
        n = v.a[0]
        if n in ERRCALL or n.endswith("ErrorResponse") or n.endswith("ErrorMessage"):
            return True
        return any(k == "error" and not (is_const(x) and not cval(x)) for k, x in v.a[3])
    if v.k == "alloc":
        ob = o.st.heap.get(v)
        if ob is None:
            return False
        if ob.cls and ob.cls.rpartition(".")[2].endswith("ErrorResponse"):
            return True
        e = kv(o, v, "error")
        return e is not None and not (is_const(e) and not cval(e))
    return False


def success(o):
    return o.kind == "return" and not is_error_val(o, o.val) and not (
        is_const(o.val) and cval(o.val) is None
    )


def events(o, *names):
    return [e for e in o.trace if e.name in names]


def truthy_possible(v):
    return not (is_const(v) and not cval(v))


def deep(o, t, seen=None):
    """subterms, looking into allocations"""
    seen = set() if seen is None else seen
    for s in subterms(t):
        if id(s) in seen:
            continue
        seen.add(id(s))
        yield s
        if s.k == "alloc":
            for l in layers(o, s):
                for x in l[1:]:
                    if isinstance(x, T):
                        for y in deep(o, x, seen):
                            yield y


def deep_has(o, t, pred):
    return any(pred(s) for s in deep(o, t))
