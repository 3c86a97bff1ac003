"""The session database: where sessions are stored, found and deleted; sealed identifiers."""
import ast

from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .claims import val
from .session import argn, call_arg, cls_of, enc

DB = "oidcop.session.database.Database"
SM = "oidcop.session.manager.SessionManager"
INFO = {"ClientSessionInfo", "UserSessionInfo", "SessionInfo"}
BIG = dict(cap=400, widen=3000, ctor_inline=INFO, noraise={"session_key", "unpack_session_key"})
U, C, G, VAL, SID = sym("UID"), sym("CID"), sym("GID"), sym("VAL"), sym("SID")
SDB = attr(SELF, "db")


def seq(o, t):
    """the elements of a literal sequence (or of the decrypted identifier, P)"""
    if t is None:
        return None
    if t.k == "tuple":
        return tuple(t.a)
    if t.k == "lit" and t.a[0] == "seq":
        return tuple(t.a[1])
    if t.k == "alloc":
        ls = layers(o, t)
        if ls and all(l[0] == "i" for l in ls):
            return tuple(l[1] for l in ls)
        if len(ls) == 1 and ls[0][0] == "s":
            return seq(o, ls[0][1])
    if is_call(t, "decrypt_session_id"):
        return (t,)
    return None


def kids(o, t):
    """the identifiers a key of the database is made of"""
    if t is None:
        return None
    if is_call(t, "session_key"):
        xs = tuple(t.a[2]) + tuple(v for _, v in t.a[3])
        return xs
    if is_call(t, "join") and t.a[1] is not None and is_const(t.a[1]) and t.a[2]:
        return seq(o, t.a[2][0])
    return (t,)


def rec(o, t):
    """the path a record of the database was found under"""
    if t.k == "item" and t.a[0] is SDB:
        return kids(o, t.a[1])
    if is_call(t, "get") and t.a[1] is SELF:
        return seq(o, call_arg(t, "path", 0))
    if t.k == "item" and t.a[0] is SELF:
        return (t.a[1],)
    if is_call(t, "__getitem__") and t.a[1] is SELF:
        return (args_of(t)[0],)
    return None


def sub_of(o, t):
    """X.subordinate -> the path of X"""
    if t.k == "attr" and t.a[1] == "subordinate":
        return rec(o, t.a[0])
    return None


def elem_of(o, t):
    """element of the subordinate list of a record -> path of the record"""
    if t.k == "elem":
        return sub_of(o, t.a[0])
    if is_call(t, "pop") and t.a[1] is not None:
        return sub_of(o, t.a[1])
    return None


def ids(n):
    return (U, C, G)[:n]


def separable(o, want):
    """unpack_session_key(session_key(ids)) == ids"""
    for x, y in eq_pairs(o):
        for a, b in ((x, y), (y, x)):
            if seq(o, a) == want and is_call(b, "unpack_session_key"):
                k = call_arg(b, "key", 0)
                if k is not None and kids(o, k) == want:
                    return True
    return False


def in_fact(o, x, c, want=True):
    return any(a[0] == "IN" and b is want and x(a[1]) and c(a[2]) for a, b in o.facts.items())


def listed(o, x, parent, want=True):
    """x is known to be listed by the record stored under parent"""
    return in_fact(o, lambda t: t is x, lambda t: sub_of(o, t) == parent, want)


def touches(o):
    return any(k[0] == "i" and k[1] is SDB for k in o.st.ov)


def mut(names):
    return lambda kind, name, recv, it, st: kind == "mutate" and name in names


def P(i):
    return lambda t: t.k == "item" and is_call(t.a[0], "decrypt_session_id") and is_const(t.a[1]) and cval(t.a[1]) == i and \
        call_arg(t.a[0], "key", 0) is SID


def is_path(o, t, n):
    """the first n parts of the decrypted identifier"""
    xs = seq(o, t)
    if xs is None:
        return False
    if len(xs) == 1 and is_call(xs[0], "decrypt_session_id"):
        return n == 3 and call_arg(xs[0], "key", 0) is SID
    return len(xs) == n and all(P(i)(x) for i, x in enumerate(xs))


@prop("C32")
def storage(ck):
    ck.rule("C32.key", "identifiers are only used for access if the key they are joined into can be taken apart into the same identifiers", 8)
    ck.rule("C32.get", "what is found for a path is the record stored under the key of exactly that path, and each record on the way lists the next", 3)
    ck.rule("C32.set", "a value is stored under the key of its path only, and its parents list it; parents that are new are empty otherwise", 6)
    ck.rule("C32.create", "the session identifier that is handed out is that of the new grant; existing records are not replaced", 3)
    ck.rule("C32.store", "outside of the session package records are stored under the path the session identifier is unsealed into, never under a sealed identifier", 2)
    ck.rule("C32.access", "what is returned or changed for a session identifier is the record of the user, client or grant it names", 12)
    # ---- get
    for n in (1, 2, 3):
        want = ids(n)
        outs = ck.run(DB, "get", ["self", mk("tuple", *want)], facts={("T", x): True for x in want}, raises=True, expose={"Database.get"}, **BIG)
        m = 0
        for o in outs:
            if o.kind != "return":
                continue
            m += 1
            ck.ob("C32.get", "get:%d" % n, rec(o, o.val) == want, "a path leads to %s" % show(o.val)[:100], o)
            ck.ob("C32.key", "get:%d" % n, separable(o, want), "another path can lead to the same record", o)
            for i in range(1, n):
                ck.ob("C32.get", "get:%d listed %d" % (n, i), listed(o, want[i], want[:i]), "the record is not checked to belong to its parent", o)
        if not m:
            raise Broken("get never returns")
    # ---- set
    for n in (1, 2, 3):
        want = ids(n)
        outs = ck.run(DB, "set", ["self", mk("tuple", *want), "VAL"], facts={("T", x): True for x in want}, raises=True, log_puts=True,
                      expose={"Database.set"}, watch_fn=mut({"append", "remove", "clear", "pop", "update"}), **BIG)
        m = 0
        for o in outs:
            if o.kind != "return":
                continue
            m += 1
            con = "set:%d" % n
            ck.ob("C32.key", con, separable(o, want), "the record can replace that of another path", o)
            got = {}
            for k, v in o.st.ov.items():
                if k[0] == "i" and k[1] is SDB:
                    got[kids(o, k[2])] = v
            ck.ob("C32.set", con + ":stored", got.get(want) is VAL, "the value is not stored under its key", o)
            for k, v in got.items():
                if k == want:
                    continue
                ok = k == want[:len(k)] and len(k) < n
                ck.ob("C32.set", con + ":only", ok, "something is stored under another key: %s" % show(v)[:80], o)
                if not ok:
                    continue
                if rec(o, v) == k:
                    continue
                new = v.k == "alloc" and cls_of(o, v) in INFO
                s = o.st.ov.get(("a", v, "subordinate")) if new else None
                els = seq(o, s) if s is not None else None
                ck.ob("C32.set", con + ":parent", new and els == (want[len(k)],) and in_fact(
                    o, lambda t: kids(o, t) == k, lambda t: t is SDB, False), "a parent is replaced by %s" % show(v)[:100], o)
            for i in range(1, n):
                p = want[:i]
                ok = listed(o, want[i], p) or any(e.kind == "mutate" and e.name == "append" and e.recv is not None and sub_of(o, e.recv) == p and
                                                  any(v is want[i] for _, v in e.args) for e in o.trace)
                v = got.get(p)
                if v is not None and v.k == "alloc":
                    s = o.st.ov.get(("a", v, "subordinate"))
                    ok = ok or (s is not None and want[i] in (seq(o, s) or ()))
                ck.ob("C32.set", con + ":listed %d" % i, ok, "what is stored is not listed by its parent", o)
            for e in o.trace:
                if e.kind == "mutate" and e.recv is not None and (e.recv is SDB or sub_of(o, e.recv) is not None):
                    ck.ob("C32.set", con + ":other", e.name == "append" and any(v in want for _, v in e.args), "%s on %s" % (e.name, show(e.recv)[:60]), o)
        if not m:
            raise Broken("set never returns")
    # ---- creation
    args = ["self", "AE", "REQ", "UID", "CID", None, None, None]
    m = 0
    for o in ck.run(SM, "create_grant", args, watch={"set", "encrypted_session_id"}, watch_ctor={"Grant"}, **BIG):
        e = [x for x in events(o, "set") if x.recv is SELF]
        ok = len(e) == 1
        if ok:
            path = seq(o, argn(e[0], "path", 0)) or ()
            v = argn(e[0], "value", 1)
            ok = len(path) == 3 and path[0] is U and path[1] is C and path[2] is attr(v, "id") or (
                len(path) == 3 and path[:2] == (U, C) and o.st.ov.get(("a", v, "id")) is path[2])
            ck.ob("C32.create", "create_grant:stored", ok and cls_of(o, v) == "Grant", "the grant is not stored under its user, client and identifier", o)
            x = o.val
            parts = tuple(x.a[2]) + tuple(y for _, y in x.a[3]) if is_call(x, "encrypted_session_id") else None
            if parts and len(parts) == 1:
                parts = seq(o, parts[0]) or parts
            ck.ob("C32.create", "create_grant:id", parts == path, "the session identifier is not that of the grant", o)
            m += 1
        else:
            ck.ob("C32.create", "create_grant:stored", False, "", o)
    outs = ck.run(SM, "create_session", args, facts={("T", C): True, ("T", U): True}, raises=True, log_puts=True,
                  expose={"Database.get", "Database.set"}, more_opaque={"create_grant"}, **BIG)
    for p in ck.puts:
        if p.base is not SDB:
            continue
        k = kids(outs[0], p.key)
        if p.val.k == "item" and p.val.a[0] is SDB and kids(outs[0], p.val.a[1]) == k:
            continue
        new = not is_const(p.val)
        if k == (U,):
            ok = p.facts.get(("IN", U, SDB)) is False or p.facts.get(("NONE", item(SDB, U))) is True
        elif k == (U, C):
            ok = p.facts.get(("IN", p.key, SDB)) is False or p.facts.get(("IN", U, SDB)) is False or listed(p, C, (U,), False) or p.facts.get(
                ("NONE", item(SDB, U))) is True
        else:
            ok = False
        # a record made before on this path may be stored again
        ok = ok and new
        ck.ob("C32.create", "create_session:%d" % len(k or ()), ok, "an existing record is replaced by %s" % show(p.val)[:80], p, p.site)
    for o in outs:
        if o.kind != "return":
            continue
        v = o.val
        ck.ob("C32.create", "create_session:grant", is_call(v, "create_grant") and call_arg(v, "user_id", 2) is U and call_arg(v, "client_id", 3) is C,
              "the grant is created for another user or client", o)
    access(ck)


def rp(o, v, n):
    """v is the record stored under the first n parts of the session identifier"""
    if v is None:
        return False
    xs = rec(o, v)
    if xs is None:
        return False
    if len(xs) == 1 and xs[0] is SID:
        return n == 3
    if len(xs) == 1 and is_call(xs[0], "decrypt_session_id"):
        return n == 3 and call_arg(xs[0], "key", 0) is SID
    return len(xs) == n and all(P(i)(x) for i, x in enumerate(xs))


def access(ck):
    def ret(name, test, msg, params=("SID",), minimum=1, **kw):
        m = 0
        for o in ck.run(SM, name, ["self"] + list(params), expose=kw.pop("expose", set()), **dict(BIG, **kw)):
            if o.kind != "return" or (is_const(o.val) and cval(o.val) is None and kw.get("none_ok", name == "find_token")):
                continue
            m += 1
            ck.ob("C32.access", name, test(o), msg, o)
        if m < minimum:
            raise Broken("%s never returns" % name)

    ret("get_grant", lambda o: rp(o, o.val, 3), "another grant")
    ret("get_client_session_info", lambda o: rp(o, o.val, 2), "another client session")
    ret("get_user_session_info", lambda o: rp(o, o.val, 1), "another user session")
    ret("get_user_info", lambda o: rec(o, o.val) == (U,), "another user session", ("UID",))
    ret("__getitem__", lambda o: rp(o, o.val, 3), "another record", expose={"SessionManager.__getitem__"})
    ret("client_session_is_revoked", lambda o: o.val.k == "attr" and o.val.a[1] == "revoked" and rp(o, o.val.a[0], 2) or
        is_call(o.val, "is_revoked") and rp(o, o.val.a[1], 2), "whether another record was revoked")
    tv = sym("TV")
    ret("find_token", lambda o: o.val.k == "elem" and o.val.a[0].k == "attr" and o.val.a[0].a[1] == "issued_token" and rp(o, o.val.a[0].a[0], 3)
        and has_eq(o, lambda t: t is attr(o.val, "value"), lambda t: t is tv), "a token of another session or value", ("SID", "TV"))
    for o in ck.run(SM, "get_session_info", ["self", "SID"], expose={"get_session_info"}, **BIG):
        flag = lambda n: facts_of(o).get(("T", sym(n)))
        for k, n, t in (("user_id", 0, P(0)), ("client_id", 1, P(1)), ("grant_id", 2, P(2)), ("session_id", None, lambda t: t is SID),
                        ("user_session_info", None, lambda t: rp(o, t, 1)), ("client_session_info", None, lambda t: rp(o, t, 2)),
                        ("grant", None, lambda t: rp(o, t, 3)),
                        ("authentication_event", None, lambda t: t.k == "attr" and t.a[1] == "authentication_event" and rp(o, t.a[0], 3)),
                        ("authorization_request", None, lambda t: t.k == "attr" and t.a[1] == "authorization_request" and rp(o, t.a[0], 3))):
            v = val(o, o.val, k)
            if v is None and flag(k) is not True and not k.endswith("_id"):
                continue
            ck.ob("C32.access", "get_session_info:%s" % k, v is not None and t(v), "%s is %s" % (k, show(v)[:80] if v is not None else None), o)
    for name, at in (("get_authorization_request", "authorization_request"), ("get_authentication_event", "authentication_event")):
        def test(o):
            v = o.val
            if v.k == "attr" and v.a[1] == at:
                return rp(o, v.a[0], 3)
            return is_key(v, at, lambda b: is_call(b, "get_session_info") and call_arg(b, "session_id", 0) is SID)
        ret(name, test, "the %s of another session" % at.replace("_", " "))
    # collections
    for name, last in (("grants", None), ("get_authentication_events", "authentication_event")):
        for o in ck.run(SM, name, ["self", "SID", "UID", "CID"], **BIG):
            if o.kind != "return":
                continue
            bysid = facts_of(o).get(("T", SID)) is True
            for l in layers(o, o.val):
                v = l[-1]
                if last is not None and v.k == "attr" and v.a[1] == last:
                    v = v.a[0]
                elif last is not None:
                    v = const(None)
                xs = rec(o, v) or ()
                par = elem_of(o, xs[2]) if len(xs) == 3 else None
                if bysid:
                    ok = par is not None and P(0)(xs[0]) and P(1)(xs[1]) and len(par) == 2 and P(0)(par[0]) and P(1)(par[1])
                else:
                    ok = par == (U, C) and xs[:2] == (U, C)
                ck.ob("C32.access", name, ok, "other grants are returned: %s" % show(l[-1])[:100], o)
    # changes
    x = sym("VALUE")
    for o in ck.run(SM, "__setitem__", ["self", "SID", "VALUE"], expose={"SessionManager.__setitem__"}, watch={"set"}, **BIG):
        e = events(o, "set")
        ck.ob("C32.access", "__setitem__", len(e) == 1 and is_path(o, argn(e[0], "path", 0), 3) and argn(e[0], "value", 1) is x,
              "another record is replaced", o)
    for o in ck.run(SM, "revoke_grant", ["self", "SID"], watch={"set", "revoke"}, more_opaque={"revoke"}, **BIG):
        rv = [k[1] for k, v in o.st.ov.items() if k[0] == "a" and k[2] == "revoked" and v is const(True)] + [e.recv for e in events(o, "revoke")]
        ck.ob("C32.access", "revoke_grant", len(rv) == 1 and rp(o, rv[0], 3), "another grant is revoked", o)
        for e in events(o, "set"):
            ck.ob("C32.access", "revoke_grant:set", is_path(o, argn(e, "path", 0), 3) and rp(o, argn(e, "value", 1), 3), "another record is replaced", o, e.site)
    info = lambda t: is_key(t, "sid", lambda b: is_call(b, "info") and any(v is tv for v in list(b.a[2]) + [w for _, w in b.a[3]]))

    def sid_of(t):
        if is_call(t, "_compatible_sid"):
            t = call_arg(t, "sid", 0)
        return t is not None and info(t)
    # the session a token belongs to
    for o in ck.run(SM, "get_session_info_by_token", ["self", "TV"], expose={"get_session_info_by_token"}, more_opaque={"_compatible_sid"}, **BIG):
        ck.ob("C32.access", "get_session_info_by_token", is_call(o.val, "get_session_info") and sid_of(call_arg(o.val, "session_id", 0)),
              "the session is not the one the token names", o)
    for o in ck.run(SM, "get_session_id_by_token", ["self", "TV"], more_opaque={"_compatible_sid"}, **BIG):
        ck.ob("C32.access", "get_session_id_by_token", sid_of(o.val), "the session is not the one the token names", o)
    for o in ck.run(SM, "_compatible_sid", ["self", "SID"], **BIG):
        v = o.val
        if v is SID:
            continue
        xs = tuple(v.a[2]) + tuple(w for _, w in v.a[3]) if is_call(v, "encrypted_session_id") else ()
        if len(xs) == 1:
            xs = seq(o, xs[0]) or xs
        up = lambda t: is_call(t, "unpack_session_key") and call_arg(t, "key", 0) is SID
        ck.ob("C32.access", "_compatible_sid", bool(xs) and all(mentions(t, up) for t in xs) and (
            len(xs) == 1 or all(t.k == "item" and t.a[1] is const(i) for i, t in enumerate(xs))), "another session", o)
    stored_where_kept(ck)
    # a grant that is added is listed once
    for o in ck.run(SM, "add_grant", ["self", "UID", "CID"], watch={"set", "append"}, watch_fn=mut({"append"}), **BIG):
        e = events(o, "set")
        n = [x for x in e if (seq(o, argn(x, "path", 0)) or ())[:2] == (U, C) and cls_of(o, argn(x, "value", 1)) == "Grant"]
        ck.ob("C32.access", "add_grant", len(n) == 1 and o.val is argn(n[0], "value", 1), "the grant is not stored", o)
        ck.ob("C32.access", "add_grant:once", not any(x.kind == "mutate" and x.recv is not None and x.recv.k == "attr" and x.recv.a[1] == "subordinate" for x in o.trace)
              and len(e) == 1, "the grant is listed more than once", o)


def stored_where_kept(ck):
    """every function outside of the session package that stores something in the session manager"""
    smgr = lambda r: r is not None and (r is attr(CTX, "session_manager") or r.k == "attr" and r.a[1] == "session_manager" or is_call(r, "session_manager"))
    for q, f in sorted(ck.p.funcs.items()):
        if f.module.external or ".session." in f.module.name:
            continue
        alias = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == "session_manager"
                 for t in n.targets if isinstance(t, ast.Name)}
        man = lambda e: isinstance(e, ast.Attribute) and e.attr == "session_manager" or isinstance(e, ast.Name) and e.id in alias
        if not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and man(n.value)
                   or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "set" and man(n.func.value) for n in ast.walk(f.node)):
            continue
        cls, name = (f.cls.qual, f.name) if f.cls else (q, None)
        others = {g.name for g in ck.p.funcs.values() if g is not f} - {"__init__"}
        for o in ck.run(cls, name, None, watch={"set", "__setitem__"}, more_opaque=others, cap=200, widen=2000):
            for e in events(o, "set"):
                if smgr(e.recv):
                    t = argn(e, "path", 0)
                    ok = not mentions(t, lambda s: is_call(s, "unpack_session_key") and not mentions(s, lambda u: is_call(u, "session_key", "decrypt", "lv_unpack")))
                    ck.ob("C32.store", f.name, ok, "a record is stored under %s" % show(t)[:120], o, e.site)
            for e in events(o, "__setitem__"):
                if smgr(e.recv):
                    ck.ob("C32.store", f.name, True)


# ------------------------------------------------------------------ C33


@prop("C33")
def deletion(ck):
    ck.rule("C33.deleted", "after a path has been deleted neither its record nor any record below is left; an emptied parent may go with it", 5)
    ck.rule("C33.only", "only the records of the path and below are deleted, and parents that became empty", 4)
    ck.rule("C33.unlinked", "what was deleted is no longer listed by its parent", 3)
    ck.rule("C33.complete", "no collection is changed while it is being iterated over", 3)
    ck.rule("C33.session", "removing a session deletes the grant it names", 1)
    for n in (1, 2, 3):
        want = ids(n)
        outs = ck.run(DB, "delete", ["self", mk("tuple", *want)], facts={("T", x): True for x in want}, raises=True, log_puts=True,
                      watch_fn=lambda kind, name, recv, it, st: kind in ("mutate", "delitem"), loop_track=True, **BIG)
        con = "delete:%d" % n
        ck.ob("C33.complete", con, not ck.live_iter, "elements are removed from the list that is being iterated over: %s" % [
            "%s %s" % (k[0], show(k[1])[:80]) for k in ck.live_iter][:2])
        m = 0
        for o in outs:
            if o.kind != "return":
                continue
            gone, kept, un = set(), set(), set()
            for k, v in o.st.ov.items():
                if k[0] == "i" and k[1] is SDB:
                    (gone if show(v) == "deleted()" else kept).add(path_of(o, k[2]))
            for e in o.trace:
                if e.kind == "mutate" and e.recv is not None and sub_of(o, e.recv) is not None and e.name in ("remove", "discard", "pop"):
                    p = tuple(norm(o, x) for x in sub_of(o, e.recv))
                    for _, v in e.args:
                        un.add(p + (norm(o, v),))
                if e.kind == "mutate" and e.recv is not None and e.recv is SDB:
                    ck.ob("C33.only", con + ":" + e.name, e.name in ("__delitem__", "pop") and path_of(o, e.args[0][1]) is not None, "the whole database is changed", o, e.site)
                    if e.name == "pop" and e.args:
                        gone.add(path_of(o, e.args[0][1]))
            early = [e for e in o.trace if e.kind == "early"]
            absent = lambda p: known_absent(o, p)
            # what is deleted
            for p in gone:
                if p[:n] == want or p == want:
                    continue
                ok = p == want[:len(p)] and emptied(o, p)
                ck.ob("C33.only", con + ":other", ok, "another record is deleted: %s" % [show(x)[:60] for x in p], o)
            if p_ok(o, want, gone, absent):
                ck.ob("C33.deleted", con + ":own", True)
                m += 1
            else:
                # the record of a client goes when the last grant has gone
                ok = n == 2 and nonempty(o, want)
                ck.ob("C33.deleted", con + ":own", ok, "the record of the path is left", o)
            ck.ob("C33.deleted", con + ":all", not early, "the loop ends before everything below is deleted", o)
            # everything below
            for p in below(o, want, n):
                ok = p in gone or known_absent(o, p) or (len(p) == 2 and nonempty(o, p))
                ck.ob("C33.deleted", con + ":below %d" % len(p), ok, "a record below is left", o)
            # unlinked
            for p in gone:
                if len(p) == 1 or p[:-1] in gone:
                    continue
                ok = p in un or not_listed(o, p)
                ck.ob("C33.unlinked", con + ":%d" % len(p), ok, "a record that is gone is still listed", o)
        if not m:
            raise Broken("delete never deletes")
    for o in ck.run(SM, "remove_session", ["self", "SID"], watch={"delete"}, more_opaque={"delete"}, **BIG):
        e = events(o, "delete")
        ck.ob("C33.session", "remove_session", len(e) == 1 and is_path(o, argn(e[0], "path", 0), 3), "another path is deleted", o)


def norm(o, t):
    """an element of X.subordinate stands for any identifier listed there"""
    p = elem_of(o, t)
    if p is not None:
        return mk("op", "child", *[norm(o, x) for x in p])
    return t


def path_of(o, k):
    xs = kids(o, k)
    return tuple(norm(o, x) for x in xs) if xs is not None else None


def fact_paths(o, kind, want):
    for a, b in o.facts.items():
        if a[0] == kind and b is want:
            yield a


def known_absent(o, p):
    for a in fact_paths(o, "IN", False):
        if a[2] is SDB and path_of(o, a[1]) is not None and p[:len(path_of(o, a[1]))] == path_of(o, a[1]):
            return True
        s = sub_of(o, a[2])
        if s is not None and tuple(norm(o, x) for x in s) + (norm(o, a[1]),) == p[:len(s) + 1]:
            return True
    for a in fact_paths(o, "NONE", True):
        r = rec(o, a[1])
        if r is not None and tuple(norm(o, x) for x in r) == p[:len(r)]:
            return True
    return False


def not_listed(o, p):
    for a in fact_paths(o, "IN", False):
        s = sub_of(o, a[2])
        if s is not None and tuple(norm(o, x) for x in s) == p[:-1] and norm(o, a[1]) is p[-1]:
            return True
    return False


def p_ok(o, want, gone, absent):
    return want in gone or absent(want) or any(want[:i] in gone for i in range(1, len(want)) if False)


def counted(o, p, empty):
    """what is known about len(X.subordinate) / X.subordinate"""
    sub = lambda t: sub_of(o, t) is not None and tuple(norm(o, x) for x in sub_of(o, t)) == p
    ln = lambda t: t.k == "op" and t.a[0] == "len" and sub(t.a[1])
    for a, b in o.facts.items():
        if a[0] == "T" and (sub(a[1]) or ln(a[1])) and b is (not empty):
            return True
        if a[0] == "EQ" and (ln(a[1]) and a[2] is const(0) or ln(a[2]) and a[1] is const(0)) and b is empty:
            return True
        if a[0] == "VAL" and ln(a[1]) and (b is const(0)) is empty:
            return True
        if a[0] == "LT" and a[1] is const(0) and ln(a[2]) and b is (not empty):
            return True
        if a[0] == "LT" and ln(a[1]) and a[2] is const(1) and b is empty:
            return True
    return False


def emptied(o, p):
    return counted(o, p, True)


def nonempty(o, p):
    return counted(o, p, False)


def below(o, want, n):
    """the records below that are known to exist on this path"""
    out = []
    for a in fact_paths(o, "T", True):
        s = sub_of(o, a[1])
        if s is None:
            continue
        p = tuple(norm(o, x) for x in s)
        if p[:n] == want:
            out.append(p + (mk("op", "child", *p),))
    return out


# ------------------------------------------------------------------ C34

CRYPT = "oidcop.util.Crypt"


def exposed(t, secret, sealing):
    """an occurrence of something secret that is not inside of what sealing() accepts"""
    if sealing(t):
        return False
    if secret(t):
        return True
    for x in t.a:
        if isinstance(x, tuple):
            for y in x:
                if hasattr(y, "k"):
                    if exposed(y, secret, sealing):
                        return True
                elif isinstance(y, tuple):
                    if any(hasattr(z, "k") and exposed(z, secret, sealing) for z in y):
                        return True
        elif hasattr(x, "k") and exposed(x, secret, sealing):
            return True
    return False


def crypt_of(attrname="crypt", self_=SELF):
    return lambda t: t is not None and (t is attr(self_, attrname) or t is attr(attr(self_, attrname), "core"))


def keyed(o, t, pw):
    """Fernet(urlsafe_b64encode(sha256(pw).digest()))"""
    if t is None or t.k != "alloc" or cls_of(o, t) != "Fernet":
        return False
    ls = layers(o, t)
    k = [l[-1] for l in ls]
    k = [x for x in k if not is_const(x) or cval(x) is not None]
    return len(k) == 1 and mentions(k[0], lambda s: is_call(s, "sha256", "sha384", "sha512", "scrypt", "pbkdf2_hmac") and has_sub(s, pw))


@prop("C34")
def sealed(ck):
    ck.rule("C34.seal", "a session identifier contains the path of the session only encrypted with the key of the session database", 2)
    ck.rule("C34.open", "a path comes out of a session identifier only by authenticated decryption with that key; anything else is an error", 1)
    ck.rule("C34.cipher", "the cipher is Fernet with a key derived from the password, for sealing and for opening", 5)
    ck.rule("C34.key", "the database seals with the key it keeps, also after it has been loaded, and the key is configured or random", 4)
    ck.rule("C34.out", "what is sent to the client or the user agent names a session only sealed, and not the user the way the provider knows her", 3)
    ck.rule("C34.fixed", "the configured key and salt of a session manager can not be replaced", 2)
    opaque_key = dict(BIG, noraise={"session_key", "unpack_session_key"})
    a, b, c = sym("A"), sym("B"), sym("C")
    enc_ok = lambda t: is_call(t, "encrypt") and crypt_of()(t.a[1])
    dec_ok = lambda t: is_call(t, "decrypt") and crypt_of()(t.a[1])
    for o in ck.run(DB, "encrypted_session_id", None, binds={"args": mk("tuple", a, b, c)}, expose={"encrypted_session_id"}, **opaque_key):
        sec = lambda t: t in (a, b, c) or is_call(t, "session_key")
        ck.ob("C34.seal", "encrypted_session_id:clear", not exposed(o.val, sec, enc_ok), "the path is part of the session identifier", o)
        ck.ob("C34.seal", "encrypted_session_id:path", mentions(o.val, enc_ok) and mentions(o.val, lambda t: is_call(t, "session_key") and kids(o, t) == (a, b, c)
                                                                                               or is_call(t, "session_key") and len(t.a[2]) == 1),
              "the session identifier does not hold the path", o)
    n = 0
    for o in ck.run(DB, "decrypt_session_id", ["self", "SID"], raises=True, expose={"decrypt_session_id"}, loop=2,
                    **dict(BIG, noraise={"session_key", "unpack_session_key"})):
        if o.kind != "return":
            continue
        n += 1
        ck.ob("C34.open", "decrypt_session_id", mentions(o.val, dec_ok) and not exposed(o.val, lambda t: t is SID, dec_ok),
              "what is not sealed is believed: %s" % show(o.val)[:120], o)
    if not n:
        raise Broken("decrypt_session_id never returns")
    # what is packed is what is unpacked
    packed, unpacked = set(), set()
    for o in ck.run(DB, "encrypted_session_id", None, binds={"args": mk("tuple", a, b, c)}, expose={"encrypted_session_id"}, more_opaque={"lv_pack"}, **opaque_key):
        for s in subterms(o.val):
            if is_call(s, "lv_pack"):
                xs = tuple(s.a[2])
                if len(xs) == 1:
                    xs = seq(o, xs[0]) or xs
                if len(xs) == 1 and xs[0].k == "op" and xs[0].a[0] == "star":
                    xs = seq(o, xs[0].a[1]) or xs
                packed |= {(i, len(xs)) for i, x in enumerate(xs) if is_call(x, "session_key")}
    for o in ck.run(DB, "decrypt_session_id", ["self", "SID"], expose={"decrypt_session_id"}, more_opaque={"lv_unpack"}, **opaque_key):
        for s in subterms(o.val):
            if s.k == "item" and is_call(s.a[0], "lv_unpack") and is_const(s.a[1]):
                unpacked.add(cval(s.a[1]))
    if packed:
        ck.ob("C34.open", "position", len(packed) == 1 and all(i in unpacked or i - n_ in unpacked for i, n_ in packed) and len(unpacked) == 1,
              "what is taken out (%s) is not what was put in (%s)" % (sorted(unpacked), sorted(packed)))
    # --- what is sent
    uid = lambda t: t.k == "item" and t.a[1] is const("user_id") and mentions(t.a[0], lambda s: is_call(s, "get_session_info", "get_session_info_by_token"))
    leak = lambda t: is_call(t, "session_key", "decrypt_session_id") or uid(t)
    seals = lambda t: is_call(t, "encrypted_session_id", "encrypt")
    for cls, name in (("oidcop.oauth2.token.Token", "process_request"), ("oidcop.oidc.token.Token", "process_request"),
                      ("oidcop.oauth2.authorization.Authorization", "post_authentication"), ("oidcop.oauth2.authorization.Authorization", "authz_part2")):
        for o in ck.run(cls, name, None, watch={"new_cookie"}, more_opaque={"create_authn_response", "setup_client_session", "post_authentication"}, **BIG):
            for e in events(o, "new_cookie"):
                ck.ob("C34.out", "%s.%s:cookie" % (cls.split(".")[1], name), not any(exposed(v, leak, seals) for _, v in e.args),
                      "a cookie holds what identifies the session or the user in clear", o, e.site)
            if o.kind == "return":
                ck.ob("C34.out", "%s.%s" % (cls.split(".")[1], name), not exposed(o.val, leak, seals), "the response holds what identifies the session or the user in clear", o)
    # --- the cipher
    pw, txt = sym("PW"), sym("TXT")
    for o in ck.run(CRYPT, "__init__", ["self", "PW"], **BIG):
        core = o.st.ov.get(("a", SELF, "core"))
        ck.ob("C34.cipher", "Crypt.__init__", keyed(o, core, pw), "the key of the cipher does not depend on the password", o)
    for name, call in (("encrypt", "encrypt"), ("decrypt", "decrypt")):
        for o in ck.run(CRYPT, name, ["self", "TXT"], **BIG):
            good = lambda t: is_call(t, call) and t.a[1] is attr(SELF, "core")
            ck.ob("C34.cipher", "Crypt.%s" % name, mentions(o.val, good) and not exposed(o.val, lambda t: t is txt, lambda t: good(t) or t.k == "op" and t.a[0] in ("len", "Mod")),
                  "%s does not go through the cipher" % name, o)
            for s in subterms(o.val):
                if good(s) and name == "decrypt":
                    ck.ob("C34.cipher", "Crypt.decrypt:ttl", True)
    # --- keys
    k = sym("KEY")
    rnd = lambda t: has_call(t, "rndstr", "token_urlsafe", "token_hex", "token_bytes", "uuid4", "urandom")
    for o in ck.run(DB, "__init__", ["self", "KEY"], **BIG):
        key, cr = o.st.ov.get(("a", SELF, "key")), o.st.ov.get(("a", SELF, "crypt"))
        ck.ob("C34.key", "Database.__init__:key", key is not None and (key is k if true(o, k) else rnd(key)), "the key is %s" % (show(key)[:60] if key is not None else None), o)
        ck.ob("C34.key", "Database.__init__:crypt", made_with(o, cr, key), "sessions are sealed with another key than the one that is kept", o)
    conf = item(item(sym("CONF"), const("session_params")), const("password"))
    for o in ck.run(SM, "__init__", ["self", None, "CONF", None], **BIG):
        key, cr = o.st.ov.get(("a", SELF, "key")), o.st.ov.get(("a", SELF, "crypt"))
        ok = key is not None and ((key is conf) if true(o, conf) else rnd(key))
        ck.ob("C34.key", "SessionManager.__init__:key", ok, "the key is %s" % (show(key)[:60] if key is not None else None), o)
        ck.ob("C34.key", "SessionManager.__init__:crypt", made_with(o, cr, key), "sessions are sealed with another key than the one that is kept", o)
    for o in ck.run(SM, "local_load_adjustments", ["self"], **BIG):
        ck.ob("C34.key", "local_load_adjustments", made_with(o, o.st.ov.get(("a", SELF, "crypt")), o.st.ov.get(("a", SELF, "key"), attr(SELF, "key"))),
              "after loading sessions are sealed with another key than the one that was loaded", o)
    # --- fixed
    for nm in ("_key", "_salt"):
        outs = ck.run(SM, "__setattr__", ["self", const(nm), "V"], raises=True, watch={"__setattr__"}, **BIG)
        for o in outs:
            if o.kind != "return":
                continue
            new = any((a_[0] == "HAS" and a_[1] is SELF and a_[2] in (nm, const(nm)) and b_ is False) or (a_[0] == "IN" and a_[1] is const(nm) and has_sub(a_[2], SELF) and b_ is False)
                      or (a_[0] == "NONE" and attr_named(a_[1], nm) and b_ is True) or (a_[0] == "T" and attr_named(a_[1], nm) and b_ is False)
                      for a_, b_ in o.facts.items())
            ck.ob("C34.fixed", "__setattr__:%s" % nm, new or not events(o, "__setattr__"), "%s can be replaced" % nm, o)
        ck.ob("C34.fixed", "__setattr__:%s refused" % nm, any(o.kind == "raise" for o in outs), "%s can be replaced" % nm)


def attr_named(t, nm):
    return t is attr(SELF, nm) or (is_call(t, "getattr", "get") and any(x is const(nm) for x in t.a[2])) or (t.k == "item" and t.a[1] is const(nm) and has_sub(t, SELF))


def made_with(o, cr, key):
    """Crypt(key)"""
    if cr is None or key is None or cr.k != "alloc" or cls_of(o, cr) != "Crypt":
        return False
    return any(l[-1] is key for l in layers(o, cr)) or o.st.ov.get(("a", cr, "password")) is key


# ------------------------------------------------------------------ C35


RECORDS = ["oidcop.session.grant.Grant", "oidcop.session.grant.ExchangeGrant", "oidcop.session.token.SessionToken", "oidcop.session.token.AccessToken",
           "oidcop.session.token.AuthorizationCode", "oidcop.session.token.RefreshToken", "oidcop.session.token.IDToken",
           "oidcop.session.info.UserSessionInfo", "oidcop.session.info.ClientSessionInfo"]
# attributes that need not survive, and why
EXEMPT = {("oidcop.session.grant.Grant", "id"): "the identifier is the last part of the key; it is only used when the grant is stored for the first time"}
CHANGERS = {"append", "extend", "update", "insert", "pop", "popitem", "remove", "discard", "clear", "setdefault", "add", "__setitem__", "__delitem__"}


def parameter_of(p, qual):
    """keys of the class attribute `parameter`, from the class bodies"""
    ci = p.get_class(qual)
    if ci is None:
        return set()

    def parent():
        for q in p.mro(qual)[1:]:
            c = p.get_class(q)
            if c is not None and not c.module.external and defines(c):
                return parameter_of(p, q)
        return set()

    def defines(c):
        return any(mention(s) for s in c.node.body if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.AugAssign)))

    def mention(s):
        t = s.targets[0] if isinstance(s, ast.Assign) else getattr(s, "target", None)
        if isinstance(t, ast.Name):
            return t.id == "parameter"
        return isinstance(s, ast.Expr) and any(isinstance(x, ast.Name) and x.id == "parameter" for x in ast.walk(s))

    def keys(e, cur):
        out = set()
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out |= keys(v, cur)
                elif isinstance(k, ast.Constant):
                    out.add(k.value)
            return out
        if isinstance(e, ast.Name) and e.id == "parameter":
            return set(cur)
        if isinstance(e, ast.Attribute) and e.attr == "parameter":
            q = p.canon(p.resolve_expr_name(ci.module, e.value) or "")
            return parameter_of(p, q) if p.get_class(q) is not None else set()
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "items"):
                return keys(e.func.value, cur)
            for a in e.args:
                out |= keys(a, cur)
            out |= {k.arg for k in e.keywords if k.arg}
            for k in e.keywords:
                if not k.arg:
                    out |= keys(k.value, cur)
            return out
        if isinstance(e, ast.BinOp):
            return keys(e.left, cur) | keys(e.right, cur)
        if isinstance(e, ast.Name):
            v = p.resolve_local(ci.module, e.id)
            return set()
        return out

    if not defines(ci):
        return parent()
    cur = set()
    for s in ci.node.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and mention(s) and s.value is not None:
            cur = keys(s.value, cur)
        elif isinstance(s, ast.AugAssign) and mention(s):
            cur |= keys(s.value, cur)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and mention(s):
            if s.value.func.attr == "update":
                for a in s.value.args:
                    cur |= keys(a, cur)
                cur |= {k.arg for k in s.value.keywords if k.arg}
            elif s.value.func.attr in ("pop", "__delitem__"):
                cur -= {a.value for a in s.value.args if isinstance(a, ast.Constant)}
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == "parameter" and isinstance(t.slice, ast.Constant):
                    cur.discard(t.slice.value)
    return cur


def stores_of(p, qual):
    """attribute -> methods that store it on self"""
    out = {}
    for q in p.mro(qual):
        c = p.get_class(q)
        if c is None or c.module.external:
            continue
        for f in c.methods.values():
            me = f.params[0] if f.params else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.setdefault(n.attr, {})[f.node.name] = "%s:%d (%s)" % (f.module.path, n.lineno, f.qual.rpartition(".")[0].rpartition(".")[2] + "." + f.node.name)
    return out


def only_from(p, roots):
    """names of functions that are used nowhere but in the functions of these names (and in each other)"""
    users = {}
    names = {f.node.name for f in p.funcs.values() if not f.module.external}
    for f in p.funcs.values():
        if f.module.external:
            continue
        for n in ast.walk(f.node):
            x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if x in names:
                users.setdefault(x, set()).add(f.node.name)
    only = {n for n in names if users.get(n) and n not in roots}
    while True:
        out = {n for n in only if not users[n] <= only | set(roots)}
        if not out:
            return only | set(roots)
        only -= out


def changed_attrs(p, of, skip):
    """attributes of a class whose content is changed through an instance: attr -> [sites]"""
    names = set(stores_of(p, of))
    out = {}

    def base(e, alias):
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name):
            e = alias.get(e.id)
            while isinstance(e, ast.Subscript):
                e = e.value
        return e.attr if isinstance(e, ast.Attribute) and e.attr in names else None

    for f in p.funcs.values():
        if f.module.external or skip(f):
            continue
        alias = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Attribute, ast.Subscript)) and isinstance(n.targets[0], ast.Name):
                alias[n.targets[0].id] = n.value
        for n in ast.walk(f.node):
            hit = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                hit = base(n.value, alias)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGERS:
                hit = base(n.func.value, alias)
            if hit:
                out.setdefault(hit, []).append("%s:%d (%s)" % (f.module.path, n.lineno, f.node.name))
    return out


@prop("C35")
def persisted(ck):
    ck.rule("C35.records", "everything that is set on session records and the tokens in them is among what is dumped and loaded", 40)
    ck.rule("C35.manager", "the sessions and the key that seals their identifiers are dumped, and what is not dumped is configuration or rebuilt", 5)
    ck.rule("C35.context", "what requests change in the state of the provider is dumped and loaded", 5)
    ck.rule("C35.tokens", "every issued token is dumped with its class and loaded as that class", 6)
    ck.rule("C35.plain", "what is kept in a grant can be dumped", 1)
    p = ck.p
    for q in RECORDS:
        q = getattr(p.need_class(q), "qual", q)
        par = parameter_of(p, q)
        st = stores_of(p, q)
        name = q.rpartition(".")[2]
        if not par or not st:
            raise Broken("no parameters for %s" % q)
        for a, where in sorted(st.items()):
            ex = [r for (c, x), r in EXEMPT.items() if x == a and c in p.mro(q)]
            ck.ob("C35.records", "%s.%s" % (name, a), a in par or bool(ex), "%s of a %s is lost when it is dumped and loaded" % (a, name), None, sorted(where.values())[0])
        # what is dumped under a name has to be there
    for q in (DB, SM):
        par = parameter_of(p, q)
        st = stores_of(p, q)
        name = q.rpartition(".")[2]
        for a in ("db", "key"):
            ck.ob("C35.manager", "%s.%s" % (name, a), a in par, "%s is not dumped" % a)
        for a, where in sorted(st.items()):
            late = set(where) - only_from(p, {"__init__", "_init_db", "local_load_adjustments"})
            again = set(where) & only_from(p, {"local_load_adjustments"})
            ok = a in par or not late or (again and late <= only_from(p, {"flush"}))
            ck.ob("C35.manager", "%s.%s:state" % (name, a), ok, "%s changes but is not dumped" % a, None, sorted(where.values())[0])
    ctxq = "oidcop.endpoint_context.EndpointContext"
    par = parameter_of(p, ctxq)

    fresh = only_from(p, {"__init__"})

    def skip(f):
        n = f.node.name
        q = f.qual.rpartition(".")[0].rpartition(".")[2]
        return n in fresh or n.startswith(("add_", "do_", "set_", "setup_", "build_")) or q in ("EndpointContext", "Server")
    ch = changed_attrs(p, ctxq, skip)
    for a, sites in sorted(ch.items()):
        ck.ob("C35.context", a, a in par, "%s changes while requests are served but is not dumped" % a, None, sites[0])
    for a in ("cdb", "session_manager", "registration_access_token", "jti_db", "keyjar", "par_db"):
        ck.ob("C35.context", a + ":dumped", a in par, "%s is not dumped" % a)
    # the tokens
    ITEMS = sym("ITEMS")
    elem = lambda t: t.k == "elem" and t.a[0] is ITEMS
    M = "oidcop.session.grant."
    tok = dict(BIG, more_opaque={"load", "dump", "importer", "qualified_name"})
    G_ = p.need_class(M + "Grant")
    sld = ast.dump(G_.attrs["special_load_dump"]) if "special_load_dump" in G_.attrs else ""
    ck.ob("C35.tokens", "special_load_dump", all("'%s'" % x in sld for x in ("issued_token", "token_map", "load", "dump")), "tokens are loaded as something else than they were")
    for o in ck.run(M + "issued_token_dump", None, ["ITEMS"], **tok):
        for l in layers(o, o.val):
            d = l[-1]
            ls = layers(o, d)
            ok = len(ls) == 1 and ls[0][0] == "kv" and is_call(ls[0][1], "qualified_name") and any(elem(x) or cls_of_elem(x, elem) for x in args_of(ls[0][1])) \
                and is_call(ls[0][2], "dump") and elem(ls[0][2].a[1])
            ck.ob("C35.tokens", "issued_token_dump", ok, "a token is dumped as %s" % show(d)[:80], o)
    for o in ck.run(M + "issued_token_load", None, ["ITEMS"], watch={"load"}, **tok):
        ld = events(o, "load")
        for e in ld:
            imp = [s for s in subterms(e.recv) if is_call(s, "importer")]
            keyt = args_of(imp[0])[0] if imp else None
            ok = keyt is not None and mentions(keyt, elem) and any(a_.k == "item" and elem(a_.a[0]) and a_.a[1] is keyt or mentions(a_, elem) and not mentions(a_, lambda s: is_call(s, "importer"))
                                                                for _, a_ in e.args)
            ck.ob("C35.tokens", "issued_token_load", ok, "a token is loaded as another class or from something else", o, e.site)
        n = sum(1 for l in layers(o, o.val) if has_call(l[-1], "load"))
        if facts_of(o).get(("T", ITEMS)) is True and not any(a[0] == "T" and b is False and mentions(a[1], elem) for a, b in o.facts.items()):
            ck.ob("C35.tokens", "issued_token_load:all", bool(ld) and n >= 1, "tokens are lost", o)
    for f, c in (("token_map_dump", "qualified_name"), ("token_map_load", "importer")):
        for o in ck.run(M + f, None, ["ITEMS"], **tok):
            for l in layers(o, o.val):
                ok = l[0] == "kv" and mentions(l[1], lambda s: s is ITEMS) and is_call(l[2], c) and any(x.k == "item" and x.a[0] is ITEMS and x.a[1] is l[1] for x in args_of(l[2]))
                ck.ob("C35.tokens", f, ok, "the map is changed", o)
    # plain data
    for o in ck.run(SM, "create_grant", ["self", "AE", "REQ", "UID", "CID", None, None, None], watch={"set"}, watch_ctor={"Grant"}, **BIG):
        for e in o.trace:
            if e.kind != "ctor":
                continue
            c = e.arg("claims")
            if c is None:
                continue
            src = item(REQ, const("claims"))
            plain = is_const(c) or c.k == "alloc" or is_call(c, "to_dict", "dict", "to_json") or (
                any(a[0] == "ISA" and a[1] is c and b is False and "Message" in str(a[2]) for a, b in o.facts.items()))
            ck.ob("C35.plain", "create_grant:claims", plain, "the claims request is kept as a message, which can not be dumped", o, e.site)


def args_of(t):
    return tuple(t.a[2]) + tuple(v for _, v in t.a[3])


def cls_of_elem(x, elem):
    return x.k == "attr" and x.a[1] == "__class__" and elem(x.a[0]) or is_call(x, "type") and any(elem(y) for y in args_of(x))
