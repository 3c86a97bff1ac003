"""Usage rules, lifetimes, subject identifiers and the configuration they come from."""
import ast
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX, Obj
from . import prop
from .claims import val
from .session import argn, call_arg, cls_of
from .handlers import now

AZ = "oidcop.authz.AuthzHandling"
GR = "oidcop.session.grant.Grant"
SM = "oidcop.session.manager.SessionManager"
TE2 = "oidcop.oauth2.token.TokenEndpointHelper"
A2 = "oidcop.oauth2.authorization.Authorization"
BIG = dict(cap=400, widen=3000)
CID, SID, CLASS, GRANT, RULES = sym("CID"), sym("SID"), sym("CLASS"), sym("GRANT"), sym("RULES")
DEFAULT_LIFETIME = "DEFAULT_TOKEN_LIFETIME"


def shaped(st, name, **kw):
    """a dictionary of known shape in the abstract heap"""
    t = mk("alloc", name)
    return st.setheap(t, Obj("dict", None, tuple(("kv", const(k), v) for k, v in kw.items()))), t


def content(o, t):
    """a dictionary of known shape as a Python dictionary, None if its shape is not known"""
    if t is None or t.k != "alloc":
        return t
    ob = o.st.heap.get(t)
    if ob is None or ob.kind != "dict" or any(l[0] != "kv" or not is_const(l[1]) for l in ob.layers):
        return t
    d = {}
    for l in ob.layers:
        d[cval(l[1])] = content(o, l[2])
    for k, v in o.st.ov.items():
        if k[0] == "i" and k[1] is t and is_const(k[2]):
            d[cval(k[2])] = content(o, v)
    return d


def has_base(t, b):
    while t is not None and t.k in ("item", "attr", "elem") or t is not None and is_call(t, "get", "<call>"):
        if t is b:
            return True
        t = t.a[1] if t.k == "call" else t.a[0]
    return t is b


def S(x):
    return sym(x)


def plain(t):
    """a number behind int()"""
    while t.k == "op" and t.a[0] in ("int", "float") and len(t.a) == 2 or is_call(t, "int", "float") and t.a[2]:
        t = t.a[1] if t.k == "op" else t.a[2][0]
    return t


def known(o, kind, pred, v):
    return any(a[0] == kind and b is v and pred(a) for a, b in o.facts.items())


def positive(o, e):
    """what the path knows about e > 0: True, False or None"""
    is_e = lambda t: plain(t) is e
    zero = lambda t: is_const(t) and cval(t) == 0
    for a, b in o.facts.items():
        if a[0] == "LT" and zero(a[1]) and is_e(a[2]):
            return b
        if a[0] == "LT" and is_e(a[1]) and is_const(a[2]) and cval(a[2]) in (0, 1) and (b is True or cval(a[2]) == 1):
            return not b
    for a, b in o.facts.items():
        if a[0] == "T" and is_e(a[1]) and b is False or a[0] == "NONE" and is_e(a[1]) and b is True:
            return False
        if e.k == "item" and a[0] == "IN" and a[1] is e.a[1] and a[2] is e.a[0] and b is False:
            return False
    return None


def absent(o, t):
    """the path knows that there is no t (a lookup in a mapping)"""
    f = o.facts
    return f.get(("T", t)) is False or f.get(("NONE", t)) is True or (
        t.k == "item" and (f.get(("IN", t.a[1], t.a[0])) is False or f.get(("T", t.a[0])) is False))


def empty(o, t):
    if t is None or is_const(t) and not cval(t):
        return True
    return t.k == "alloc" and o.st.heap.get(t) is not None and not o.st.heap[t].layers


def stamped(o, t):
    """the lifetime x of an expiration time now + x"""
    if t is None or t.k != "op" or t.a[0] != "add" or len(t.a) != 3:
        return None
    a, b = t.a[1:]
    return plain(b) if now(a) else plain(a) if now(b) else None


def lifetime(ck, label, outs, rules, default):
    """expires_at of what a minting wrapper returns"""
    e = item(rules, const("expires_in"))
    n = 0
    for o in outs:
        if o.kind != "return" or o.val is None or is_const(o.val):
            continue
        n += 1
        tok = o.val
        ev = [x for x in events(o, "mint_token") if x.res is tok or x.res is None]
        ck.ob("C38.rules", label + ":minted", len(ev) == 1 and ev[0].recv is GRANT, "what is returned was not minted by the grant", o)
        u = ev[0].arg("usage_rules") if ev else None
        ck.ob("C38.rules", label, u is rules or (absent(o, rules) and (u is None or empty(o, u) or u is rules)),
              "a token is minted under other rules than those of the grant for its class: %s" % show(u or const(None))[:80], o)
        at = o.st.ov.get(("a", tok, "expires_at"))
        x = stamped(o, at) if at is not None else None
        p = positive(o, e)
        none = absent(o, rules)
        if at is None or is_const(at):
            ck.ob("C38.expires", label + ":set", (p is False or none) and (at is None or not cval(at)), "a token is given no expiration although its rules have one", o)
        else:
            ok = x is e and p is True and not none
            if default and none and x is not None and is_const(x) and isinstance(cval(x), int):
                ok = cval(x) == default
            ck.ob("C38.expires", label + ":value", ok, "the expiration of a token is %s" % show(at)[:100], o)
    if not n:
        raise Broken("%s never returns a token" % label)


@prop("C38")
def usage_rules(ck):
    ck.rule("C38.merge", "the usage rules of a client are the configured ones with the client's own taking precedence, value by value", 8)
    ck.rule("C38.apart", "what the usage rules of one client are changed to later does not reach the configuration", 4)
    ck.rule("C38.rules", "a token is minted under the rules its grant has for that class of token", 8)
    ck.rule("C38.expires", "a token expires when its rules say: now + expires_in, never if that is not positive", 6)
    ck.rule("C38.grant", "a grant gets the rules of the client that asked and the configured lifetime", 6)
    ck.rule("C38.told", "expires_in in a response is what is left of the life of the access token in that response", 8)
    ck.rule("C38.item", "lifetime and usage rules given to a token or grant are kept", 6)
    # ---- merge
    GC, CU = item(attr(SELF, "grant_config"), const("usage_rules")), item(item(attr(CTX, "cdb"), CID), const("token_usage_rules"))

    def conf(st, client=True, config=True):
        if config:
            st, t1 = shaped(st, "T1", a=S("R1a"), b=S("R1b"))
            st, t2 = shaped(st, "T2", c=S("R2c"))
            st, t4 = shaped(st, "T4", d=S("R4d"))
            st, u = shaped(st, "U", t1=t1, t2=t2, t4=t4)
            st = st.setov(("i", GC.a[0], GC.a[1]), u)
        if client:
            st, p1 = shaped(st, "P1", a=S("P1a"), z=S("P1z"))
            st, p3 = shaped(st, "P3", x=S("P3x"))
            st, p4 = shaped(st, "P4")
            st, p = shaped(st, "P", t1=p1, t3=p3, t4=p4)
            st = st.setov(("i", CU.a[0], CU.a[1]), p)
        return st

    kept = {"t1": {"a": S("R1a"), "b": S("R1b")}, "t2": {"c": S("R2c")}, "t4": {"d": S("R4d")}}
    own = {"t1": {"a": S("P1a"), "z": S("P1z")}, "t3": {"x": S("P3x")}, "t4": {}}
    both = {"t1": {"a": S("P1a"), "b": S("R1b"), "z": S("P1z")}, "t2": {"c": S("R2c")}, "t3": {"x": S("P3x")}, "t4": {}}
    IN_C = ("IN", CID, attr(CTX, "cdb"))
    IN_G = ("IN", GC.a[1], GC.a[0])
    IN_U = ("IN", CU.a[1], CU.a[0])
    for label, client, config, facts, want in (
        ("both", True, True, {("T", CID): True, IN_C: True}, both),
        ("config only", False, True, {("T", CID): True, IN_C: True, IN_U: False}, kept),
        ("unknown client", True, True, {("T", CID): True, IN_C: False}, kept),
        ("no client", True, True, {("T", CID): False}, kept),
        ("client only", True, False, {("T", CID): True, IN_C: True, IN_G: False}, own),
        ("none", False, False, {("T", CID): True, IN_C: True, IN_G: False, IN_U: False}, {}),
    ):
        outs = ck.run(AZ, "usage_rules", ["self", "CID"], pre=lambda st: conf(st, client, config), facts=facts, raises=True, expose={"usage_rules"}, **BIG)
        m = 0
        for o in outs:
            if o.kind != "return":
                continue
            m += 1
            got = content(o, o.val)
            ck.ob("C38.merge", "usage_rules:" + label, got == want, "the usage rules are %s" % str(got)[:200], o)
            src = [mk("alloc", x) for x in ("U", "P", "T1", "T2", "T4", "P1", "P3", "P4")]
            seen, todo = set(), [o.val]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo.extend(z for l in layers(o, x) for z in l[1:] if hasattr(z, "k") and z.k == "alloc")
            ck.ob("C38.apart", "usage_rules:" + label, not any(x in seen for x in src), "the rules handed out are those of the configuration", o)
        if not m:
            raise Broken("usage_rules never returns")
    for o in ck.run(AZ, "usage_rules_for", ["self", "CID", "CLASS"], more_opaque={"usage_rules"}, raises=True, **BIG):
        if o.kind != "return":
            continue
        ur = lambda t: is_call(t, "usage_rules") and call_arg(t, "client_id", 0) is CID
        ok = o.val.k == "item" and o.val.a[1] is CLASS and ur(o.val.a[0]) or empty(o, o.val) and known(o, "IN", lambda a: a[1] is CLASS and ur(a[2]), False)
        ck.ob("C38.merge", "usage_rules_for", ok, "the rules of another client or class of token: %s" % show(o.val)[:100], o)
    # ---- minting
    gr = item(attr(GRANT, "usage_rules"), CLASS)
    mod = ck.p.modules.get("oidcop.constant")
    d = mod.globals.get(DEFAULT_LIFETIME) if mod else None
    d = getattr(d, "value", None)
    lifetime(ck, "TokenEndpointHelper._mint_token",
             ck.run(TE2, "_mint_token", ["self", "CLASS", "GRANT", "SID", "CID", "BASE", "SCOPE", None, None], watch={"mint_token"}, raises=True, **BIG), gr, d)
    lifetime(ck, "Authorization.mint_token",
             ck.run(A2, "mint_token", ["self", "CLASS", "GRANT", "SID", "BASE"], watch={"mint_token"}, raises=True, **BIG), gr, d)
    called = lambda kind, name, recv, it, st: name == "<call>"
    own_r = item(attr(SELF, "usage_rules"), CLASS)
    m = 0
    for o in ck.run(GR, "mint_token", ["self", "SID", "CTX", "CLASS", None, None, "RULES", "SCOPE", None],
                    more_opaque={"payload_arguments", "find_scope", "is_active", "supports_minting"}, watch_fn=called, raises=True, **BIG):
        if o.kind != "return" or is_const(o.val):
            continue
        given = o.facts.get(("NONE", RULES)) is False or o.facts.get(("T", RULES)) is True
        isno = o.facts.get(("NONE", RULES)) is True or o.facts.get(("T", RULES)) is False
        want = RULES if given else own_r if isno and o.facts.get(("IN", CLASS, attr(SELF, "usage_rules"))) is True else None
        tk = [e for e in o.trace if e.res is o.val or e.recv is not None and has_base(e.recv, attr(SELF, "token_map"))]
        hd = [e for e in o.trace if e not in tk and e.arg("session_id") is SID]
        for e, what in [(x, "token") for x in tk] + [(x, "handler") for x in hd]:
            m += 1
            u = e.arg("usage_rules")
            ok = u is want and want is not None or want is None and isno and (u is own_r or absent(o, own_r) and (u is RULES or empty(o, u)))
            ck.ob("C38.rules", "Grant.mint_token:" + what, ok, "minted under the rules %s" % show(u or const(None))[:80], o, e.site)
        ck.ob("C38.rules", "Grant.mint_token:both", len(tk) >= 1 and len(hd) >= 1, "the rules do not reach both the token and what makes its value", o)
    if not m:
        raise Broken("Grant.mint_token mints nothing")
    # ---- grants
    EXP = S("EXP")

    def gconf(st):
        st, t = shaped(st, "GC", usage_rules=S("UR"), expires_in=EXP)
        return st.setov(("a", SELF, "grant_config"), t)

    for o in ck.run(AZ, "__call__", ["self", "SID", "REQ", "RES"], pre=gconf, more_opaque={"usage_rules", "get_claims_all_usage", "get_session_info", "get_grant"}, **BIG):
        g = o.val
        ck.ob("C38.grant", "AuthzHandling.__call__:grant", is_key(g, "grant", lambda t: is_call(t, "get_session_info") and call_arg(t, "session_id", 0) is SID)
              or is_call(g, "get_grant") and call_arg(g, "session_id", 0) is SID, "rules are given to another grant", o)
        u = o.st.ov.get(("a", g, "usage_rules"))
        who = call_arg(u, "client_id", 0) if u is not None and is_call(u, "usage_rules") else None
        ck.ob("C38.grant", "AuthzHandling.__call__:rules", who is not None and (is_key(who, "client_id")), "the grant gets the rules %s" % show(u or const(None))[:80], o)
        ck.ob("C38.grant", "AuthzHandling.__call__:expires", stamped(o, o.st.ov.get(("a", g, "expires_at"))) is EXP, "the configured lifetime is not that of the grant", o)
    for cls in (A2, "oidcop.oidc.authorization.Authorization"):
        outs = ck.run(cls, "create_session", ["self", "REQ", "USER", "ACR", "TS", "METH"], more_opaque={"usage_rules", "create_authn_event", "create_session"},
                      ev_args={"create_session": {"token_usage_rules"}},
                      watch={"create_session"}, **BIG)
        session_rules(ck, cls, outs, "create_session")
    from .authz import setup_runs

    for cls in (A2, "oidcop.oidc.authorization.Authorization"):
        outs = setup_runs(ck, cls, ev=("token_usage_rules",))
        session_rules(ck, cls, outs, "create_grant")
    for name in ("create_session", "create_grant"):
        outs = ck.run(SM, name, ["self", "AE", "REQ", "UID", "CID", "STYPE", "RULES", "SCOPES", None], watch={"create_grant"}, watch_ctor={"Grant"},
                      more_opaque={"set", "get", "encrypted_session_id"} | ({"create_grant"} if name == "create_session" else set()), **BIG)
        m = 0
        for o in outs:
            for e in o.trace:
                if e.name in ("Grant", "create_grant"):
                    m += 1
                    a = e.arg("usage_rules") if e.name == "Grant" else e.arg("token_usage_rules")
                    ck.ob("C38.grant", "SessionManager.%s" % name, a is RULES, "a grant is made with other usage rules than those given", o, e.site)
        if not m:
            raise Broken("%s makes no grant" % name)
    # ---- kept
    for cls in ("oidcop.session.token.SessionToken", "oidcop.session.token.Item", GR):
        ei, ea, nb, ur = S("EI"), S("EA"), S("NB"), S("UR")
        fi = ck.p.need_method(cls, "__init__")
        names = [x for x in fi.params if x != "self"]
        b = {n: const(None) for n in names}
        b.update({n: {"expires_in": ei, "expires_at": ea, "not_before": nb, "usage_rules": ur}[n] for n in names if n in ("expires_in", "expires_at", "not_before", "usage_rules")})
        for o in ck.run(cls, "__init__", None, binds=b, more_opaque={"set_defaults"}, **BIG):
            lab = cls.rpartition(".")[2] + ".__init__"
            at = o.st.ov.get(("a", SELF, "expires_at"))
            f = o.facts
            noat = f.get(("T", ea)) is False or f.get(("EQ", ea, const(0))) is True or f.get(("EQ", const(0), ea)) is True or f.get(("VAL", ea)) is const(0)
            noin = f.get(("T", ei)) is False or f.get(("EQ", ei, const(0))) is True or f.get(("EQ", const(0), ei)) is True or f.get(("VAL", ei)) is const(0)
            x = stamped(o, at)
            if x is ei:
                ok = noat
            else:
                ok = at is ea or (at is not None and is_const(at) and cval(at) == 0 and noat and noin)
                ok = ok and (noin or not noat)
            ck.ob("C38.item", lab + ":expires_at", ok, "expires_at becomes %s" % show(at or const(None))[:80], o)
            r = o.st.ov.get(("a", SELF, "usage_rules"))
            ck.ob("C38.item", lab + ":usage_rules", r is ur or empty(o, r) and f.get(("T", ur)) is False, "the usage rules become %s" % show(r or const(None))[:80], o)
            if "not_before" in b:
                ck.ob("C38.item", lab + ":not_before", o.st.ov.get(("a", SELF, "not_before")) is nb, "", o)
    # ---- told
    told(ck)


def session_rules(ck, cls, outs, name):
    m = 0
    for o in outs:
        for e in events(o, name):
            m += 1
            a = e.arg("token_usage_rules")
            who = call_arg(a, "client_id", 0) if a is not None and is_call(a, "usage_rules") else None
            ck.ob("C38.grant", "%s:%s" % (cls.split(".")[1], name), who is not None and is_key(who, "client_id", lambda t: t is REQ),
                  "a session is created with the usage rules %s" % show(a or const(None))[:80], o, e.site)
    if not m:
        raise Broken("no %s in %s" % (name, cls))


def told(ck):
    jobs = []
    for mod in ("oauth2", "oidc"):
        for h in ("AccessTokenHelper", "RefreshTokenHelper"):
            jobs.append(("oidcop.%s.token.%s" % (mod, h), "process_request", ["self", "REQ"],
                         {"_mint_token", "get_session_info_by_token", "find_token", "get_token", "is_active", "register_usage", "usage_rules", "revoke_token", "find_scope",
                          "supports_minting", "get_session_info", "filter_scopes"}))
        jobs.append(("oidcop.%s.authorization.Authorization" % mod, "create_authn_response", ["self", "REQ", "SID"],
                     {"mint_token", "get_session_info", "_mint", "revoke", "error_response", "get_uri", "handle_registration_info", "authentication_error_response"} | ({"filter_scopes"} if mod == "oauth2" else set())))
    for cls, name, params, op in jobs:
        m = 0
        lab = ".".join(cls.split(".")[1:]) + "." + name
        for o in ck.run(cls, name, params, more_opaque=op, cap=400, widen=20000):
            for t in (o.val, val(o, o.val, "response_args")):
                if t is None:
                    continue
                at = kv(o, t, "access_token")
                if at is None:
                    continue
                m += 1
                x = val(o, t, "expires_in")
                tok = at.a[0] if at.k == "attr" and at.a[1] == "value" else None
                if tok is None:
                    ck.ob("C38.told", lab + ":token", is_const(at), "the access token is %s" % show(at)[:80], o)
                    continue
                exp = attr(tok, "expires_at")
                if x is None or is_const(x) and not cval(x):
                    ck.ob("C38.told", lab + ":said", o.facts.get(("T", exp)) is False, "the lifetime of an access token is not told", o)
                    continue
                ok = x.k == "op" and x.a[0] in ("sub", "Sub") and len(x.a) == 3 and x.a[1] is exp and now(x.a[2])
                ck.ob("C38.told", lab + ":left", ok, "expires_in is %s" % show(x)[:100], o)
        if not m:
            raise Broken("no access token in any response of %s" % lab)


# ------------------------------------------------------------------ C42


def leaves(t):
    """what a term is made of: maximal item/attr chains and symbols"""
    if t.k in ("item", "attr"):
        b = t
        while b.k in ("item", "attr"):
            b = b.a[0]
        if b.k == "sym":
            yield t
            for x in t.a[1:]:
                if hasattr(x, "k"):
                    for z in leaves(x):
                        yield z
            return
    if t.k == "sym":
        yield t
        return
    for x in t.a:
        for s in walk(x):
            for z in leaves(s):
                yield z


def walk(x):
    if hasattr(x, "k"):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            for z in walk(y):
                yield z


def of_client(t):
    """t is, or is found in, what is registered for the requesting client"""
    return mentions(t, lambda s: s.k == "item" and s.a[0] is attr(CTX, "cdb") and is_key(s.a[1], "client_id", lambda r: r is REQ))


def subject(ck, cls, outs, name):
    lab = "%s:%s" % (cls.split(".")[1], name)
    m = 0
    for o in outs:
        for e in events(o, name):
            m += 1
            f = e.facts
            reg = item(item(attr(CTX, "cdb"), item(REQ, const("client_id"))), const("subject_type"))
            st, sec = e.arg("sub_type"), e.arg("sector_identifier")
            if st is not None and is_const(st) and cval(st) == "public":
                ok = f.get(("T", reg)) is False or f.get(("NONE", reg)) is True or f.get(("T", reg.a[0])) is False or f.get(("NONE", reg.a[0])) is True \
                    or f.get(("IN", reg.a[1], reg.a[0])) is False or f.get(("IN", reg.a[0].a[1], reg.a[0].a[0])) is False
            else:
                ok = st is not None and all(is_const(x) and cval(x) == "public" or x is reg for x in alts(st))
            ck.ob("C42.type", lab, ok, "the subject type is %s, whatever the client registered" % show(st or const(None))[:80], o, e.site)
            uris = item(reg.a[0], const("redirect_uris"))
            if sec is not None and is_const(sec) and not cval(sec) and (
                    f.get(("T", uris)) is False or f.get(("IN", uris.a[1], uris.a[0])) is False or f.get(("T", reg.a[0])) is False
                    or f.get(("NONE", reg.a[0])) is True or f.get(("IN", reg.a[0].a[1], reg.a[0].a[0])) is False):
                continue  # nowhere to send her
            bad = sec is not None and mentions(sec, lambda s: s.k == "item" and s.a[0] is REQ and not (is_const(s.a[1]) and cval(s.a[1]) == "client_id")) or sec is REQ
            ck.ob("C42.sector", lab, sec is not None and not bad and (of_client(sec) or mentions(sec, lambda s: is_key(s, "client_id", lambda r: r is REQ))),
                  "the sector is %s" % show(sec or const(None))[:100], o, e.site)
            sid = item(reg.a[0], const("sector_id"))
            none = absent(o, sid) or absent(o, reg.a[0]) or f.get(("T", sid)) is False or absent(e, sid) or absent(e, reg.a[0])
            ck.ob("C42.sector", lab + ":registered", sec is sid or none, "the registered sector is not used", o, e.site)
    if not m:
        raise Broken("no %s in %s" % (name, cls))


HASHES = {"sha256", "sha384", "sha512", "new", "blake2b", "sha3_256", "sha3_512", "pbkdf2_hmac", "digest"}


def hashed(t, *parts):
    """t is a digest over all of the parts"""
    def ok(s):
        if is_call(s, "hexdigest", "digest") or s.k == "op" and s.a[0] in ("hexdigest", "digest"):
            return all(has_sub(s, p) for p in parts)
        return False
    return ok(t) or (t.k == "op" and t.a[0] in ("str", "fmt") and len(t.a) == 2 and ok(t.a[1])) or any(
        ok(s) for s in subterms(t)) and not outside(t, parts, ok)


def outside(t, parts, ok):
    """a part is visible outside of the digest"""
    if ok(t):
        return False
    if any(t is p for p in parts):
        return True
    return any(outside(s, parts, ok) for x in t.a for s in walk(x))


@prop("C42")
def subjects(ck):
    ck.rule("C42.type", "the type of subject identifier is the one the client is registered for", 4)
    ck.rule("C42.sector", "the sector comes from the registration of the client, never from the request", 4)
    ck.rule("C42.sub", "a grant's subject identifier is made for its user with the function of that type, the provider's salt and that sector", 3)
    ck.rule("C42.func", "pairwise identifiers are a digest of user, sector and salt; public ones of user and salt; ephemeral ones say nothing", 5)
    ck.rule("C42.table", "every type of subject identifier has its function", 3)
    ck.rule("C42.used", "everything that names the user to a client uses the grant's subject identifier", 3)
    for cls in (A2, "oidcop.oidc.authorization.Authorization"):
        outs = ck.run(cls, "create_session", ["self", "REQ", "USER", "ACR", "TS", "METH"],
                      more_opaque={"usage_rules", "create_authn_event", "create_session"}, watch={"create_session"},
                      ev_args={"create_session": {"user_id", "sub_type", "sector_identifier"}}, **BIG)
        subject(ck, cls, outs, "create_session")
        for o in outs:
            for e in events(o, "create_session"):
                ck.ob("C42.sub", cls.split(".")[1] + ":user", e.arg("user_id") is S("USER"), "a session for another user", o, e.site)
        from .authz import setup_runs

        subject(ck, cls, setup_runs(ck, cls, ev=("sub_type", "sector_identifier")), "create_grant")
    ST, SEC, U = S("STYPE"), S("SECTOR"), S("UID")
    outs = ck.run(SM, "create_session", ["self", "AE", "REQ", "UID", "CID", "STYPE", "RULES", "SCOPES", "SECTOR"], watch={"create_grant"}, more_opaque={"set", "get", "create_grant"}, **BIG)
    for o in outs:
        for e in events(o, "create_grant"):
            ck.ob("C42.sub", "SessionManager.create_session", e.arg("sub_type") is ST and e.arg("sector_identifier") is SEC and e.arg("user_id") is U,
                  "a grant is made for another user, type or sector", o, e.site)
    outs = ck.run(SM, "create_grant", ["self", "AE", "REQ", "UID", "CID", "STYPE", "RULES", "SCOPES", "SECTOR"], watch_ctor={"Grant"},
                  more_opaque={"set", "encrypted_session_id"}, facts={("NONE", SEC): False}, **BIG)
    m = 0
    for o in outs:
        for e in events(o, "Grant"):
            m += 1
            sub = e.arg("sub")
            ok = sub is not None and sub.k == "call" and has_base(sub.a[1] if sub.a[1] is not None else sub, attr(SELF, "sub_func")) and \
                any(s is item(attr(SELF, "sub_func"), ST) for s in subterms(sub))
            args = (tuple(sub.a[2]) + tuple(v for _, v in sub.a[3])) if sub is not None and sub.k == "call" else ()
            ok = ok and U in args and SEC in args and attr(SELF, "salt") in args
            ck.ob("C42.sub", "SessionManager.create_grant", ok, "the subject identifier is %s" % show(sub or const(None))[:120], o, e.site)
    if not m:
        raise Broken("create_grant makes no grant")
    # ---- functions
    a, b, c = S("A"), S("B"), S("C")
    M = "oidcop.session.manager."
    for o in ck.run(M + "pairwise_id", None, ["A", "B", "C"], **BIG):
        ck.ob("C42.func", "pairwise_id", hashed(o.val, a, b, c), "a pairwise identifier is %s" % show(o.val)[:100], o)
    for o in ck.run(M + "public_id", None, None, binds={"uid": a, "salt": c}, **BIG):
        ck.ob("C42.func", "public_id", hashed(o.val, a, c), "a public identifier is %s" % show(o.val)[:100], o)
    for o in ck.run(M + "ephemeral_id", None, None, **BIG):
        ck.ob("C42.func", "ephemeral_id", has_call(o.val, "uuid4", "rndstr", "token_urlsafe", "token_hex") and not mentions(o.val, lambda s: s in (sym("args"), sym("kwargs"))),
              "an ephemeral identifier is %s" % show(o.val)[:100], o)
    for cls, want in (("PairWiseID", (a, b, attr(SELF, "salt"))), ("PublicID", (a, attr(SELF, "salt")))):
        for o in ck.run(M + cls, "__call__", ["self", "A", "B"], **BIG):
            ck.ob("C42.func", cls, hashed(o.val, *want), "the identifier is %s" % show(o.val)[:100], o)
        for o in ck.run(M + cls, "__init__", ["self", "A", "B"], **BIG):
            s = o.st.ov.get(("a", SELF, "salt"))
            ok = s is not None and (s is a if o.facts.get(("T", a)) is True else (has_call(s, "rndstr", "token_urlsafe", "token_hex", "token_bytes", "urandom") or has_sub(s, b)))
            ck.ob("C42.func", cls + ".__init__", ok, "the salt is %s" % show(s or const(None))[:80], o)
    # ---- table
    fn = lambda n: "oidcop.session.manager." + n
    sf = S("SF")
    for o in ck.run(SM, "__init__", ["self", None, None, "SF"], **BIG):
        t = o.st.ov.get(("a", SELF, "sub_func"))
        given = o.facts.get(("NONE", sf)) is False
        for typ in ("public", "pairwise", "ephemeral"):
            v = (o.st.ov.get(("i", t, const(typ))) or kv(o, t, typ)) if t is not None else None
            own = o.facts.get(("IN", const(typ), sf)) is True
            if v is None and given and own:
                ok = t is sf or any(l[0] == "s" and l[1] is sf for l in layers(o, t))
            else:
                ok = v is not None and (v.k in ("func", "klass") and v.a[0] == fn(typ + "_id") or own and v is item(sf, const(typ)))
                ok = ok and not (given and own and v.k == "func")
            ck.ob("C42.table", "SessionManager.__init__:" + typ, ok, "%s identifiers are made by %s" % (typ, show(v or const(None))[:60]), o)
    # ---- use
    for o in ck.run(GR, "payload_arguments", None, more_opaque={"get_claims", "get_user_claims", "decrypt_session_id", "add_acr_value"}, **BIG):
        v = val(o, o.val, "sub")
        if v is not None:
            ck.ob("C42.used", "Grant.payload_arguments", v is attr(SELF, "sub") or mentions(v, lambda s: is_key(s, "sub", lambda b: b is sym("extra_payload"))), "the subject is %s" % show(v)[:80], o)
    for name, cls, meth, params, op in (
        ("UserInfo.process_request", "oidcop.oidc.userinfo.UserInfo", "process_request", ["self", "REQ"],
         {"get_session_info_by_token", "find_token", "get_claims", "get_user_claims", "is_active", "add_acr_value", "get_session_info"}),
    ):
        m = 0
        for o in ck.run(cls, meth, params, more_opaque=op, **BIG):
            for t in (o.val, val(o, o.val, "response_args")):
                v = val(o, t, "sub") if t is not None else None
                if v is None:
                    continue
                m += 1
                ok = v.k == "attr" and v.a[1] == "sub" or mentions(v, lambda s: s.k == "attr" and s.a[1] == "sub") and not mentions(v, lambda s: is_key(s, "user_id") or is_key(s, "uid"))
                ck.ob("C42.used", name, ok, "the subject is %s" % show(v)[:80], o)
        if not m:
            raise Broken("%s names no subject" % name)


# ------------------------------------------------------------------ C29


READS = {"append", "extend", "insert", "update", "setdefault", "pop", "popitem", "remove", "clear", "sort", "reverse", "add", "discard"}
CONFIG_ATTRS = {"kwargs", "grant_config", "conf", "provider_info", "config", "_scopes_to_claims", "allowed_scopes", "scopes_to_claims", "scope2claims", "th_args",
                "endpoint_info", "default_capabilities", "parameter", "token_map", "helper_by_grant_type", "client_authn_method", "claims_release_points", "httpc_params"}


def shared(t, more=()):
    """t is (part of) what all requests share: configuration, module constants,
    what is registered for a client"""
    while t is not None:
        if t.k == "op" and t.a[0] == "copied":
            return False
        if t.k == "alloc" and str(t.a[0]).startswith("G:") or t.k == "sym" and str(t.a[0]).startswith("G:") or t.k == "glob":
            return True
        if t in more:
            return True
        if t.k == "attr" and t.a[1] in CONFIG_ATTRS and (t.a[0] is SELF or t.a[0].k in ("attr", "sym", "item", "call", "op")):
            return True
        if t.k == "item" and t.a[0] is attr(CTX, "cdb"):
            return True
        if t.k in ("item", "attr", "elem"):
            t = t.a[0]
        elif is_call(t, "get", "setdefault") and t.a[1] is not None:
            t = t.a[1]
        else:
            return False
    return False


# run once, when the program starts, with what is theirs
STARTUP = ("oidcop.logging", "oidcop.configure")


@prop("C29")
def configuration_kept(ck):
    ck.rule("C29.kept", "handling a request changes neither the configuration, module constants nor what is registered for a client", 15)
    CI, CO = "oidcop.session.claims.ClaimsInterface", "oidcop.session.claims.OAuth2ClaimsInterface"
    IT = "oidcop.token.id_token."
    writes = lambda kind, name, recv, it, st: kind in ("mutate", "delitem")
    GC = mk("alloc", "GC")

    def gconf(st):
        st, t = shaped(st, "GC", usage_rules=S("UR"), expires_in=S("EXP"), scope=S("SC"))
        return st.setov(("a", SELF, "grant_config"), t)

    jobs = [
        (AZ, "usage_rules", ["self", "CID"], {}, {}),
        (AZ, "usage_rules_for", ["self", "CID", "CLASS"], {}, {}),
        (AZ, "__call__", ["self", "SID", "REQ", "RES"], {"usage_rules", "get_claims_all_usage", "get_session_info", "get_grant"}, {"pre": gconf}),
        ("oidcop.session.grant.get_usage_rules", None, ["CLASS", "CTX", "GRANT", "CID"], {}, {}),
        (CI, "get_claims_from_request", ["self", "REQ", "CRP", "SCOPES", "CID", "SEC"], {"scopes_to_claims", "_get_module", "_client_claims"}, {}),
        (CI, "_client_claims", ["self", "CID", "MOD", "CRP", "SEC"], {}, {}),
        (CI, "authorization_request_claims", ["self", "REQ", "CRP"], {}, {}),
        (CI, "get_user_claims", ["self", "UID", "RESTR"], {}, {}),
        (CI, "get_claims_all_usage_from_request", ["self", "REQ", "SCOPES", "CID"], {"get_claims_from_request"}, {}),
        (CO, "get_claims_all_usage", ["self", "SID", "SCOPES"], {"get_claims"}, {}),
        ("oidcop.scopes.Scopes", "get_scopes_mapping", ["self", "CID"], {}, {}),
        ("oidcop.scopes.Scopes", "get_allowed_scopes", ["self", "CID"], {}, {}),
        ("oidcop.scopes.Scopes", "filter_scopes", ["self", "SCOPES", "CID"], {"get_allowed_scopes"}, {}),
        ("oidcop.scopes.Scopes", "scopes_to_claims", ["self", "SCOPES", "MAP", "CID"], {"filter_scopes"}, {}),
        ("oidcop.scopes.convert_scopes2claims", None, ["SCOPES", "ALLOWED", "MAP"], {}, {}),
        ("oidcop.user_info.UserInfo", "__call__", ["self", "UID", "CID", "CLAIMS"], {}, {}),
        ("oidcop.user_info.UserInfo", "filter", ["self", "INFO", "CLAIMS"], {}, {}),
        (IT + "IDToken", "payload", None, {"get_session_info", "get_claims", "get_user_claims"}, {}),
        (IT + "get_sign_and_encrypt_algorithms", None, None, {}, {}),
        ("oidcop.token.jwt_token.JWTToken", "__call__", None, {}, {}),
        ("oidcop.token.DefaultToken", "__call__", None, {}, {}),
        ("oidcop.endpoint.Endpoint", "do_response", None, {}, {}),
        ("oidcop.oidc.userinfo.UserInfo", "do_response", None, {}, {}),
        ("oidcop.oidc.userinfo.UserInfo", "process_request", ["self", "REQ"], {"get_session_info_by_token", "find_token", "get_claims", "get_user_claims", "is_active", "add_acr_value", "get_session_info"}, {}),
        ("oidcop.oidc.discovery.Discovery", "process_request", ["self", "REQ"], {}, {}),
        ("oidcop.oidc.provider_config.ProviderConfiguration", "process_request", ["self", "REQ"], {}, {}),
        ("oidcop.oauth2.introspection.Introspection", "process_request", ["self", "REQ"], {"get_session_info_by_token", "find_token", "get_claims", "get_user_claims", "is_active", "get_session_info", "_introspect"}, {}),
    ]
    for cls, name, params, op, kw in jobs:
        lab = (cls.split(".")[-1] + "." + name) if name else cls.split(".")[-1]
        expose = {name or cls.rpartition(".")[2]}
        outs = ck.run(cls, name, params, more_opaque=set(op), expose=expose, watch_fn=writes, log_puts=True, copies=True, raises=True, **dict(BIG, **kw))
        more = {GC, S("MAP"), S("INFO"), S("ALLOWED"), S("client_info"), attr(SELF, "db")}
        bad = {}
        for p in ck.puts:
            if p.base is not None and shared(p.base, more):
                bad.setdefault(show(p.base)[:120], p.site)
        for o in outs:
            for e in o.trace:
                if e.kind in ("mutate", "delitem") and e.recv is not None and (e.kind == "delitem" or e.name in READS) and shared(e.recv, more):
                    bad.setdefault(show(e.recv)[:120], e.site)
        if not bad:
            ck.ob("C29.kept", lab, True)
        for x, where in sorted(bad.items()):
            ck.ob("C29.kept", "%s:%s" % (lab, x), False, "%s is changed" % x, None, where)
    # tokens add to their usage rules, claims are taken out of answers: what is handed out must not be the original
    ck.rule("C29.copies", "what is handed out for others to change is a copy", 3)
    for cls, name, params, op in ((CI, "get_claims_from_request", ["self", "REQ", "CRP", "SCOPES", "CID", "SEC"], {"scopes_to_claims", "_get_module", "_client_claims"}),
                                  ("oidcop.user_info.UserInfo", "__call__", ["self", "UID", "CID", "CLAIMS"], {}),
                                  (AZ, "usage_rules", ["self", "CID"], {}),
                                  ("oidcop.session.grant.get_usage_rules", None, ["CLASS", "CTX", "GRANT", "CID"], {})):
        lab = name or cls.rpartition(".")[2]
        for o in ck.run(cls, name, params, more_opaque=set(op), expose={lab}, copies=True, **BIG):
            ck.ob("C29.copies", lab, not shared(o.val, {attr(SELF, "db")}), "%s itself is handed out" % show(o.val)[:100], o)
    # ---- whatever else: no function of the package changes what the module, the class or the default of a parameter holds
    ck.rule("C29.constants", "no function changes a constant of a module, a mutable value of a class or the default of a parameter", 300)
    shared_names, changes = {}, {}

    def class_level(ci):
        """names of values in the bodies of the class and its ancestors that instances share"""
        r = shared_names.get(ci.qual)
        if r is None:
            r, own = set(), set()
            for c in filter(None, map(ck.p.get_class, ck.p.mro(ci.qual))):
                own |= set(c.self_stores)
                r |= {k for k, v in c.attrs.items() if isinstance(v, (ast.Dict, ast.List, ast.Set)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set")}
            r = shared_names[ci.qual] = r - own
        return r

    # by name, of whatever object
    ours = [ci for q, ci in sorted(ck.p.classes.items()) if q.startswith("oidcop.")]
    anywhere = set().union(*map(class_level, ours)) - set().union(*[set(ci.self_stores) for ci in ours])
    for q, fi in sorted(ck.p.funcs.items()):
        if fi.module.name in STARTUP:
            continue
        cl = class_level(fi.cls) if fi.cls is not None else ()

        def constant(t):
            while t is not None and t.k in ("item", "attr", "elem"):
                if t.k == "attr" and (t.a[1] in cl and t.a[0] is SELF or t.a[1] in anywhere):
                    return True
                if t.k == "attr" and t.a[0].k == "klass":
                    return True
                t = t.a[0]
            if t is not None and is_call(t, "get", "setdefault", "values", "items"):
                return constant(t.a[1])
            return t is not None and (t.k in ("alloc", "sym") and (str(t.a[0]).startswith(("G:", "default:")) or t.a[0] in defaults) or t.k == "glob")

        ar = fi.node.args
        pos = ar.posonlyargs + ar.args
        defaults = {x.arg for x, d in list(zip(pos[len(pos) - len(ar.defaults):], ar.defaults)) + list(zip(ar.kwonlyargs, ar.kw_defaults))
                    if isinstance(d, (ast.Dict, ast.List, ast.Set))}
        at = (fi.cls.qual, fi.name) if fi.cls is not None else (q, None)
        outs = ck.run(at[0], at[1], None, inline=lambda f: False, watch_fn=writes, log_puts=True, copies=True, raises=True, cap=20, widen=60)
        bad = {}
        for t, where in [(p.base, p.site) for p in ck.puts if p.base is not None] + [
                (e.recv, e.site) for o in outs for e in o.trace if e.kind in ("mutate", "delitem") and e.recv is not None and (e.kind == "delitem" or e.name in READS)]:
            if constant(t):
                bad.setdefault(show(t)[:120], where)
            r = t
            while r.k in ("item", "elem"):
                r = r.a[0]
            if r.k == "sym" and r.a[0] in fi.params:
                changes.setdefault(fi.name, {}).setdefault(q, set()).add(r.a[0])
        if not bad:
            ck.ob("C29.constants", q, True)
        for x, where in sorted(bad.items()):
            ck.ob("C29.constants", "%s:%s" % (q, x), False, "%s is changed" % x, None, where)
    # nor hands such a value to a function that changes what it is given
    ck.rule("C29.handed", "no constant is handed to a function that changes what it is given", 1)
    n = 0
    for q, fi in sorted(ck.p.funcs.items()):
        if fi.module.name in STARTUP:
            continue
        local = {x.id for x in ast.walk(fi.node) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | set(fi.params)
        for c in ast.walk(fi.node):
            if not isinstance(c, ast.Call):
                continue
            name = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            for g, params in changes.get(name, {}).items():
                n += 1
                gi = ck.p.funcs[g]
                ps = gi.params[1:] if gi.cls is not None and isinstance(c.func, ast.Attribute) else gi.params
                for pn, a in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]:
                    if pn in params and isinstance(a, ast.Name) and a.id not in local:
                        d = ck.p.resolve_expr_name(fi.module, a) or "%s.%s" % (fi.module.name, a.id)
                        m = ck.p.modules.get(d.rpartition(".")[0])
                        v = m.globals.get(d.rpartition(".")[2]) if m else None
                        if isinstance(v, (ast.Dict, ast.List, ast.Set)):
                            ck.ob("C29.handed", "%s:%s" % (q, a.id), False, "%s changes its argument %s" % (g, a.id), None, "%s:%d" % (fi.module.name, c.lineno))
    ck.ob("C29.handed", "calls of functions that change an argument", n > 0, "no such calls found (%d)" % n)
