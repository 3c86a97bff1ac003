"""How the end user is authenticated."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .claims import val
from .session import call_arg

U = "oidcop.user_authn.user."
CX = "oidcop.user_authn.authn_context."
A2 = "oidcop.oauth2.authorization.Authorization"
BIG = dict(cap=400, widen=3000)
COOKIE, CID, AUTH = sym("COOKIE"), sym("CID"), sym("AUTH")


def equal(o, p, q):
    """the path knows that two terms are equal"""
    if has_eq(o, p, q):
        return True
    return any(a[0] == "T" and b is True and is_call(a[1], "compare_digest") and len(a[1].a[2]) == 2 and (
        p(a[1].a[2][0]) and q(a[1].a[2][1]) or p(a[1].a[2][1]) and q(a[1].a[2][0])) for a, b in o.facts.items())


def stored(t, base):
    """t is the value stored for some key in base: the key, else None"""
    if t.k == "item" and t.a[0] is base:
        return t.a[1]
    if t.k == "op" and t.a[0] in ("encode", "str", "bytes", "as_bytes") and len(t.a) == 2:
        return stored(t.a[1], base)
    if is_call(t, "encode", "as_bytes"):
        return stored(t.a[1] if t.a[1] is not None else t.a[2][0], base)
    if is_call(t, "get") and t.a[1] is base and t.a[2]:
        return t.a[2][0]
    return None


def parts(t):
    """the elements of a pair"""
    return t.a if t.k == "tuple" else None


def nothing(t):
    return t is None or is_const(t) and not cval(t)


def user_of(o, res):
    return val(o, res, "uid")


def in_db(o, key, base):
    f = o.facts
    it = item(base, key)
    return f.get(("IN", key, base)) is True or f.get(("HAS", base, key)) is True or f.get(("T", it)) is True or f.get(("NONE", it)) is False


@prop("C36")
def user_authentication(ck):
    ck.rule("C36.password", "a user is authenticated only by what is stored for exactly that user", 4)
    ck.rule("C36.user", "the user taken to be authenticated is the one whose credentials were verified", 4)
    ck.rule("C36.cookie", "a cookie stands for the user of the session it names, a session with the requesting client", 5)
    ck.rule("C36.age", "a cookie older than the maximum age asked for is no authentication", 2)
    ck.rule("C36.garbage", "a cookie that names no session is no authentication, and nothing else", 3)
    ck.rule("C36.login", "what comes back from the login page is believed only if the OP made it", 2)
    ck.rule("C36.acr", "a user is authenticated by a method for an acr that was asked for, if one was asked for", 5)
    ck.rule("C36.refused", "when no method fits the request gets an error, not a session", 2)
    passwords(ck)
    cookies(ck)
    login(ck)
    methods(ck)


def passwords(ck):
    # ---- password form
    KW = sym("kwargs")
    n = 0
    for o in ck.run(U + "UserPassJinja2", "verify", None, **BIG):
        if nothing(o.val):
            continue
        n += 1
        name, pw, db = item(KW, const("username")), item(KW, const("password")), attr(SELF, "user_db")
        ck.ob("C36.user", "UserPassJinja2.verify", o.val is name, "the user is %s" % show(o.val)[:80], o)
        ok = equal(o, lambda t: stored(t, db) is name, lambda t: has_sub(t, pw))
        ck.ob("C36.password", "UserPassJinja2.verify", ok, "a user is let in without the right password", o)
        ck.ob("C36.password", "UserPassJinja2.verify:known", in_db(o, name, db) or any(
            a[0] == "IN" and a[1] is name and b is True for a, b in o.facts.items()), "an unknown user is let in", o)
    if not n:
        raise Broken("verify lets nobody in")
    # ---- HTTP basic
    usr, pwd, db = sym("USR"), sym("PWD"), attr(SELF, "passwd")
    for o in ck.run(U + "BasicAuthn", "verify_password", ["self", "USR", "PWD"], **BIG):
        ck.ob("C36.password", "BasicAuthn.verify_password", equal(o, lambda t: stored(t, db) is usr, lambda t: t is pwd),
              "a wrong password passes", o)
    for cls, what in (("BasicAuthn", "basic"), ("SymKeyAuthn", "key"), ("NoAuthn", "none")):
        n = 0
        for o in ck.run(U + cls, "authenticated_as", ["self", "CID", "COOKIE", "AUTH"], more_opaque={"cookie_info"}, **BIG):
            p = parts(o.val)
            if p is None or len(p) != 2:
                raise Broken("authenticated_as of %s does not return a pair" % cls)
            if nothing(p[0]):
                continue
            n += 1
            u = user_of(o, p[0])
            lab = cls + ".authenticated_as"
            if u is None:
                ck.ob("C36.user", lab, False, "nobody is authenticated", o)
                continue
            # a cookie may add to what is known about the same user
            ci = lambda t: is_call(t, "cookie_info")
            if is_key(u, "uid", ci):
                own = [y if x is u else x for x, y in eq_pairs(o) if x is u or y is u]
            elif u.k == "phi":
                own = list(alts(u))
            else:
                own = [u]
            own = [x for x in own if not is_key(x, "uid", ci)]
            ck.ob("C36.user", lab + ":cookie", bool(own), "the user of a cookie replaces the one that authenticated", o)
            lyr = layers(o, p[0])
            src = [l for l in lyr if l[0] == "s"]
            if src and u in own:
                ok = all(has_eq(o, lambda t: is_key(t, "uid", ci) and t.a[0] is s[1], lambda t: t is u) or overwritten(lyr, s) for s in src)
                ck.ob("C36.user", lab + ":cookie", ok, "the user of a cookie may replace the one that authenticated", o)
            if not own:
                continue
            if what == "none":
                ok = any(x is attr(SELF, "user") for x in own)
            elif what == "basic":
                ok = any(equal(o, lambda t: stored(t, db) is x, lambda t: has_sub(t, AUTH)) for x in own) and all(has_sub(x, AUTH) for x in own)
            else:
                dec = lambda t: is_call(t, "decrypt") and t.a[1] is not None and mentions(t.a[1], lambda s: s is attr(SELF, "symkey")) and any(has_sub(a, AUTH) for a in t.a[2])
                ok = any(mentions(x, dec) for x in own)
            ck.ob("C36.password", lab, ok, "the user %s was not authenticated" % show(own[0])[:100], o)
        if not n:
            raise Broken("authenticated_as of %s authenticates nobody" % cls)


def overwritten(lyr, s):
    i = lyr.index(s)
    return any(l[0] == "kv" and is_const(l[1]) and cval(l[1]) == "uid" for l in lyr[i + 1:])


def sealed(t):
    """t is what a sealed session identifier names: the identifier"""
    if is_call(t, "decrypt_session_id", "unpack_session_key"):
        return call_arg(t, "key", 0)
    return None


def cookies(ck):
    n = 0
    outs = ck.run(U + "UserAuthnMethod", "cookie_info", ["self", "COOKIE", "CID"], raises=True, **BIG)
    for o in outs:
        if o.kind != "return" or nothing(o.val):
            continue
        if o.val.k == "alloc" and not layers(o, o.val):
            continue
        n += 1
        uid, gid = user_of(o, o.val), val(o, o.val, "grant_id")
        path = uid.a[0] if uid is not None and is_key(uid, 0) else None
        sid = sealed(path) if path is not None else None
        ok = sid is not None and mentions(sid, lambda s: is_key(s, "sid")) and mentions(sid, lambda s: is_key(s, "value"))
        ck.ob("C36.cookie", "cookie_info:user", ok, "the user of a cookie is %s" % show(uid or const(None))[:100], o)
        if not ok:
            continue
        ck.ob("C36.cookie", "cookie_info:client", has_eq(o, lambda t: is_key(t, 1) and t.a[0] is path, lambda t: t is CID),
              "a cookie for a session with another client is accepted", o)
        if gid is not None:
            ck.ob("C36.cookie", "cookie_info:grant", is_key(gid, 2) and gid.a[0] is path, "the grant is %s" % show(gid)[:80], o)
        s = val(o, o.val, "sid")
        ck.ob("C36.cookie", "cookie_info:sid", s is not None and sid is s, "the session of the cookie is %s" % show(s or const(None))[:80], o)
        ts = val(o, o.val, "timestamp")
        ok = ts is not None and mentions(ts, lambda t: is_key(t, "timestamp")) and not mentions(ts, lambda t: is_call(t, "loads"))
        ck.ob("C36.age", "cookie_info:timestamp", ok, "the age of a cookie is taken from %s" % show(ts or const(None))[:80], o)
    if not n:
        raise Broken("cookie_info accepts no cookie")
    for exc in ("ValueError", "KeyError"):
        for o in ck.run(U + "UserAuthnMethod", "cookie_info", ["self", "COOKIE", "CID"], raises=True, throws={"decrypt_session_id": exc}, **BIG):
            ck.ob("C36.garbage", "cookie_info:" + exc, not gone(o), "a cookie that names no session breaks the authorization endpoint", o)
    # ---- age
    n = 0
    kw = sym("kwargs")
    age = item(kw, const("max_age"))
    for o in ck.run(U + "UserAuthnMethod", "authenticated_as", ["self", "CID", "COOKIE"], more_opaque={"cookie_info"}, **BIG):
        p = parts(o.val)
        if p is None or nothing(p[0]):
            continue
        n += 1
        i = p[0]
        ok = is_call(i, "cookie_info") and call_arg(i, "cookie", 0) is COOKIE and call_arg(i, "client_id", 1) is CID
        ck.ob("C36.cookie", "authenticated_as", ok, "the identity is %s" % show(i)[:80], o)
        if not ok:
            continue
        f = o.facts
        unasked = f.get(("IN", const("max_age"), kw)) is False or f.get(("HAS", kw, const("max_age"))) is False or f.get(("EQ", age, const(0))) is True \
            or f.get(("EQ", const(0), age)) is True or f.get(("VAL", age)) is const(0) or f.get(("T", age)) is False or f.get(("NONE", age)) is True \
            or f.get(("T", i)) is False
        ck.ob("C36.age", "authenticated_as", unasked or young(o, item(i, const("timestamp")), age), "a cookie that is too old is accepted", o)
    if not n:
        raise Broken("no cookie authenticates")
    # the maximum age that was asked for reaches the method, except when coming back from authenticating
    called = lambda kind, name, recv, it, st: name == "authenticated_as"
    outs = ck.run(A2, "setup_auth", ["self", "REQ", "RURI", "CINFO", "COOKIE", "ACR"],
                  more_opaque={"pick_authn_method", "authn_args_gather", "_unwrap_identity", "get_authentication_event", "create_grant", "create_session",
                               "re_authenticate", "max_age", "is_valid", "usage_rules"}, watch_fn=called, **BIG)
    n = 0
    for o in outs:
        for e in o.trace:
            if e.name != "authenticated_as":
                continue
            n += 1
            m = e.arg("max_age")
            up = item(sym("REQ"), const("upm_answer"))
            answered = has_eq(e, lambda t: t is up, lambda t: is_const(t) and cval(t) == "true") or (m is not None and m.k == "phi")
            ok = m is not None and (mentions(m, lambda s: is_call(s, "max_age") or is_key(s, "max_age")) or answered)
            ck.ob("C36.age", "setup_auth:" + "max_age", ok, "the maximum age asked for does not reach the authentication method", o, e.site)
            a = [x for x in e.args if x is sym("COOKIE")] or [e.arg("cookie")]
            ck.ob("C36.cookie", "setup_auth", a[0] is sym("COOKIE"), "other cookies are used", o, e.site)
    if not n:
        raise Broken("setup_auth authenticates nobody")
    # ---- a session that is gone
    for exc in ("KeyError", "oidcop.session.Revoked"):
        outs = ck.run(A2, "setup_auth", ["self", "REQ", "RURI", "CINFO", "COOKIE", "ACR"],
                      more_opaque={"pick_authn_method", "authn_args_gather", "_unwrap_identity", "get_authentication_event", "create_grant", "create_session",
                                   "re_authenticate", "max_age", "is_valid", "usage_rules", "authenticated_as"},
                      throws={"__getitem__": exc, "SessionManager.__getitem__": exc}, raises=True, **BIG)
        for o in outs:
            if any(a[0] == "T" and b is False and is_key(a[1], "sid") for a, b in o.facts.items()):
                continue
            ck.ob("C36.garbage", "setup_auth:" + exc.rpartition(".")[2], not gone(o), "a cookie of a session that is gone breaks the authorization endpoint", o)


def known(o, pam):
    """what the path knows about an error in the result of the choice"""
    for a, b in o.facts.items():
        if a[0] in ("IN", "HAS") and any(is_const(x) and cval(x) == "error" for x in a[1:]) and any(pam(x) for x in a[1:]):
            return b
        if a[0] == "T" and is_key(a[1], "error", pam):
            return b
        if a[0] == "IN" and is_const(a[1]) and cval(a[1]) == "method" and pam(a[2]) and b is False:
            return True
    return None


def gone(o):
    return o.kind == "raise" and any(x in show(o.val) for x in ("KeyError", "ValueError", "Revoked"))


def young(o, ts, age):
    """the path knows that now is not later than ts + age"""
    from .handlers import now

    def is_sum(t):
        return t.k == "op" and t.a[0] == "add" and len(t.a) == 3 and {strip(t.a[1]), strip(t.a[2])} == {ts, age}

    def is_diff(t, x):
        return t.k == "op" and t.a[0] == "sub" and len(t.a) == 3 and now(t.a[1]) and strip(t.a[2]) is x

    for a, b in o.facts.items():
        if a[0] != "LT":
            continue
        x, y = a[1], a[2]
        if is_sum(x) and now(y) and b is False or now(x) and is_sum(y) and b is True:
            return True
        if (is_diff(y, ts) and strip(x) is age or is_diff(y, age) and strip(x) is ts) and b is False:
            return True
        if (is_diff(x, ts) and strip(y) is age or is_diff(x, age) and strip(y) is ts) and b is True:
            return True
    return False


def strip(t):
    while t.k == "op" and t.a[0] in ("int", "float") and len(t.a) == 2 or is_call(t, "int") and t.a[2]:
        t = t.a[1] if t.k == "op" else t.a[2][0]
    return t


def login(ck):
    tok = sym("TOKEN")
    n = 0
    for o in ck.run(U + "UserAuthnMethod", "unpack_token", ["self", "TOKEN"], **BIG):
        if nothing(o.val):
            continue
        n += 1
        v = o.val
        # a JWT verified with the keys of the OP: unpack() with its key jar finds the keys of the issuer of the token
        ok = mentions(v, lambda s: is_call(s, "unpack", "verify_compact") and any(has_sub(a, tok) for a in s.a[2]) or is_call(s, "unpack", "verify_compact") and s.a[1] is not None and has_sub(s.a[1], tok))
        ck.ob("C36.login", "unpack_token:verified", ok, "what is used was not verified: %s" % show(v)[:80], o)
        mine = has_eq(o, lambda t: is_key(t, "iss", lambda b: b is v), lambda t: t is attr(CTX, "issuer"))
        keys = mentions(v, lambda s: is_call(s, "verify_compact") and mentions(s, lambda k: is_call(k, "get_signing_key", "get") and (
            not k.a[2] or len(k.a[2]) < 2 or any(is_const(x) and cval(x) == "" for x in k.a[2]))))
        ck.ob("C36.login", "unpack_token:issuer", mine or keys, "a token signed by a client is taken for one of the OP", o)
    if not n:
        raise Broken("unpack_token accepts nothing")


def methods(ck):
    db, a2i = attr(SELF, "db"), attr(SELF, "acr2id")
    acr = sym("ACR")
    for o in ck.run(CX + "AuthnBroker", "_pick_by_class_ref", ["self", "ACR"], **BIG):
        v = o.val
        if v.k == "alloc" and not layers(o, v) or nothing(v):
            continue
        ls = layers(o, v)
        ok = bool(ls)
        for l in ls:
            x = l[-1]
            ok = ok and mentions(x, lambda s: s.k == "item" and s.a[0] is db) and has_sub(x, item(a2i, acr))
        ck.ob("C36.acr", "AuthnBroker._pick_by_class_ref", ok, "methods for another acr: %s" % show(v)[:100], o)
    for o in ck.run(CX + "AuthnBroker", "pick", ["self", "ACR"], more_opaque={"_pick_by_class_ref"}, **BIG):
        if is_call(o.val, "_pick_by_class_ref"):
            ck.ob("C36.acr", "AuthnBroker.pick", call_arg(o.val, "acr", 0) is acr, "", o)
        else:
            ck.ob("C36.acr", "AuthnBroker.pick", o.facts.get(("NONE", acr)) is True or o.facts.get(("T", acr)) is False,
                  "any method is picked although an acr was asked for", o)
    req = sym("REQ")
    one = lambda a: a[0] in ("EQ", "VAL", "LT") and any(hasattr(x, "k") and mentions(x, lambda s: is_call(s, "len", "__len__") or s.k == "op" and s.a[0] == "len") for x in a[1:])
    n = 0
    asked = {"acr_values": item(req, const("acr_values"))}
    for o in ck.run(CX + "pick_auth", None, ["CTX", "REQ"], more_opaque={"pick", "default"}, keep={"pick", "default"}, **BIG):
        v = o.val
        if nothing(v):
            continue
        single = any(one(a) and (b is True or a[0] == "VAL") for a, b in o.facts.items())
        src = [s for s in subterms(v) if is_call(s, "pick", "default")]
        if not src:
            ck.ob("C36.acr", "pick_auth", False, "the method is %s" % show(v)[:100], o)
            continue
        n += 1
        if all(is_call(s, "default") for s in src):
            # nothing asked for
            av = asked["acr_values"]
            noacr = o.facts.get(("IN", const("acr_values"), req)) is False or o.facts.get(("T", av)) is False or o.facts.get(("NONE", av)) is True
            wrapped = any(a[0] == "T" and b is False and a[1] is not av and has_sub(a[1], av) and not has_call(a[1], "pick") for a, b in o.facts.items())
            if not (single or noacr or wrapped):
                el = o.facts.get(("EMPTY", av))
                noacr = el is True
            claimed = any(a[0] == "IN" and b is True and is_const(a[1]) and cval(a[1]) == "value" and is_key(a[2], "acr") or
                          a[0] == "T" and b is True and is_key(a[1], "values", lambda t: is_key(t, "acr")) for a, b in o.facts.items())
            tried = any(mentions(x, lambda s: is_call(s, "pick")) for a in o.facts for x in a[1:] if hasattr(x, "k"))
            ck.ob("C36.acr", "pick_auth:default", single or (noacr or wrapped) and not claimed and not tried, "the default method is used although an acr was asked for", o)
        else:
            p = [s for s in src if is_call(s, "pick")]
            a = call_arg(p[0], "acr", 0)
            ok = a is not None and mentions(a, lambda s: s is req) and mentions(a, lambda s: s.k == "elem" or s.k == "item")
            ck.ob("C36.acr", "pick_auth:asked", ok, "a method is picked for %s" % show(a or const(None))[:80], o)
    if not n:
        raise Broken("pick_auth picks nothing")
    # ---- a claims request for an acr without value
    cl = item(item(req, const("claims")), const("id_token"))
    for what in (None, False):
        def pre(st):
            return st.setov(("i", cl, const("acr")), const(None))
        for o in ck.run(CX + "_acr_claim", None, ["REQ"], pre=pre, raises=True, **BIG):
            bad = any(a[0] == "IN" and is_const(a[2]) and cval(a[2]) is None for a in o.facts) or o.kind == "raise"
            ck.ob("C36.acr", "_acr_claim", not bad and nothing(o.val), "a claims request without acr breaks the choice of method", o)
    # ---- refusal
    ctx_picks = {"pick_auth", "pick"}
    n = 0
    for exc in (False, True):
        kw = {"throws": {x: "Exception" for x in ctx_picks}} if exc else {}
        for o in ck.run(A2, "pick_authn_method", ["self", "REQ", "RURI", "ACR"], more_opaque=ctx_picks, facts={("T", item(sym("kwargs"), const("auth_method_id"))): False}, **dict(BIG, **kw)):
            v = o.val
            picked = is_call(v, *ctx_picks) and o.facts.get(("T", v)) is not False and o.facts.get(("NONE", v)) is not True
            n += 1
            ck.ob("C36.refused", "pick_authn_method", picked and not exc or is_error_val(o, v), "no method fits, and the request is not refused", o)
    if not n:
        raise Broken("pick_authn_method never returns")
    pam = lambda t: is_call(t, "pick_authn_method")
    outs = ck.run(A2, "setup_auth", ["self", "REQ", "RURI", "CINFO", "COOKIE", "ACR"],
                  more_opaque={"pick_authn_method", "authenticated_as", "authn_args_gather", "_unwrap_identity", "get_authentication_event", "create_grant",
                               "create_session", "re_authenticate", "max_age", "is_valid", "usage_rules"}, raises=True, **BIG)
    n = 0
    for o in outs:
        err = known(o, pam)
        if o.kind == "return" and err:
            n += 1
            ck.ob("C36.refused", "setup_auth:error", pam(o.val) or is_error_val(o, o.val), "the refusal is dropped", o)
        if o.kind == "return" and err is None:
            ck.ob("C36.refused", "setup_auth:unseen", False, "it is not looked at whether a method was found", o)
    ck.ob("C36.refused", "setup_auth", n > 0, "a request no method fits breaks the authorization endpoint")
    # the acr of the session is the one of the method
    n = 0
    for o in ck.run(A2, "setup_auth", ["self", "REQ", "RURI", "CINFO", "COOKIE", "ACR"],
                    more_opaque={"pick_authn_method", "authenticated_as", "authn_args_gather", "_unwrap_identity", "get_authentication_event", "create_grant",
                                 "create_session", "re_authenticate", "max_age", "is_valid", "usage_rules"}, watch={"create_session"},
                    ev_args={"create_session": {"acr"}}, **BIG):
        for e in events(o, "create_session"):
            n += 1
            a = e.arg("acr")
            ck.ob("C36.acr", "setup_auth:acr", a is not None and is_key(a, "acr", lambda t: is_call(t, "pick_authn_method")), "the acr is %s" % show(a or const(None))[:80], o, e.site)
    if not n:
        raise Broken("setup_auth creates no session")
