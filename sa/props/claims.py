"""Userinfo, introspection, claims released, ID Token content and algorithms."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop
from .tokens import is_session, is_grant, is_tok, active_fact
from .authz import now, nm

UI = "oidcop.oidc.userinfo.UserInfo"
INTRO = "oidcop.oauth2.introspection.Introspection"
CI = "oidcop.session.claims.ClaimsInterface"
IDT = "oidcop.token.id_token.IDToken"
GRANT = "oidcop.session.grant.Grant"
BIG = dict(cap=400, widen=3000)


def _lays(o, t):
    """layers of a mapping value: allocations, or a symbolic value with the items stored in it"""
    if t.k == "alloc":
        return layers(o, t)
    out = [("s", t)]
    for k, v in o.st.ov.items():
        if k[0] == "i" and k[1] is t:
            out.append(("kv", k[2], v))
    return tuple(out)


def distinct(o, a, b):
    if is_const(a) and is_const(b):
        return cval(a) != cval(b)
    f = o.facts
    for x in (("EQ", a, b), ("EQ", b, a)):
        if f.get(x) is False:
            return True
    for p, c in ((a, b), (b, a)):
        if is_const(c):
            for x, y in f.items():
                if x[0] == "IN" and y is False and x[1] is p and c in members(o, x[2]):
                    return True
        v = f.get(("VAL", p))
        if v is not None and is_const(v) and is_const(c):
            return cval(v) != cval(c)
    return False


def members(o, t):
    if t.k in ("lit", "tuple"):
        return {s for s in subterms(t) if is_const(s)}
    return {l[1] for l in layers(o, t) if l[0] == "i"}


def final(o, t, key):
    """-> (value, overwriting source or None): what t[key] is after all writes"""
    key = const(key) if isinstance(key, str) else key
    for l in reversed(_lays(o, t)):
        if l[0] == "kv":
            if l[1] is key:
                return l[2], None
            if not distinct(o, l[1], key):
                return None, l[1]
        elif l[0] == "s":
            src = l[1]
            if o.facts.get(("IN", key, src)) is False:
                continue
            if src.k == "alloc":
                v, w = final(o, src, key)
                if v is None and w is None:
                    continue
                return v, w
            return item(src, key), src
        else:
            return None, l[1]
    return None, None


def val(o, t, key):
    return final(o, t, key)[0]


def sources(o, t, seen=()):
    """symbolic sources merged into a mapping"""
    for l in _lays(o, t):
        if l[0] == "s":
            if l[1].k == "alloc" and l[1] not in seen:
                for x in sources(o, l[1], seen + (t,)):
                    yield x
            else:
                yield l[1]


def not_revoked(o, gp):
    return any(
        a[0] == "T" and b is False and a[1].k == "attr" and a[1].a[1] == "revoked" and gp(a[1].a[0])
        for a, b in o.facts.items()
    ) or any(
        a[0] == "T" and b is True and is_call(a[1], "is_active") and gp(a[1].a[1]) and not a[1].a[3] for a, b in o.facts.items())


def tclass(o, tp):
    """values of token_class that the path still allows"""
    for a, b in o.facts.items():
        if a[0] == "VAL" and a[1].k == "attr" and a[1].a[1] == "token_class" and tp(a[1].a[0]) and is_const(b):
            return {cval(b)}
        if a[0] == "IN" and b is True and a[1].k == "attr" and a[1].a[1] == "token_class" and tp(a[1].a[0]):
            c = a[2]
            if c.k == "lit":
                return {cval(x) for x in c.a[1] if is_const(x)} if isinstance(c.a[1], tuple) else {
                    cval(x) for x in subterms(c) if is_const(x)}
            ob = o.st.heap.get(c) if c.k == "alloc" else None
            if ob:
                return {cval(x[1]) for x in ob.layers if x[0] == "i" and is_const(x[1])}
            return {cval(x) for x in subterms(c) if is_const(x)}
        if a[0] == "ISA" and b is True and tp(a[1]):
            n = show(a[2]).rpartition(".")[2]
            return {{"AccessToken": "access_token", "RefreshToken": "refresh_token"}.get(n, n)}
    return None


def known_tok(o, tp):
    """the token was found in the grant"""
    return any(a[0] == "NONE" and b is False and tp(a[1]) for a, b in o.facts.items()) or any(
        a[0] == "T" and b is True and tp(a[1]) for a, b in o.facts.items()) or any(
        a[0] == "ISA" and b is True and tp(a[1]) for a, b in o.facts.items())


def same(t, base, *path):
    """t is base[path[0]][path[1]].. with '.x' for attributes"""
    for p in reversed(path):
        if p.startswith("."):
            if t.k != "attr" or t.a[1] != p[1:]:
                return False
        elif not is_key(t, p):
            return False
        t = t.a[0]
    return base(t)


def user_claims(o, src, who, restr, clause, construct, ck):
    """src is get_user_claims(of who, restricted by restr)"""
    a = dict(src.a[3])
    ok = "user_id" in a and who(a["user_id"]) and "claims_restriction" in a and restr(a["claims_restriction"])
    return ck.ob(clause, construct, ok, "user claims of %s are released under the restriction %s"
                 % (show(a.get("user_id")) if "user_id" in a else "?", show(a.get("claims_restriction", const(None)))), o)


# ------------------------------------------------------------------ C09


@prop("C09")
def userinfo(ck):
    ck.rule("C09.token", "user information is returned only for an access token found in the session that token identifies, "
            "of class access_token, active, in a grant that is not revoked, while the authentication is valid", 1)
    ck.rule("C09.what", "what is returned are the claims of the user of that session allowed by the grant for userinfo, with the "
            "subject identifier of the grant, for the client of that session", 1)
    ck.rule("C09.bind", "the token the endpoint acts on is the one that authenticated the request", 1)
    K = "access_token"
    tp, gp, sp = (lambda t: is_tok(t, K)), (lambda t: is_grant(t, K)), (lambda t: is_session(t, K))
    outs = ck.run(UI, "process_request", ["self", "REQ"], more_opaque={"get_user_claims", "add_acr_value", "is_valid"}, **BIG)
    n = 0
    for o in outs:
        if not success(o):
            continue
        ra = val(o, o.val, "response_args") if o.val.k == "alloc" else None
        if ra is None:
            ck.ob("C09.what", "response", False, "cannot tell what is returned: %s" % show(o.val)[:100], o)
            continue
        if ra.k == "alloc" and kv(o, ra, "error") is not None:
            src = [s for s in sources(o, ra)]
            ck.ob("C09.token", "refusal", not src, "a refusal carries user information", o)
            continue
        n += 1
        ck.ob("C09.token", "known token", known_tok(o, tp), "user information for a token that is not in the session", o)
        ck.ob("C09.token", "token class", tclass(o, tp) == {"access_token"}, "user information for a token of another class", o)
        ck.ob("C09.token", "token active", active_fact(o, tp), "user information for a token that may be expired, used up or revoked", o)
        ck.ob("C09.token", "grant not revoked", not_revoked(o, gp), "user information for a token of a revoked grant", o)
        vu = lambda t: is_key(t, "valid_until") and mentions(t, lambda s: s.k == "attr" and s.a[1] == "authentication_event" and gp(s.a[0]))
        fresh = any((a[0] == "LT" and b is False and vu(a[1]) and now(a[2])) or (a[0] == "LT" and b is True and now(a[1]) and vu(a[2]))
                    or (a[0] == "T" and b is True and is_call(a[1], "is_valid") and a[1].a[1].k == "attr"
                        and a[1].a[1].a[1] == "authentication_event") for a, b in o.facts.items())
        ck.ob("C09.token", "authentication valid", fresh, "user information after the authentication expired", o)
        srcs = list(sources(o, ra))
        ck.ob("C09.what", "sources", all(is_call(s, "get_user_claims") for s in srcs),
              "information from somewhere else: %s" % [show(s)[:80] for s in srcs], o)
        for s in srcs:
            if is_call(s, "get_user_claims"):
                user_claims(o, s, lambda t: same(t, sp, "user_id"), lambda t: same(t, gp, ".claims", "userinfo"),
                            "C09.what", "claims", ck)
        v, w = final(o, ra, "sub")
        ck.ob("C09.what", "sub", v is not None and w is None and same(v, gp, ".sub"),
              "the subject returned is %s" % (show(v)[:100] if v is not None else "missing or overwritten by %s" % (w and show(w)[:60])), o)
        c = val(o, o.val, "client_id")
        ck.ob("C09.what", "client", c is not None and same(c, sp, "client_id"), "answered as if for another client", o)
    if not n:
        raise Broken("no path of UserInfo.process_request returns claims")
    n = 0
    for o in ck.run(UI, "parse_request", ["self", "REQ"], more_opaque={"client_authentication"}, **BIG):
        if not success(o) or is_call(o.val, "client_authentication"):
            continue
        n += 1
        for key, src in (("access_token", "token"), ("client_id", "client_id")):
            v, w = final(o, o.val, key)
            ck.ob("C09.bind", key, v is not None and is_key(v, src, lambda b: is_call(b, "client_authentication")),
                  "the %s the endpoint acts on is %s, not what was authenticated" % (key, show(v)[:80] if v is not None else "?"), o)
    if not n:
        raise Broken("UserInfo.parse_request accepts nothing")


# ------------------------------------------------------------------ C10


@prop("C10")
def introspection(ck):
    ck.rule("C10.active", "a token is called active only if it is an access or refresh token found in its session, active, in a grant "
            "that is not revoked; nothing more than active=false is said about any other", 2)
    ck.rule("C10.true", "what is said about an active token (client, subject, scope, times, issuer) is what the session knows", 6)
    ck.rule("C10.claims", "user claims in the answer are those the grant allows for introspection, of that user, and replace nothing", 1)
    ck.rule("C10.answer", "tokens that can not be looked up are answered, not an error of the server", 1)
    K = "token"
    tp, gp, sp = (lambda t: is_tok(t, K)), (lambda t: is_grant(t, K)), (lambda t: is_session(t, K))
    outs = ck.run(INTRO, "process_request", ["self", "REQ"], more_opaque={"get_user_claims", "find_scope"}, raises=True, cap=6000, widen=40000)
    n = neg = 0
    for o in outs:
        if o.kind == "raise":
            continue
        if not success(o) or o.val.k != "alloc":
            continue
        ra = kv(o, o.val, "response_args")
        if ra is None:
            # the request itself, or an error message
            continue
        act, w = final(o, ra, "active")
        if act is not None and is_const(act) and not cval(act) and w is None:
            neg += 1
            more = [l for l in _lays(o, ra) if not (l[0] == "kv" and is_const(l[1]) and cval(l[1]) == "active")]
            ck.ob("C10.active", "negative answer", not more, "a negative answer says more than active=false", o)
            continue
        n += 1
        ck.ob("C10.active", "known token", known_tok(o, tp), "a token that is not in the session is called active", o)
        tc = tclass(o, tp)
        ck.ob("C10.active", "token class", tc is not None and tc <= {"access_token", "refresh_token"},
              "a token of another class (%s) is called active" % (tc and sorted(tc)), o)
        ck.ob("C10.active", "token active", active_fact(o, tp), "a token that may be expired, used up or revoked is called active", o)
        ck.ob("C10.active", "grant not revoked", not_revoked(o, gp), "a token of a revoked grant is called active", o)
        want = {
            "active": lambda v: is_const(v) and cval(v) is True,
            "client_id": lambda v: same(v, sp, "client_id"),
            "sub": lambda v: same(v, gp, ".sub"),
            "iss": lambda v: v.k == "attr" and v.a[1] == "issuer",
            "exp": lambda v: same(v, tp, ".expires_at"),
            "iat": lambda v: same(v, tp, ".issued_at"),
            "scope": lambda v: scope_of(o, v, tp, gp),
        }
        for key, f in want.items():
            v, w = final(o, ra, key)
            if v is None and w is not None:
                # replaced by something: only what is added from the configuration of the OP may
                ck.ob("C10.true", key, conf_only(w), "%s in the answer can be replaced by %s" % (key, show(w)[:90]), o)
                continue
            if w is not None and v is not None:
                ck.ob("C10.true", key, conf_only(w), "%s in the answer can come from %s" % (key, show(w)[:90]), o)
                continue
            ck.ob("C10.true", key, v is not None and f(v), "%s in the answer is %s" % (key, show(v)[:90] if v is not None else None), o)
        for s in set(all_calls(o, ra, "get_user_claims")):
            user_claims(o, s, lambda t: same(t, sp, "user_id"), lambda t: same(t, gp, ".claims", "introspection"),
                        "C10.claims", "claims", ck)
        for s in sources(o, ra):
            ck.ob("C10.claims", "sources", is_call(s, "get_user_claims") or conf_only(s),
                  "information from %s" % show(s)[:90], o)
    if not n or not neg:
        raise Broken("introspection: %d positive and %d negative answers" % (n, neg))
    # exceptions the token lookup raises are turned into an answer
    miss = escapes(ck)
    ck.ob("C10.answer", "token lookup", not miss,
          "looking up an unknown, expired or foreign token can end in %s instead of an answer" % sorted(miss))


def scope_of(o, v, tp, gp):
    """the scope of the token itself; that of its origin or grant only if it has none"""
    ok = other = False
    for s in subterms(v):
        if same(s, tp, ".scope"):
            ok = True
        elif same(s, gp, ".scope"):
            ok = other = True
        elif is_call(s, "find_scope") and gp(s.a[1]):
            ok = True
            args = [x for _, x in s.a[3]]
            other = other or not any(tp(x) or same(x, tp, ".value") for x in args)
    if other:
        ok = any(a[0] == "T" and b is False and same(a[1], tp, ".scope") for a, b in o.facts.items())
    return ok


def conf_only(t):
    """comes from the configured token_args_methods or the context, not from user information"""
    return mentions(t, lambda s: s.k == "attr" and s.a[1] == "token_args_methods")


def all_calls(o, t, name, seen=None):
    for l in _lays(o, t):
        for x in l[1:]:
            if isinstance(x, T):
                for s in subterms(x):
                    if is_call(s, name):
                        yield s


LOOKUP_FAILS = ("oidcop.token.exception.UnknownToken", "oidcop.exception.ToOld", "oidcop.token.exception.WrongTokenClass", "KeyError",
                "ValueError")


def escapes(ck):
    bad = set()
    for w in LOOKUP_FAILS:
        outs = ck.run(INTRO, "process_request", ["self", "REQ"], more_opaque={"get_user_claims", "find_scope"}, raises=True,
                      throws={"get_session_info_by_token": w}, **BIG)
        for o in outs:
            if o.kind == "raise" and w in [x if isinstance(x, str) else show(x) for x in (o.val.a[0],)]:
                bad.add(w.rpartition(".")[2])
    return bad


# ------------------------------------------------------------------ C11


@prop("C11")
def released_claims(ck):
    ck.rule("C11.filter", "a user claim is released only if the restriction names it and the user's value satisfies what is "
            "asked for; without restriction none is", 3)
    ck.rule("C11.match", "a value matches only if there is one and nothing else is asked for, or it is the value or among the "
            "values asked for", 3)
    ck.rule("C11.sources", "what may be released at a point comes from the configuration of that point, the allowed scopes and "
            "the claims parameter for that point only", 3)
    ck.rule("C11.scopes", "a scope yields claims only if the client may use the scope", 1)
    ck.rule("C11.user", "tokens carry claims of the user of their session, restricted by what may be released at that point, and "
            "those replace nothing the token says about itself", 3)
    # --- get_user_claims
    R = sym("RESTR")
    U = sym("USER")
    n = 0
    for o in ck.run(CI, "get_user_claims", ["self", "USER", "RESTR"], more_opaque={"claims_match"}, **BIG):
        if o.kind != "return":
            continue
        n += 1
        if o.val.k != "alloc":
            ck.ob("C11.filter", "result", False, "returns %s unfiltered" % show(o.val)[:100], o)
            continue
        for l in _lays(o, o.val):
            if l[0] != "kv":
                ck.ob("C11.filter", "unfiltered", False, "user information %s is released as it is" % show(l[1])[:90], o)
                continue
            k, v = l[1], l[2]
            named = k.k == "elem" and k.a[0] is R
            named = named or any(a[0] == "IN" and b is True and a[1] is k and a[2] is R for a, b in o.facts.items())
            ck.ob("C11.filter", "named", named, "claims that the restriction does not name are released", o)
            of = v.k == "item" and v.a[1] is k and mentions(v.a[0], lambda s: s is U) and mentions(
                v.a[0], lambda s: (s.k == "attr" and s.a[1] == "userinfo") or is_call(s, "userinfo"))
            ck.ob("C11.filter", "value", of, "the value released for a claim is %s" % show(v)[:90], o)
            m = any(a[0] == "T" and b is True and is_call(a[1], "claims_match") and dict(a[1].a[3]).get("value") is v
                    and is_key2(dict(a[1].a[3]).get("claimspec"), R, k) for a, b in o.facts.items())
            ck.ob("C11.filter", "matched", m, "a claim is released whose value was not matched against what is asked for", o)
    if n < 3:
        raise Broken("get_user_claims: %d paths" % n)
    # --- claims_match
    n = 0
    V, S = sym("VALUE"), sym("SPEC")
    for o in ck.run("oidcop.session.claims.claims_match", None, ["VALUE", "SPEC"], truth=True, loop_track=True, **BIG):
        if o.kind != "return" or not (is_const(o.val) and cval(o.val)) and not o.val.k != "const":
            continue
        if is_const(o.val) and not cval(o.val):
            continue
        n += 1
        f = o.facts
        there_ = f.get(("NONE", V)) is False or f.get(("T", V)) is True
        ck.ob("C11.match", "missing value", there_, "a claim without a value can match", o)

        def spec(t, key):
            if t.k != "item" or t.a[0] is not S:
                return False
            if is_const(t.a[1]):
                return cval(t.a[1]) == key
            x = f.get(("VAL", t.a[1]))
            return x is not None and is_const(x) and cval(x) == key

        free = f.get(("NONE", S)) is True
        only = any(a[0] == "EQ" and b is True and any(mentions(x, lambda s: s is S) for x in a[1:])
                   and any(essential_only(o, x) for x in a[1:]) for a, b in f.items())
        none_asked = all(f.get(("IN", const(k), S)) is False for k in ("value", "values"))
        eq = has_eq(o, lambda t: t is V, lambda t: spec(t, "value"))
        among = any(a[0] == "IN" and b is True and a[1] is V and spec(a[2], "values") for a, b in f.items())
        ck.ob("C11.match", "match", free or only or none_asked or eq or among,
              "a value matches without being what is asked for", o)
    if n < 3:
        raise Broken("claims_match: %d matching paths" % n)
    # --- where restrictions come from
    POINT, SC, CL, AR = sym("POINT"), sym("SCOPES"), sym("CID"), sym("AREQ")
    n = 0
    module = lambda t: is_call(t, "_get_module") and dict(t.a[3]).get("usage") is POINT
    for o in ck.run(CI, "get_claims_from_request", ["self", "AREQ", "POINT", "SCOPES", "CID", None],
                    more_opaque={"_get_module", "scopes_to_claims", "_client_claims"}, cap=4000, widen=20000):
        if o.kind != "return" or o.val.k != "alloc":
            if o.kind == "return":
                ck.ob("C11.sources", "result", False, "hands out %s itself" % show(o.val)[:90], o)
            continue
        n += 1

        def cc(t, i):
            return t.k == "item" and is_const(t.a[1]) and cval(t.a[1]) == i and is_call(t.a[0], "_client_claims") and \
                dict(t.a[0].a[3]).get("claims_release_point") is POINT and mod_or(dict(t.a[0].a[3]).get("module"))

        def mod_or(t):
            return t is not None and module(t)

        def conf(t, key):
            return is_key(t, key, lambda b: b.k == "attr" and b.a[1] == "kwargs" and module(b.a[0]))

        def client(t):
            return t is CL or is_key(t, "client_id", lambda b: b is AR)

        for l in _lays(o, o.val):
            t = l[1]
            if l[0] == "kv":
                ok = t.k == "elem" and (cc(t.a[0], 1) or conf(t.a[0], "always_add_claims"))
                ck.ob("C11.sources", "always", ok, "%s may be released" % show(t)[:90], o)
            elif conf(t, "base_claims") or conf(t, "always_add_claims") or cc(t, 1):
                ck.ob("C11.sources", "configured", True)
            elif is_call(t, "scopes_to_claims"):
                a = dict(t.a[3])
                okc = client(a.get("client_id", const(None))) and (a.get("scopes") is SC or is_key(
                    a.get("scopes", const(None)), "scope", lambda b: b is AR))
                ck.ob("C11.sources", "scopes", okc, "scopes are turned into claims with %s" % show(t)[:120], o)
                on = any(a2[0] == "T" and b is True and (cc(a2[1], 0) or conf(a2[1], "add_claims_by_scope")) for a2, b in o.facts.items())
                ck.ob("C11.sources", "scopes enabled", on, "scopes yield claims although the release point does not say so", o)
            else:
                ok = t.k == "item" and t.a[1] is POINT and is_key(t.a[0], "claims", lambda b: b is AR)
                ck.ob("C11.sources", "request", ok, "%s may be released" % show(t)[:100], o)
    if n < 10:
        raise Broken("get_claims_from_request: %d paths" % n)
    n = 0
    for o in ck.run(CI, "_client_claims", ["self", "CID", "MODULE", "POINT", "SECOND"], **BIG):
        if o.kind != "return":
            continue
        n += 1
        parts = [l[1] for t in subterms(o.val) if t.k == "alloc" and t in o.st.heap for l in layers(o, t)] + [o.val]
        ps = (POINT, sym("SECOND"))
        for x in parts:
            for s in subterms(x):
                if s.k == "item" and s.a[0].k == "item" and is_const(s.a[0].a[1]) and cval(s.a[0].a[1]) in ("by_scope", "always"):
                    ck.ob("C11.sources", "client release point", s.a[1] in ps,
                          "the release rules of the client for %s are used" % show(s.a[1])[:60], o)
                if s.k == "item" and s.a[0].k == "attr" and s.a[0].a[1] == "cdb":
                    ck.ob("C11.sources", "client", s.a[1] is CL, "the release rules of another client are used", o)
    if not n:
        raise Broken("_client_claims returns nothing")
    # --- get_claims / get_claims_all_usage hand the right session and point on
    for o in ck.run(CI, "get_claims", ["self", "SID", "SCOPES", "POINT", "SECOND"], more_opaque={"get_claims_from_request"}, **BIG):
        if o.kind != "return":
            continue
        cs = [s for s in subterms(o.val) if is_call(s, "get_claims_from_request")]
        ck.ob("C11.sources", "get_claims", len(cs) == 1, "claims come from %s" % show(o.val)[:100], o)
        for c in cs:
            a = dict(c.a[3])
            sess = lambda t: is_call(t, "get_session_info") and dict(t.a[3]).get("session_id") is sym("SID")
            ok = a.get("claims_release_point") is POINT and same(a.get("client_id", const(None)), sess, "client_id")
            g = lambda t: is_key(t, "grant", sess)
            ar = a.get("auth_req")
            ok = ok and ar is not None and (same(ar, g, ".authorization_request") or ar.k in ("alloc", "lit"))
            ck.ob("C11.sources", "get_claims", ok, "claims collected with %s" % show(c)[:150], o)
    # --- scopes
    SCP = "oidcop.scopes.Scopes"
    n = 0
    for o in ck.run(SCP, "scopes_to_claims", ["self", "SCOPES", "MAP", "CID"],
                    more_opaque={"filter_scopes", "convert_scopes2claims", "get_scopes_mapping"}, **BIG):
        cs = [s for s in subterms(o.val) if is_call(s, "convert_scopes2claims")]
        if o.kind != "return":
            continue
        n += 1
        okc = len(cs) >= 1
        for c in cs:
            s = dict(c.a[3]).get("scopes") or (c.a[2][0] if c.a[2] else None)
            okc = okc and s is not None and is_call(s, "filter_scopes") and dict(s.a[3]).get("client_id") is CL
        ck.ob("C11.scopes", "scopes_to_claims", okc, "scopes the client may not use yield claims", o)
    if not n:
        raise Broken("scopes_to_claims")
    n = 0
    for o in ck.run("oidcop.scopes.convert_scopes2claims", None, ["SCOPES", "ALLOWED", "MAP"], facts={("T", sym("MAP")): True}, **BIG):
        if o.kind != "return" or o.val.k != "alloc":
            continue
        n += 1
        for l in _lays(o, o.val):
            if l[0] != "kv":
                ck.ob("C11.scopes", "convert", False, "%s become claims" % show(l[1])[:80], o)
                continue
            k = l[1]
            ok = k.k == "elem" and k.a[0].k == "item" and mentions(k.a[0].a[1], lambda s: s is sym("SCOPES"))
            ck.ob("C11.scopes", "convert", ok, "a claim %s that no scope stands for" % show(k)[:80], o)
    # --- payload of tokens
    n = 0
    G = sym("self")
    for o in ck.run(GRANT, "payload_arguments", ["self", "SID", None, "POINT", "SCOPES", "EXTRA", "SECOND"],
                    binds={"endpoint_context": CTX}, more_opaque={"get_claims", "get_user_claims", "add_acr_value"}, cap=2000, widen=8000):
        if o.kind != "return" or o.val.k != "alloc":
            continue
        n += 1
        for s in all_calls(o, o.val, "get_user_claims"):
            user_claims(o, s, lambda t: is_const_item(t, 0, lambda b: is_call(b, "decrypt_session_id") and any(
                x is sym("SID") for x in list(b.a[2]) + [v for k, v in b.a[3]])),
                lambda t: is_call(t, "get_claims") and dict(t.a[3]).get("claims_release_point") is POINT and any(
                    v is sym("SID") for v in list(t.a[2]) + [v for k, v in t.a[3]]), "C11.user", "token claims", ck)
        for key in ("scope", "aud", "jti", "sub", "client_id"):
            v, w = final(o, o.val, key)
            bad = w is not None and mentions(w, lambda s: is_call(s, "get_user_claims"))
            if key in ("sub", "client_id") and not any(a[0] == "T" and b is True and is_key(
                    a[1], "client_id", lambda t: t.k == "attr" and t.a[1] == "authorization_request") for a, b in o.facts.items()):
                continue  # a grant without authorization request
            ck.ob("C11.user", key, not bad, "%s of a token can be replaced by user information" % key, o)
            if key == "sub" and v is not None and not bad:
                ck.ob("C11.user", "sub", w is not None and w is sym("EXTRA") or same(v, lambda t: t.k == "self" or t is SELF, ".sub"),
                      "the subject of a token is %s" % show(v)[:60], o)
    if n < 10:
        raise Broken("payload_arguments: %d paths" % n)


def is_const_item(t, i, base):
    return t.k == "item" and is_const(t.a[1]) and cval(t.a[1]) == i and base(t.a[0])


def is_key2(t, base, key):
    return t is not None and t.k == "item" and t.a[0] is base and t.a[1] is key


def essential_only(o, x):
    if x.k == "lit":
        xs = [cval(s) for s in subterms(x) if is_const(s)]
        return "essential" in xs and not ({"value", "values"} & set(xs))
    ob = o.st.heap.get(x) if x.k == "alloc" else None
    return ob is not None and [l[1] for l in ob.layers if l[0] == "i"] == [const("essential")]


# ------------------------------------------------------------------ C12


@prop("C12")
def id_token(ck):
    ck.rule("C12.subject", "the subject, authentication time and acr of an ID Token are those of the session it is issued in", 3)
    ck.rule("C12.nonce", "the ID Token carries the nonce of the authorization request, and no other", 2)
    ck.rule("C12.hash", "an ID Token returned with a code or access token carries the hash of exactly that one", 4)
    ck.rule("C12.reserved", "user information can not set issuer, audience, expiry or what the authentication says", 3)
    ck.rule("C12.signed", "the ID Token is signed, by the OP, for the client of the session", 3)
    SID = sym("SID")
    CODE, AT = sym("CODE"), sym("AT")
    outs = ck.run(IDT, "payload", ["self", "SID", "ALG", "CODE", "AT", "EXTRA", "UINFO"],
                  more_opaque={"get_user_claims", "claims_match"}, cap=6000, widen=100000)
    sess = lambda t: is_call(t, "get_session_info") and dict(t.a[3]).get("session_id") is SID
    gp = lambda t: is_key(t, "grant", sess)
    EX = sym("EXTRA")

    def fin(o, key):
        """value after all writes, ignoring extra claims given by the OP itself"""
        kk = const(key)
        ls = [l for l in _lays(o, o.val) if not (l[0] == "s" and l[1] is EX)]
        for l in reversed(ls):
            if l[0] == "kv":
                if l[1] is kk:
                    return (None, None) if l[2].k == "deleted" else (l[2], None)
                if not distinct(o, l[1], kk):
                    return None, l[1]
            elif l[0] == "s":
                if o.facts.get(("IN", kk, l[1])) is False:
                    continue
                return None, l[1]
        return None, None

    n = 0
    seen = set()
    for o in outs:
        if o.kind != "return" or o.val.k != "alloc":
            continue
        n += 1
        ae = lambda t: same(t, gp, ".authentication_event")
        v, w = fin(o, "sub")
        ck.ob("C12.subject", "sub", w is None and v is not None and same(v, gp, ".sub"),
              "sub is %s" % show(v if v is not None else w or const(None))[:80], o)
        for key, src in (("auth_time", "authn_time"), ("acr", "authn_info")):
            v, w = fin(o, key)
            ck.ob("C12.reserved", key, w is None, "%s can come from %s" % (key, w is not None and show(w)[:80]), o)
            if v is not None:
                ck.ob("C12.subject", key, is_key(v, src, ae), "%s is %s" % (key, show(v)[:80]), o)
            elif w is None:
                had = any(a[0] == "T" and b is True and is_key(a[1], src, ae) for a, b in o.facts.items())
                ck.ob("C12.subject", key, not had, "the %s of the authentication is left out" % src, o)
        v, w = fin(o, "nonce")
        ar = lambda t: same(t, gp, ".authorization_request")
        ck.ob("C12.nonce", "source", w is None and (v is None or is_key(v, "nonce", ar)),
              "nonce is %s" % show(v if v is not None else w or const(None))[:80], o)
        if v is None and w is None:
            had = any(a[0] == "IN" and b is True and is_const(a[1]) and cval(a[1]) == "nonce" and ar(a[2]) for a, b in o.facts.items())
            no = any((a[0] == "IN" and b is False and is_const(a[1]) and cval(a[1]) == "nonce" and ar(a[2])) or (
                a[0] in ("T",) and b is False and ar(a[1])) or (a[0] == "NONE" and b is True and ar(a[1]))
                or (a[0] == "T" and b is False and is_key(a[1], "nonce", ar)) for a, b in o.facts.items())
            ck.ob("C12.nonce", "present", no and not had, "the nonce of the request can be left out", o)
        for key in ("iss", "aud", "exp"):
            v, w = fin(o, key)
            ck.ob("C12.reserved", key, w is None and v is None, "%s can be set by user information" % key, o)
        for key, s in (("c_hash", CODE), ("at_hash", AT)):
            given = o.facts.get(("T", s))
            v, w = fin(o, key)
            if given is True or (given is None and o.facts.get(("NONE", s)) is False):
                ck.ob("C12.hash", key, v is not None and w is None and mentions(v, lambda t: is_call(t, "left_hash")) and has_sub(v, s),
                      "%s is %s" % (key, show(v if v is not None else const(None))[:80]), o)
            elif given is None and o.facts.get(("NONE", s)) is None:
                ck.ob("C12.hash", key, False, "%s does not depend on whether one is returned" % key, o)
        for s in all_calls(o, o.val, "get_user_claims"):
            user_claims(o, s, lambda t: same(t, sess, "user_id"), lambda t: same(t, gp, ".claims", "id_token"),
                        "C12.reserved", "claims", ck)
    if n < 50:
        raise Broken("IDToken.payload: %d paths" % n)
    # signing
    n = 0
    for o in ck.run(IDT, "sign_encrypt", ["self", "SID", "CID", "CODE", "AT", "SIGN", "ENC", "LIFE", "EXTRA", "UINFO"],
                    more_opaque={"payload", "get_sign_and_encrypt_algorithms"}, watch={"pack"}, watch_ctor={"JWT"}, **BIG):
        if o.kind != "return":
            continue
        n += 1
        pk = [e for e in o.trace if e.name == "pack"]
        ok = len(pk) == 1 and is_call(o.val, "pack")
        ck.ob("C12.signed", "packed", ok, "what is returned is %s, not the packed token" % show(o.val)[:80], o)
        if not ok:
            continue
        e = pk[0]
        pl = e.arg("payload") if e.arg("payload") is not None else e.arg(0)
        a = dict(pl.a[3]) if pl is not None and is_call(pl, "payload") else {}
        ck.ob("C12.signed", "content", a.get("session_id") is SID and a.get("code") is CODE and a.get("access_token") is AT,
              "signed is %s" % show(pl)[:150], o)
        ck.ob("C12.signed", "recipient", e.arg("recv") is sym("CID"), "packed for %s" % show(e.arg("recv") or const(None))[:60], o)
        iss = o.st.ov.get(("a", e.recv, "iss"))
        ck.ob("C12.signed", "issuer", iss is not None and iss.k == "attr" and iss.a[1] == "issuer",
              "issued by %s" % show(iss or const(None))[:60], o)
        ct = [x for x in o.trace if x.kind == "ctor" and x.name == "JWT"] or [x for x in o.trace if x.name == "JWT"]
        for x in ct:
            src = [v for k, v in x.args if k in ("**", None)]
            ga = [s for v in src for s in subterms(v) if is_call(s, "get_sign_and_encrypt_algorithms")]
            for g in ga:
                d = dict(g.a[3])
                ck.ob("C12.signed", "algorithms", is_const(d.get("payload_type")) and cval(d["payload_type"]) == "id_token"
                      and d.get("sign") is sym("SIGN") and d.get("encrypt") is sym("ENC")
                      and is_item_cdb(d.get("client_info"), sym("CID")), "algorithms chosen by %s" % show(g)[:150], o)
    if not n:
        raise Broken("sign_encrypt returns nothing")
    n = 0
    for o in ck.run(IDT, "__call__", ["self", "SID", "TT", "ENC", "CODE", "AT", "RULES"],
                    more_opaque={"sign_encrypt", "include_session_id"}, watch={"sign_encrypt"}, **BIG):
        if o.kind != "return":
            continue
        n += 1
        ok = is_call(o.val, "sign_encrypt")
        ck.ob("C12.signed", "call", ok, "%s is handed out instead of a signed token" % show(o.val)[:60], o)
        if not ok:
            continue
        a = dict(o.val.a[3])
        cid = a.get("client_id")
        ck.ob("C12.signed", "client", cid is not None and is_const_item(cid, 1, lambda b: is_call(b, "decrypt_session_id") and any(
            x is SID for x in list(b.a[2]) + [v for k, v in b.a[3]])) and a.get("session_id") is SID,
            "the ID Token is made for %s" % show(cid or const(None))[:60], o)
        sg = a.get("sign")
        ck.ob("C12.signed", "signed", sg is None or (is_const(sg) and cval(sg) is True), "the ID Token may be unsigned", o)
        ck.ob("C12.hash", "hash arguments", a.get("code") is CODE and a.get("access_token") is AT,
              "the code or access token the ID Token is returned with is dropped", o)
    if not n:
        raise Broken("IDToken.__call__ returns nothing")
    # what the authorization response passes on
    n = 0
    A2 = "oidcop.oauth2.authorization.Authorization"
    A1 = "oidcop.oidc.authorization.Authorization"
    for cls in (A2, A1):
        for o in ck.run(cls, "create_authn_response", ["self", "REQ", "SID"], more_opaque={"filter_scopes", "extra_response_args"},
                        watch={"mint_token"}, cap=800, widen=6000):
            if o.kind != "return" or impossible(o):
                continue
            if any(a[0] in ("T", "NONE") and b is (a[0] == "NONE") and is_call(a[1], "mint_token") for a, b in o.facts.items()):
                continue  # a minted token is an object
            ms = {}
            for e in o.trace:
                if e.name == "mint_token" and e.arg("token_class") is not None and is_const(e.arg("token_class")):
                    ms[cval(e.arg("token_class"))] = e
            if "id_token" not in ms:
                continue
            n += 1
            e = ms["id_token"]
            for cl, arg in (("authorization_code", "code"), ("access_token", "access_token")):
                got = argof(o, e, arg)
                if cl in ms:
                    r = ms[cl].ret if hasattr(ms[cl], "ret") else None
                    ok = got is not None and got.k == "attr" and got.a[1] == "value" and is_call(got.a[0], "mint_token") and \
                        class_of(got.a[0]) == cl
                    ck.ob("C12.hash", "%s passes %s" % (nm(cls), arg), ok,
                          "the ID Token is made without the hash of the %s it is returned with" % arg, o)
                else:
                    ck.ob("C12.hash", "%s passes %s" % (nm(cls), arg), got is None or (is_const(got) and cval(got) is None),
                          "the ID Token carries a hash of %s which is not returned" % show(got or const(None))[:60], o)
    if n < 4:
        raise Broken("create_authn_response mints an ID Token on %d paths" % n)


def class_of(t):
    c = dict(t.a[3]).get("token_class")
    return cval(c) if c is not None and is_const(c) else None


def argof(o, e, name):
    v = e.arg(name)
    if v is not None:
        return v
    for k, x in e.args:
        if k is None or k == "**":
            v, w = final(o, x, name)
            if v is not None:
                return v
    return None


def impossible(o):
    """the response type equals a list and has members that list has not"""
    for a, b in o.facts.items():
        if a[0] == "SEQ" and b.k == "lit":
            xs = [cval(s) for s in subterms(b) if is_const(s)]
            for a2, b2 in o.facts.items():
                if a2[0] == "IN" and a2[2] is a[1] and is_const(a2[1]):
                    if b2 is True and cval(a2[1]) not in xs or b2 is False and cval(a2[1]) in xs:
                        return True
    return False


def is_item_cdb(t, cid):
    return t is not None and t.k == "item" and t.a[1] is cid and t.a[0].k == "attr" and t.a[0].a[1] == "cdb"


# ------------------------------------------------------------------ C40


@prop("C40")
def response_algorithms(ck):
    ck.rule("C40.choice", "the algorithm a client registered for a kind of response is the one used; only without one the "
            "configured, then a supported default is", 3)
    ck.rule("C40.id_token", "a client that registered encryption for ID Tokens gets them encrypted", 1)
    ck.rule("C40.userinfo", "user information is signed and encrypted for the client as it registered, and plain only if it "
            "registered neither", 3)
    F = "oidcop.token.id_token.get_sign_and_encrypt_algorithms"
    CI_, PT = sym("CINFO"), sym("PTYPE")
    n = 0
    for o in ck.run(F, None, [None, "CINFO", "PTYPE", "SIGN", "ENC"], binds={"endpoint_context": CTX}, cap=2000, widen=8000):
        if o.kind != "return" or o.val.k != "alloc":
            continue
        n += 1
        for flag, key, suffix in (("SIGN", "sign_alg", "_signed_response_alg"), ("ENC", "enc_alg", "_encrypted_response_alg"),
                                  ("ENC", "enc_enc", "_encrypted_response_enc")):
            on = o.facts.get(("T", sym(flag)))
            v = kv(o, o.val, key)
            fl = kv(o, o.val, "sign" if flag == "SIGN" else "encrypt")
            ck.ob("C40.choice", "flag", fl is not None and (fl is sym(flag) or (is_const(fl) and on is not None and bool(cval(fl)) == on)),
                  "%s is asked for but %s" % (flag, show(fl or const(None))), o)
            if on is not True:
                continue
            reg = lambda t: t.k == "item" and t.a[0] is CI_ and names(t.a[1], PT, suffix)
            missing = any((a[0] == "IN" and b is False and a[2] is CI_ and names(a[1], PT, suffix)) or (
                a[0] in ("NONE",) and b is True and reg(a[1])) or (a[0] == "T" and b is False and reg(a[1]))
                for a, b in o.facts.items())
            if v is None:
                ck.ob("C40.choice", key, missing and key != "sign_alg", "no %s is chosen" % key, o)
            else:
                ck.ob("C40.choice", key, reg(v) or missing, "%s is %s although the client registered one" % (key, show(v)[:80]), o)
    if n < 3:
        raise Broken("get_sign_and_encrypt_algorithms: %d paths" % n)
    n = 0
    for o in ck.run(IDT, "__call__", ["self", "SID", "TT", "ENC", "CODE", "AT", "RULES"],
                    more_opaque={"sign_encrypt", "include_session_id"}, watch={"sign_encrypt"}, **BIG):
        if o.kind != "return" or not is_call(o.val, "sign_encrypt"):
            continue
        n += 1
        e = dict(o.val.a[3]).get("encrypt")
        regs = [b for a, b in o.facts.items() if a[0] in ("IN", "T") and mentions(
            a[1], lambda s: is_const(s) and cval(s) == "id_token_encrypted_response_alg")]
        enc = e is not None and (is_const(e) and cval(e) is True or o.facts.get(("T", e)) is True)
        ck.ob("C40.id_token", "encrypt", enc or False in regs or (e is not None and mentions(
            e, lambda s: is_const(s) and cval(s) == "id_token_encrypted_response_alg")),
            "an ID Token is not encrypted although the client registered encryption", o)
    if not n:
        raise Broken("IDToken.__call__")
    n = 0
    CID = sym("CID")
    for o in ck.run(UI, "do_response", ["self", "RARGS", "REQ", "CID"], watch={"pack"}, watch_ctor={"JWT"}, **BIG):
        if o.kind != "return":
            continue
        if any(a[0] == "T" and b is True and is_key(a[1], "error") for a, b in o.facts.items()):
            continue
        n += 1
        regfact = lambda key: [b for a, b in o.facts.items() if (a[0] == "IN" and is_const(a[1]) and cval(a[1]) == key and is_item_cdb(a[2], CID))
                               or (a[0] == "T" and is_key(a[1], key, lambda x: is_item_cdb(x, CID)))
                               ]
        signed = regfact("userinfo_signed_response_alg")
        ea, ee = regfact("userinfo_encrypted_response_alg"), regfact("userinfo_encrypted_response_enc")
        pk = [e for e in o.trace if e.name == "pack"]
        if not pk:
            ck.ob("C40.userinfo", "plain", False in signed and False in ea,
                  "user information is returned plain although the client registered an algorithm", o)
            continue
        e = pk[0]
        jw = {}
        for x in o.trace:
            if x.name == "JWT":
                jw = {k: v for k, v in x.args}
        ck.ob("C40.userinfo", "recipient", e.arg("recv") is CID, "packed for another client", o)
        iss = jw.get("iss")
        ck.ob("C40.userinfo", "issuer", iss is not None and iss.k == "attr" and iss.a[1] == "issuer", "issued by %s" % show(iss or const(None)), o)
        if True in signed:
            v, s = jw.get("sign_alg"), jw.get("sign")
            ck.ob("C40.userinfo", "signed", v is not None and is_key(v, "userinfo_signed_response_alg", lambda x: is_item_cdb(x, CID))
                  and (s is None or is_const(s) and cval(s) is True), "user information is not signed with the registered algorithm", o)
        if True in ea and False not in ea:
            v = jw.get("enc_enc")
            enc_ok = v is not None and (is_key(v, "userinfo_encrypted_response_enc", lambda x: is_item_cdb(x, CID))
                                        or False in ee and is_const(v) and bool(cval(v)) or any(
                                            is_key(x, "userinfo_encrypted_response_enc", lambda x: is_item_cdb(x, CID)) for x in alts(v)))
            okk = enc_ok and jw.get("enc_alg") is not None and is_key(jw["enc_alg"], "userinfo_encrypted_response_alg", lambda x: is_item_cdb(x, CID)) \
                and jw.get("encrypt") is not None and (is_const(jw["encrypt"]) and cval(jw["encrypt"]) is True or any(
                    o.facts.get(("T", x)) is True for x in [jw["encrypt"]] + [y for y in jw["encrypt"].a if hasattr(y, "k")]))
            ck.ob("C40.userinfo", "encrypted", okk, "user information is not encrypted as registered", o)
    if n < 3:
        raise Broken("UserInfo.do_response: %d paths" % n)


def names(t, pt, suffix):
    """t is PTYPE + suffix"""
    return t.k == "op" and t.a[0] in ("fmt", "Add", "add", "%", "mod", "Mod") and has_sub(t, pt) and any(
        is_const(x) and isinstance(cval(x), str) and cval(x).replace("{}", "").replace("%s", "") == suffix for x in subterms(t))
