"""Authorization endpoint: redirect URIs, response types, authentication gate, PKCE, PAR, request objects, scopes."""
import ast

from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop

OA = "oidcop.oauth2.authorization."
A2 = OA + "Authorization"
A1 = "oidcop.oidc.authorization.Authorization"
PAR = "oidcop.oauth2.pushed_authorization.PushedAuthorization"
AUTHZ = (A2, A1, PAR)
BIG = dict(cap=400, widen=3000)
CID = sym("CID")


def nm(cls):
    return ".".join(cls.split(".")[-3:])


def rk(t, key):
    """exactly REQ[key] (or a str() of it)"""
    if t.k == "op" and t.a[0] in ("str", "fmt") and len(t.a) == 2:
        t = t.a[1]
    return is_key(t, key, lambda b: b is REQ)


def registered(t):
    return mentions(t, lambda s: s.k == "attr" and s.a[1] == "cdb")


def from_uri(t, uri):
    return mentions(t, uri) and not registered(t)


# ------------------------------------------------------------------ C13


def verify_uri_leaf(ck, clause, req=None, client=None):
    U = sym("UTYPE")
    uri = lambda s: s is item(REQ, U)
    outs = ck.run(OA + "verify_uri", None, ["CTX_", "REQ", "UTYPE", "CID"], binds={"endpoint_context": CTX},
                  more_opaque={"split_uri"}, loop_track=True, **BIG)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        f = o.facts
        frag = any(a[0] == "T" and b is False and a[1].k == "attr" and a[1].a[1] == "fragment" and mentions(a[1], uri)
                   for a, b in f.items()) or any(
            a[0] == "IN" and b is False and is_const(a[1]) and cval(a[1]) == "#" and mentions(a[2], uri) for a, b in f.items())
        ck.ob(clause, "verify_uri:fragment", frag, "a redirect URI with a fragment can be accepted", o)

        def reg_base(t):
            # an element (or first part of an element) of the client's registered list
            if t.k == "item" and is_const(t.a[1]) and cval(t.a[1]) == 0:
                t = t.a[0]
            one = t.k == "item" and t.a[1] is U  # registered as a single value
            return (t.k == "elem" or one) and registered(t) and any(
                has_sub(t, x) for x in (item(REQ, const("client_id")), CID)) and has_sub(t, U)

        base = has_eq(o, reg_base, lambda t: from_uri(t, uri))
        ck.ob(clause, "verify_uri:base", base, "a redirect URI is accepted that equals no registered one", o)
        if not base:
            continue
        E = None
        for x, y in eq_pairs(o):
            for z in (x, y):
                if reg_base(z):
                    E = z.a[0] if z.k == "item" else z
        covers_leaf(ck, clause, o, E, uri)
    if n < 3:
        raise Broken("verify_uri has %d accepting paths" % n)


def covers_leaf(ck, clause, o, E, uri):
    f = o.facts
    q = lambda t: from_uri(t, uri) and not (t.k == "attr") and t.k != "elem"
    r = lambda t: has_sub(t, E) and t is not E and not (t.k == "item" and is_const(t.a[1]) and cval(t.a[1]) == 0)

    def empty(p):
        return any(a[0] == "T" and b is False and p(a[1]) and a[1].k != "elem" and not inner(a[1]) for a, b in f.items())

    def inner(t):
        # values of one component: X[elem(..)]
        return t.k == "item" and mentions(t.a[1], lambda s: s.k == "elem")

    def eq():
        return any(q(x) and r(y) or q(y) and r(x) for x, y in eq_pairs(o))

    plain = any(a[0] == "ISA" and b is True and a[1] is E and show(a[2]).endswith("str") for a, b in f.items())

    def covered(src, dst):
        keyin = any(a[0] == "IN" and b is True and a[1].k == "elem" and src(a[1].a[0]) and not inner(a[1].a[0]) and dst(a[2])
                    for a, b in f.items())
        noval = any(a[0] == "T" and b is False and inner(a[1]) and src(a[1].a[0]) for a, b in f.items())
        valin = any(a[0] == "IN" and b is True and a[1].k == "elem" and inner(a[1].a[0]) and src(a[1].a[0].a[0])
                    and inner(a[2]) and dst(a[2].a[0]) for a, b in f.items())
        return keyin and (noval or valin)

    fwd = plain or eq() or empty(r) or covered(r, q)
    ck.ob(clause, "verify_uri:registered query", fwd,
          "a registered query component may be missing from an accepted redirect URI", o)
    bwd = eq() or empty(q) or covered(q, r)
    ck.ob(clause, "verify_uri:extra query", bwd,
          "an accepted redirect URI may carry query components that are not registered", o)


@prop("C13")
def redirect_uris(ck):
    ck.rule("C13.match", "a redirect URI passes only without a fragment, when its base equals a URI registered for the "
            "client and its query components and the registered ones agree both ways", 6)
    verify_uri_leaf(ck, "C13.match")
    ck.rule("C13.get", "the URI to use is the verified requested one or the only registered one", 2)
    U = sym("UTYPE")
    for o in ck.run(OA + "get_uri", None, ["CTX_", "REQ", "UTYPE"], binds={"endpoint_context": CTX}, more_opaque={"verify_uri"}, watch={"verify_uri"}, **BIG):
        if o.kind != "return":
            continue
        for v in alts(o.val):
            if has_sub(v, item(REQ, U)):
                ok = v is item(REQ, U) and any(
                    e.arg("request") is REQ and e.arg("uri_type") is U for e in events(o, "verify_uri"))
                ck.ob("C13.get", "get_uri:requested", ok, "a requested redirect URI is used without verification", o)
            else:
                ok = registered(v) and any(
                    (a[0] == "LT" and b is False and is_const(a[1]) and cval(a[1]) == 1 and is_len(a[2])) or
                    (a[0] == "EQ" and b is True and is_const(a[2]) and cval(a[2]) == 1 and is_len(a[1]))
                    for a, b in o.facts.items())
                ck.ob("C13.get", "get_uri:registered", ok, "a default redirect URI is picked although it is not the only registered one", o)
    ck.rule("C13.parse", "an authorization request is accepted only with a verified redirect URI stored in it", 3)
    for cls in AUTHZ:
        for o in ck.run(cls, "_post_parse_request", ["self", "REQ", "CID"], binds={"endpoint_context": CTX},
                        more_opaque={"get_uri", "verify_response_type"}, **BIG):
            if not success(o):
                continue
            v = stored(o, o.val, "redirect_uri")
            ok = v is not None and is_call(v, "get_uri") and dict(v.a[3]).get("uri_type") is const("redirect_uri") \
                and dict(v.a[3]).get("request") is o.val
            ck.ob("C13.parse", nm(cls) + "._post_parse_request", ok,
                  "an authorization request is accepted with a redirect URI that was not verified", o)
        hook(ck, "C13.parse", cls, "_post_parse_request")
    ck.rule("C13.query", "splitting a URI for comparison keeps every query component, also those without a value", 1)
    for o in ck.run("oidcop.util.split_uri", None, ["URI"], opaque=set(), **BIG):
        if o.kind != "return" or o.val.k != "tuple":
            continue
        qv = o.val.a[1]
        if is_const(qv) and not cval(qv):
            continue
        ck.ob("C13.query", "split_uri:blank values",
              has_call(qv, "parse_qs", "parse_qsl") and "keep_blank_values=True" in show(qv)
              or (qv.k == "attr" and qv.a[1] == "query"),
              "query components without a value are dropped before the comparison with the registered URI", o)


def is_len(t):
    return t.k == "op" and t.a[0] == "len" and registered(t) or (t.k == "call" and t.a[0] == "len")


def stored(o, base, key):
    v = kv(o, base, key)
    if v is None:
        v = o.st.ov.get(("i", base, const(key)))
    return v


def hook(ck, clause, cls, meth, lst="post_parse_request"):
    """the constructor (or an inherited one that it calls) registers self.meth in self.lst"""
    for c in ck.p.mro(cls):
        ci = ck.p.get_class(c)
        fi = ci.methods.get("__init__") if ci is not None else None
        if fi is None or fi.module.external:
            continue
        for nd in ast.walk(fi.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("append", "insert", "extend") \
                    and lst in ast.dump(nd.func.value) and "'%s'" % meth in ast.dump(nd):
                ck.ob(clause, "%s.__init__:%s" % (nm(cls), meth), True)
                return
            if isinstance(nd, (ast.Assign, ast.AugAssign)) and lst in ast.dump(nd) and "'%s'" % meth in ast.dump(nd.value):
                ck.ob(clause, "%s.__init__:%s" % (nm(cls), meth), True)
                return
    ck.ob(clause, "%s.__init__:%s" % (nm(cls), meth), False, "%s is not registered in %s of %s" % (meth, lst, nm(cls)))


# ------------------------------------------------------------------ C14


def uri_ok(v, o=None):
    if v is None:
        return True
    if v.k == "phi":
        return all(uri_ok(x, o) for x in v.a)
    if is_const(v):
        return not cval(v)
    if show(v) == "deleted()":
        return True
    if rk(v, "redirect_uri"):
        return True
    if is_call(v, "get_uri"):
        return dict(v.a[3]).get("uri_type") is const("redirect_uri") and dict(v.a[3]).get("request") is REQ
    if is_key(v, "return_uri"):
        # handed on from another response description
        return not mentions(v, lambda s: s is REQ and False) and not is_key(v, "return_uri", lambda b: b is REQ)
    return False


def uris_used(o):
    """values put under return_uri in anything this path builds, and form actions"""
    st = o.st
    for t, ob in st.heap.items():
        for ly in getattr(ob, "layers", ()):
            if ly[0] == "kv" and is_const(ly[1]) and cval(ly[1]) == "return_uri":
                yield "return_uri", ly[2]
            for v in ly[1:]:
                if hasattr(v, "k"):
                    yield from actions(v)
    for k, v in st.ov.items():
        if k[0] == "i":
            if is_const(k[2]) and cval(k[2]) == "return_uri":
                yield "return_uri", v
            yield from actions(v)


def actions(v):
    for s in subterms(v):
        if s.k == "op" and s.a[0] == "fmt":
            for i, x in enumerate(s.a[1:-1]):
                if is_const(x) and isinstance(cval(x), str) and cval(x).rstrip("\"'").endswith("action="):
                    yield "form action", s.a[i + 2]


@prop("C14")
def responses_go_home(ck):
    ck.rule("C14.uri", "every authorization response, success or error, is addressed to the request's verified redirect URI", 8)
    ck.rule("C14.state", "success and error responses carry the request's state unchanged", 4)
    ck.rule("C14.late", "errors met after authentication are answered whether or not the request names a response mode", 1)
    ck.rule("C14.mode", "answering in the response mode of the request keeps the destination; an error without one goes where it says itself", 2)
    ck.rule("C14.mixup", "every response produced after authentication names issuer and client", 2)
    fmt_ok = lambda v: uri_ok(v) or (is_call(v, "escape", "quote", "quoteattr") and any(uri_ok(x) for x in v.a[2]))
    for cls in (A2, A1):
        for name, params, more in (
            ("authz_part2", ["self", "REQ", "SID"], {"create_authn_response", "get_uri", "inputs", "compute_session_state", "new_cookie", "get_authentication_event"}),
            ("process_request", ["self", "REQ"], {"authz_part2", "setup_auth", "get_uri", "inputs", "check_unknown_scopes_policy", "do_request_user"}),
            ("_login_required_error", ["self", "RURI", "REQ"], set()),
        ):
            for o in ck.run(cls, name, params, more_opaque=more, **BIG):
                for what, v in uris_used(o):
                    ok = fmt_ok(v) or (name == "_login_required_error" and v is sym("RURI"))
                    ck.ob("C14.uri", "%s.%s:%s" % (nm(cls), name, what), ok,
                          "a response is addressed to %s" % show(v)[:120], o)
                if name == "_login_required_error" and o.kind == "return":
                    ck.ob("C14.uri", "%s.%s" % (nm(cls), name), kv(o, o.val, "return_uri") is sym("RURI"), "", o)
                    state_ob(ck, "C14.state", "%s.%s" % (nm(cls), name), o, o.val)
                if name == "authz_part2" and o.kind == "return" and o.val.k == "call" and o.val.a[0] == "create_authn_response":
                    for k, want in (("iss", lambda v: v.k == "attr" and v.a[1] == "issuer"),
                                    ("client_id", lambda v: rk(v, "client_id"))):
                        ra = o.st.ov.get(("i", o.val, const("response_args"))) or item(o.val, const("response_args"))
                        if o.facts.get(("IN", const("response_args"), o.val)) is False or o.facts.get(("NONE", ra)):
                            continue
                        v = stored(o, ra, k)
                        ck.ob("C14.mixup", "%s.authz_part2:%s" % (nm(cls), k), v is not None and want(v),
                              "a response leaves without the parameter %s" % k, o)
        form_names_issuer(ck, cls)
        mode_keeps_destination(ck, cls)
        outs = ck.run(cls, "error_by_response_mode", ["self", "INFO", "REQ", "ERR", "DESC"], raises=True, facts={("IN", const("response_mode"), REQ): False},
                      more_opaque={"authentication_error_response", "inputs"}, **BIG)
        ck.ob("C14.late", nm(cls) + ".error_by_response_mode", any(o.kind == "return" for o in outs) and not any(o.kind == "raise" for o in outs),
              "an error met after authentication is not answered when the request names no response mode", where="oauth2/authorization.py error_by_response_mode")
        for o in ck.run(cls, "process_request", ["self", "REQ"],
                        more_opaque={"authz_part2", "setup_auth", "get_uri", "inputs", "check_unknown_scopes_policy", "do_request_user"},
                        watch={"setup_auth"}, **BIG):
            for e in events(o, "setup_auth"):
                v = e.arg("redirect_uri")
                ck.ob("C14.uri", nm(cls) + ".process_request:setup", v is not None and uri_ok(v),
                      "errors found while authenticating go somewhere else than the verified redirect URI", o)
        for o in ck.run(cls, "authentication_error_response", ["self", "REQ", "ERR", "DESC"], **BIG):
            if o.kind == "return":
                state_ob(ck, "C14.state", nm(cls) + ".authentication_error_response", o, o.val)
        for o in ck.run(cls, "create_authn_response", ["self", "REQ", "SID"],
                        more_opaque={"filter_scopes", "authentication_error_response"}, **BIG):
            if o.kind != "return":
                continue
            ra = kv(o, o.val, "response_args")
            if ra is None:
                ck.ob("C14.state", nm(cls) + ".create_authn_response:args", False, "no response arguments", o)
            elif ra.k == "alloc":
                state_ob(ck, "C14.state", nm(cls) + ".create_authn_response", o, ra)
            else:
                for x in alts(ra):
                    ck.ob("C14.state", nm(cls) + ".create_authn_response:error",
                          is_call(x, "authentication_error_response") and dict(x.a[3]).get("request") is REQ,
                          "error without the request's state", o)


def mode_keeps_destination(ck, cls):
    uri, ra = sym("RURI"), sym("RARGS")
    n = 0
    for o in ck.run(cls, "response_mode", ["self", "REQ", "RARGS", "RURI", "FENC"], more_opaque={"inputs"}, **BIG):
        if o.kind != "return":
            continue
        form = [v for what, v in uris_used(o) if what == "form action"]
        form = [v.a[2][0] if is_call(v, "escape", "quote", "quoteattr") and v.a[2] else v for v in form]
        if form:
            dest = form[0]
        else:
            dest = kv(o, o.val, "return_uri") if o.val.k == "alloc" else stored(o, o.val, "return_uri")
        if dest is None:
            ck.ob("C14.mode", nm(cls) + ".response_mode:no destination", False, "a response has no destination", o)
            continue
        n += 1
        no_error = any(a[0] == "IN" and b is False and a[1] is const("error") for a, b in o.facts.items()) or o.facts.get(("T", ra)) is False
        known = o.facts.get(("T", uri))
        own = is_key(dest, "return_uri", lambda b: True)
        ck.ob("C14.mode", nm(cls) + ".response_mode" + (":form" if form else ""),
              (dest is uri and (known is True or no_error)) or (own and known is False),
              "a response is sent to %s" % show(dest)[:100], o)
    if n < 3:
        raise Broken("response_mode: %d destinations" % n)


def form_names_issuer(ck, cls):
    """a form is complete when it is made: issuer and client are in it"""
    at_call = []

    def seen(kind, name, recv, it, st):
        if name in ("response_mode", "inputs") and kind == "call":
            at_call.append((name, st))
        return False

    n = 0
    for opq in ({"response_mode"}, {"inputs"}):
        del at_call[:]
        outs = ck.run(cls, "post_authentication", ["self", "REQ", "SID"], more_opaque={"create_authn_response", "get_uri", "new_cookie", "error_response"} | opq,
                      watch_fn=seen, **BIG)
        res = []
        for name, st in at_call:
            if name not in opq:
                continue
            mode = st.facts.get(("VAL", item(REQ, const("response_mode"))))
            if mode is not None and is_const(mode) and cval(mode) != "form_post":
                continue
            if any(a[0] == "EQ" and b is False and a[1] is item(REQ, const("response_mode")) and a[2] is const("form_post") for a, b in st.facts.items()):
                continue
            have = {}
            for (k, base, key), v in st.ov.items():
                if k == "i" and is_const(key) and cval(key) in ("iss", "client_id"):
                    have[cval(key)] = v
            res.append((have, st))
        if res and all(set(h) == {"iss", "client_id"} for h, _ in res) or opq == {"inputs"}:
            break
    for h, st in res:
        n += 1
        for k, want in (("iss", lambda v: v.k == "attr" and v.a[1] == "issuer"), ("client_id", lambda v: is_key(v, "client_id", lambda b: True) or rk(v, "client_id") or has_call(v, "decrypt_session_id"))):
            ck.ob("C14.mixup", "%s.post_authentication:form:%s" % (nm(cls), k), k in h and want(h[k]), "a form leaves without the parameter %s" % k)
    if not n:
        raise Broken("no form is made")


def state_ob(ck, clause, construct, o, resp):
    stv = item(REQ, const("state"))
    have = stored(o, resp, "state")
    known = o.facts.get(("T", stv))
    inn = o.facts.get(("IN", const("state"), REQ))
    if known is False or inn is False:
        ok = have is None or have is stv or (is_const(have) and not cval(have))
    else:
        ok = have is stv
    ck.ob(clause, construct, ok, "the response does not carry the request's state", o)


# ------------------------------------------------------------------ C15

ARTIFACT = {"authorization_code": "code", "access_token": "token", "id_token": "id_token"}


@prop("C15")
def response_types(ck):
    rt = item(REQ, const("response_type"))
    ck.rule("C15.registered", "an authorization request is accepted only for a response type registered for the client", 3)
    for cls in AUTHZ:
        for o in ck.run(cls, "_post_parse_request", ["self", "REQ", "CID"], binds={"endpoint_context": CTX},
                        more_opaque={"get_uri", "verify_response_type"}, **BIG):
            if not success(o):
                continue
            ok = False
            for a, b in o.facts.items():
                if a[0] == "T" and b is True and is_call(a[1], "verify_response_type"):
                    c = dict(a[1].a[3])
                    ok = c.get("request") is o.val and c.get("cinfo") is not None and registered(c["cinfo"]) and has_sub(c["cinfo"], CID)
            ck.ob("C15.registered", nm(cls) + "._post_parse_request", ok,
                  "a request is accepted although its response type was not compared with the registered ones", o)
    ck.rule("C15.leaf", "a response type matches only as the same set of values as a registered one; the default is code alone", 2)
    CI = sym("CINFO")
    for cls in AUTHZ[:2]:
        for o in ck.run(cls, "verify_response_type", ["self", "REQ", "CINFO"], truth=True, **BIG):
            if o.kind != "return" or (is_const(o.val) and not cval(o.val)):
                continue
            f = o.facts
            ok = False
            for a, b in f.items():
                if b is not True:
                    continue
                if a[0] == "IN" and mentions(a[1], lambda s: s is rt):
                    ok = good_registered(o, a[2], CI) and whole(o, a[1], rt)
                if a[0] == "EQ":
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if mentions(x, lambda s: s is rt) or whole(o, x, rt):
                            if good_registered(o, y, CI):
                                ok = ok or whole(o, x, rt)
                            if y.k in ("lit", "alloc"):
                                ok = ok or only_code(o, y)
            ck.ob("C15.leaf", nm(cls) + ".verify_response_type", ok,
                  "a response type is accepted that is not, as a whole, a registered one (or code)", o)
    ck.rule("C15.artifact", "codes and tokens are minted at the authorization endpoint only when the response type asks for them "
            "and each is returned under its own name", 6)
    ck.rule("C15.unhandled", "a response type with a value that was not handled is answered with an error", 2)
    for cls in (A2, A1):
        for o in ck.run(cls, "create_authn_response", ["self", "REQ", "SID"],
                        more_opaque={"filter_scopes", "authentication_error_response"}, watch={"mint_token"}, **BIG):
            minted = {}
            for e in events(o, "mint_token"):
                c = e.arg("token_class")
                w = ARTIFACT.get(cval(c)) if c is not None and is_const(c) else None
                ok = w is not None and e.facts.get(("IN", const(w), rt)) is True
                if w is not None and not ok:
                    s = e.facts.get(("SEQ", rt))
                    ok = s is not None and const(w) in s.a[1]
                    ok = ok or any(a[0] == "EQ" and b is True and a[1].k == "elem" and has_sub(a[1], rt) and a[2] is const(w) for a, b in e.facts.items())
                ck.ob("C15.artifact", "%s.create_authn_response:%s" % (nm(cls), w or "?"), ok,
                      "a token is minted that the response type does not ask for", o, e.site)
                if w:
                    minted[w] = e
            if o.kind != "return":
                continue
            ra = kv(o, o.val, "response_args")
            if ra is None or ra.k != "alloc" or is_error_val(o, ra):
                continue
            for key, w, cl in (("code", "code", "authorization_code"), ("access_token", "token", "access_token"), ("id_token", "id_token", "id_token")):
                v = kv(o, ra, key)
                if v is None:
                    continue
                ok = v.k == "attr" and v.a[1] == "value" and is_call(v.a[0], "mint_token") and dict(v.a[0].a[3]).get("token_class") is const(cl)
                ck.ob("C15.artifact", "%s.create_authn_response:%s value" % (nm(cls), key), ok,
                      "%s in the response is not the %s minted for it" % (key, cl), o)
            f = o.facts
            ok = f.get(("T", rt)) is False or f.get(("SEQ", rt)) is not None or f.get(("IN", const("response_type"), REQ)) is False
            for a, b in f.items():
                if a[0] == "EQ" and b is True and a[1].k == "elem" and has_sub(a[1], rt) and is_const(a[2]) and cval(a[2]) in minted:
                    ok = True
                if a[0] == "IN" and b is True and a[1].k == "elem" and has_sub(a[1], rt) and a[2].k == "lit" \
                        and all(is_const(x) and cval(x) in minted for x in a[2].a[1]):
                    ok = True
            ck.ob("C15.unhandled", nm(cls) + ".create_authn_response", ok,
                  "a response type value that produced nothing is silently ignored", o)


def whole(o, t, rt):
    """t stands for the set of all requested response type values"""
    if t.k == "alloc":
        ob = o.st.heap.get(t)
        return ob is not None and len(ob.layers) == 1 and ob.layers[0][0] == "s" and has_sub(ob.layers[0][1], rt)
    # a part of them, or more than them, is something else
    part = lambda s: s.k == "op" and s.a[0] in ("diff", "inter", "union", "sub", "add", "slice", "rest", "pop", "band", "bor", "bxor") and has_sub(s, rt) \
        or s.k == "call" and s.a[0] in ("difference", "intersection", "union", "symmetric_difference", "pop") or s.k == "elem" and has_sub(s, rt)
    return t is rt or (t.k in ("op", "call") and has_sub(t, rt) and not mentions(t, part))


def good_registered(o, t, ci):
    """elements/collections of the client's registered response types (or of the default)"""
    def src(x):
        return mentions(x, lambda s: s is item(ci, const("response_types")))

    if src(t):
        return True
    if t.k == "alloc":
        ob = o.st.heap.get(t)
        if ob is None:
            return False
        res = []
        for ly in ob.layers:
            for x in ly[1:]:
                if hasattr(x, "k"):
                    res.append(src(x) or only_code(o, x) or good_registered(o, x, ci))
        return bool(res) and all(res)
    if t.k in ("lit", "tuple"):
        xs = t.a[1] if t.k == "lit" else t.a
        return bool(xs) and all(only_code(o, x) or good_registered(o, x, ci) for x in xs)
    if t.k == "elem":
        return good_registered(o, t.a[0], ci)
    return False


def only_code(o, t):
    if t.k == "alloc":
        ob = o.st.heap.get(t)
        return ob is not None and len(ob.layers) == 1 and ob.layers[0][0] == "i" and ob.layers[0][1] is const("code")
    if t.k == "lit":
        return tuple(t.a[1]) == (const("code"),)
    return is_const(t) and cval(t) == "code"


# ------------------------------------------------------------------ C16


def setup_runs(ck, cls, ev=()):
    return ck.run(
        cls, "setup_auth", ["self", "REQ", "RURI", "CINFO", "COOKIE", "ACR"],
        more_opaque={"pick_authn_method", "authenticated_as", "authn_args_gather", "_unwrap_identity",
                     "get_authentication_event", "create_grant", "create_session", "re_authenticate", "max_age", "is_valid",
                     "usage_rules"},
        watch={"create_session", "create_grant"},
        ev_args={n: {"user_id", "client_id", "request", "auth_req"} | set(ev) for n in ("create_session", "create_grant")}, **BIG)


def identity_of(t):
    return mentions(t, lambda s: is_call(s, "authenticated_as"))


def no_login_ui(o):
    """the path knows that prompt=none was not asked for"""
    pr = item(REQ, const("prompt"))
    f = o.facts
    if f.get(("IN", const("prompt"), REQ)) is False or f.get(("T", pr)) is False or f.get(("NONE", pr)) is True:
        return True
    return f.get(("IN", const("none"), pr)) is False


@prop("C16")
def authentication_gate(ck):
    ck.rule("C16.identity", "a session identifier is handed out only for an authenticated, possibly requested, user", 6)
    ck.rule("C16.reauth", "no session is reused or created when re-authentication is demanded", 2)
    ck.rule("C16.sso", "an existing session is reused only for the same client, while active and with a valid authentication event", 6)
    ck.rule("C16.owner", "new sessions and grants are created for the authenticated user and the requesting client", 4)
    ck.rule("C16.prompt", "a request with prompt=none never leads to a login page", 2)
    for cls in (A2, A1):
        for o in setup_runs(ck, cls):
            for e in events(o, "create_session", "create_grant"):
                u, c = e.arg("user_id"), e.arg("client_id")
                ck.ob("C16.owner", "%s.setup_auth:%s user" % (nm(cls), e.name),
                      u is not None and is_key(u, "uid", identity_of), "session created for %s" % show(u or const(None)), o, e.site)
                if c is not None or e.name == "create_grant":
                    ck.ob("C16.owner", "%s.setup_auth:%s client" % (nm(cls), e.name),
                          c is not None and rk(c, "client_id"), "session created for another client", o, e.site)
                rq = e.arg("request") or e.arg("auth_req")
                ck.ob("C16.owner", "%s.setup_auth:%s request" % (nm(cls), e.name), rq is REQ, "", o, e.site)
            if o.kind != "return":
                continue
            v = o.val
            sid, fn = kv(o, v, "session_id"), kv(o, v, "function")
            if any(b is True and ((a[0] == "IN" and a[1] is const("error") and a[2] is v) or (a[0] == "T" and is_key(a[1], "error", lambda x: x is v)))
                   for a, b in o.facts.items()):
                continue  # refused
            if sid is None and v.k != "alloc":
                ck.ob("C16.identity", nm(cls) + ".setup_auth:shape", False, "result of setup_auth is not a description", o)
                continue
            if fn is not None:
                allowed = no_login_ui(o) or any(a[0] == "T" and b is True and is_call(a[1], "re_authenticate") for a, b in o.facts.items())
                ck.ob("C16.prompt", nm(cls) + ".setup_auth", allowed, "prompt=none can lead to a login page", o)
            if sid is None or (is_const(sid) and not cval(sid)):
                continue
            idt = kv(o, v, "identity")
            f = o.facts
            ck.ob("C16.identity", nm(cls) + ".setup_auth:identity",
                  idt is not None and identity_of(idt) and f.get(("T", idt)) is True,
                  "a session is handed out without an authenticated user", o)
            if idt is None:
                continue
            uid = item(idt, const("uid"))
            if f.get(("IN", const("req_user"), sym("kwargs"))) is not False:
                ck.ob("C16.identity", nm(cls) + ".setup_auth:requested user",
                      has_eq(o, lambda t: t is uid, lambda t: is_key(t, "req_user")) or
                      any(a[0] in ("T",) and b is False and is_key(a[1], "req_user") for a, b in f.items()),
                      "a session is handed out for another user than the requested one", o)
            ck.ob("C16.reauth", nm(cls) + ".setup_auth",
                  any(a[0] == "T" and b is False and is_call(a[1], "re_authenticate") and dict(a[1].a[3]).get("request") is REQ
                      for a, b in f.items()),
                  "re-authentication is not considered before a session is handed out", o)
            isid = item(idt, const("sid"))
            has = f.get(("IN", const("sid"), idt))
            if has is not False and not any(e.name == "create_session" for e in o.trace):
                same = has_eq(o, lambda t: rk(t, "client_id"),
                              lambda t: is_key(t, 1) and is_call(t.a[0], "decrypt_session_id", "unpack_session_key") and has_sub(t, isid))
                ck.ob("C16.sso", nm(cls) + ".setup_auth:client", same, "a session is reused for another client", o)
                act = any(a[0] == "T" and b is True and is_call(a[1], "is_active") and has_sub(a[1].a[1], isid)
                          and is_call(a[1].a[1], "__getitem__", "get", "get_grant") for a, b in f.items())
                ck.ob("C16.sso", nm(cls) + ".setup_auth:active", act, "an inactive session is reused", o)
                val = any(a[0] == "T" and b is True and is_call(a[1], "is_valid") and is_call(a[1].a[1], "get_authentication_event")
                          for a, b in f.items())
                ck.ob("C16.sso", nm(cls) + ".setup_auth:valid", val, "a session is reused although its authentication may have expired", o)
    ck.rule("C16.process", "codes and tokens are produced only after setup_auth handed out a session, and never for a refused request", 4)
    for cls in (A2, A1):
        fi = ck.method(cls, "process_request")
        for o in ck.run(cls, "process_request", ["self", "REQ"],
                        more_opaque={"authz_part2", "setup_auth", "get_uri", "inputs", "check_unknown_scopes_policy", "do_request_user", "response_mode"},
                        watch={"authz_part2", "setup_auth"}, raises=True, **BIG):
            for e in events(o, "authz_part2"):
                f = e.facts
                fn = any((a[0] == "T" and b is False and is_key(a[1], "function", lambda x: is_call(x, "setup_auth")))
                         or (a[0] == "IN" and b is False and a[1] is const("function") and is_call(a[2], "setup_auth")) for a, b in f.items())
                er = any((a[0] == "IN" and b is False and a[1] is const("error") and is_call(a[2], "setup_auth"))
                         or (a[0] == "T" and b is False and is_key(a[1], "error", lambda x: is_call(x, "setup_auth"))) for a, b in f.items())
                ck.ob("C16.process", nm(cls) + ".process_request:login first", fn, "tokens are produced although login was asked for", o, e.site)
                ck.ob("C16.process", nm(cls) + ".process_request:error", er, "tokens are produced although authentication failed", o, e.site)
                s = e.arg("session_id")
                star = [v for k, v in e.args if k is None or k in ("None", "**")]
                ck.ob("C16.process", nm(cls) + ".process_request:session",
                      (s is not None and has_call(s, "setup_auth")) or any(has_call(x, "setup_auth") for x in star),
                      "tokens are produced for another session than the authenticated one", o, e.site)
            for e in events(o, "setup_auth"):
                refused = any(a[0] == "ISA" and b is False and a[1] is REQ and ("error" in show(a[2]).lower() or "ResponseMessage" in show(a[2])) for a, b in e.facts.items()) \
                    or e.facts.get(("IN", const("error"), REQ)) is False
                ck.ob("C16.process", nm(cls) + ".process_request:refused", refused,
                      "a request refused while parsing is processed", o, e.site)
    ck.rule("C16.authz2", "nothing is minted when the grant is not active after authorization", 2)
    for cls in (A2, A1):
        for o in ck.run(cls, "post_authentication", ["self", "REQ", "SID"],
                        more_opaque={"create_authn_response", "get_uri", "response_mode", "new_cookie", "error_response"},
                        watch={"create_authn_response"}, **BIG):
            for e in events(o, "create_authn_response"):
                ok = any(a[0] == "T" and b is True and is_call(a[1], "is_active") for a, b in e.facts.items())
                s = e.arg("sid")
                ck.ob("C16.authz2", nm(cls) + ".post_authentication", ok and s is sym("SID"),
                      "a response is created although the grant may be inactive", o, e.site)
    ck.rule("C16.relogin", "prompt=login demands re-authentication", 1)
    A = sym("AUTHN")
    for o in ck.run(OA + "re_authenticate", None, ["REQ", "AUTHN"], truth=True, **BIG):
        if is_const(o.val) and not cval(o.val):
            ok = any((a[0] == "IN" and b is False and (a[1] is const("login") or a[2] is REQ)) or
                     (a[0] in ("T",) and b is False and mentions(a[1], lambda t: rk(t, "prompt"))) or
                     (a[0] == "IN" and b is False and a[1] is const("prompt")) or
                     (a[0] == "T" and b is False and is_call(a[1], "done"))
                     for a, b in o.facts.items())
            ck.ob("C16.relogin", "re_authenticate", ok, "prompt=login does not force re-authentication", o)
        else:
            ck.ob("C16.relogin", "re_authenticate:yes", True)
    ck.rule("C16.event", "an authentication event is valid only before its valid_until time", 1)
    NOW = sym("NOW")
    for o in ck.run("oidcop.authn_event.AuthnEvent", "is_valid", ["self", "NOW"], truth=True, opaque=set(), **BIG):
        if is_const(o.val) and not cval(o.val):
            continue
        given = o.facts.get(("T", NOW))
        ref = lambda t: (t is NOW and given is not False) or (now(t) and given is not True)
        ok = any(a[0] == "LT" and b is True and is_key(a[2], "valid_until") and ref(a[1]) for a, b in o.facts.items())
        ck.ob("C16.event", "AuthnEvent.is_valid", ok, "an expired authentication event counts as valid", o)


# ------------------------------------------------------------------ C05

PK = "oidcop.oidc.add_on.pkce."


@prop("C05")
def pkce(ck):
    ch, vf, me = const("code_challenge"), const("code_verifier"), const("code_challenge_method")
    areq = lambda t: t.k == "attr" and t.a[1] == "authorization_request" and is_key(
        t.a[0], "grant", lambda b: is_call(b, "get_session_info_by_token") and req_key(dict(b.a[3]).get("token_value"), "code"))
    ck.rule("C05.verify", "a code whose authorization request had a code_challenge is accepted only with a code_verifier "
            "that matches it under the recorded method", 1)
    n = 0
    for o in ck.run(PK + "post_token_parse", None, ["REQ", "CID"], binds={"endpoint_context": CTX},
                    more_opaque={"verify_code_challenge"}, **BIG):
        if o.kind != "return" or not success(o):
            continue
        f = o.facts
        skip = [a for a, b in f.items() if a[0] == "ISA" and b is True and a[1] is REQ]
        if skip:
            for a in skip:
                cn = a[2] if isinstance(a[2], str) else show(a[2])
                sup = [t for t in ("oidcmsg.oauth2.AccessTokenRequest", "oidcmsg.oidc.AccessTokenRequest") if ck.p.is_sub(t, cn)]
                ck.ob("C05.verify", "post_token_parse:skipped kinds", not sup,
                      "code redemption requests (%s) skip the PKCE check" % cn, o)
            continue
        n += 1
        nochal = any(a[0] == "IN" and b is False and a[1] is ch and areq(a[2]) for a, b in f.items())
        ok = False
        for a, b in f.items():
            if a[0] == "T" and b is True and is_call(a[1], "verify_code_challenge"):
                d = dict(a[1].a[3])
                ok = ok or (d.get("code_verifier") is item(REQ, vf) and is_key(d.get("code_challenge", const(0)), "code_challenge", areq)
                            and is_key(d.get("code_challenge_method", const(0)), "code_challenge_method", areq))
        ck.ob("C05.verify", "post_token_parse", nochal or ok,
              "a code with a code_challenge is accepted without a matching code_verifier", o)
    if not n:
        raise Broken("post_token_parse accepts nothing")
    ck.rule("C05.leaf", "the challenge check succeeds only when the transformed verifier equals the challenge", 1)
    V, C, M = sym("VERIFIER"), sym("CHAL"), sym("METHOD")
    for o in ck.run(PK + "verify_code_challenge", None, ["VERIFIER", "CHAL", "METHOD"], truth=True, opaque=set(), **BIG):
        if o.kind != "return" or (is_const(o.val) and not cval(o.val)):
            continue
        mv = o.facts.get(("VAL", M))
        bym = lambda t: has_sub(t, M) or (mv is not None and by_method(t, cval(mv), V))
        ok = has_eq(o, lambda t: t is C, lambda t: has_sub(t, V) and bym(t)) or \
            any(a[0] == "T" and b is True and is_call(a[1], "compare_digest") and has_sub(a[1], C) and has_sub(a[1], V) and bym(a[1])
                for a, b in o.facts.items())
        ck.ob("C05.leaf", "verify_code_challenge", ok, "a verifier is accepted that does not match the challenge", o)
    ck.rule("C05.methods", "each challenge method transforms the verifier with its own hash", 1)
    mod = ck.p.modules[PK[:-1]]
    for nd in mod.tree.body:
        if isinstance(nd, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "CC_METHOD" for t in nd.targets) and isinstance(nd.value, ast.Dict):
            for k, v in zip(nd.value.keys, nd.value.values):
                name = getattr(k, "value", None)
                src = ast.dump(v)
                if isinstance(name, str) and name.startswith("S") and name[1:].isdigit():
                    ck.ob("C05.methods", "CC_METHOD[%s]" % name, "sha%s" % name[1:] in src,
                          "method %s does not use sha%s" % (name, name[1:]), None, "%s:%d" % (mod.path, v.lineno))
                elif name == "plain":
                    ok = isinstance(v, ast.Lambda) and isinstance(v.body, ast.Name) and v.body.id == v.args.args[0].arg or not isinstance(v, ast.Lambda)
                    ck.ob("C05.methods", "CC_METHOD[plain]", ok, "plain is not the identity")
    ck.rule("C05.essential", "where PKCE is essential an authorization request without code_challenge is refused, and so is an unsupported method", 2)
    for o in ck.run(PK + "post_authn_parse", None, ["REQ", "CID"], binds={"endpoint_context": CTX}, **BIG):
        if not success(o):
            continue
        f = o.facts
        has = f.get(("IN", ch, REQ))
        if has is not True:
            ne = any(a[0] == "T" and b is False and (is_key(a[1], "pkce_essential") or is_key(a[1], "essential")) for a, b in f.items()) or any(
                a[0] == "IN" and b is False and a[1] is const("essential") for a, b in f.items())
            cl = f_in(f, "pkce_essential", lambda t: registered(t))
            if cl is True:
                ne = any(a[0] == "T" and b is False and is_key(a[1], "pkce_essential") for a, b in f.items())
            ck.ob("C05.essential", "post_authn_parse:essential", ne, "a request without code_challenge passes although PKCE may be essential", o)
        if has is not False:
            m = stored(o, REQ, "code_challenge_method") or item(REQ, me)
            sup = any(a[0] == "IN" and b is True and (a[1] is m or a[1] is item(REQ, me)) and "code_challenge_methods" in show(a[2]) for a, b in f.items())
            ck.ob("C05.essential", "post_authn_parse:method", sup, "an unsupported code_challenge_method passes", o)
            ck.ob("C05.essential", "post_authn_parse:recorded",
                  f.get(("IN", me, REQ)) is True or stored(o, REQ, "code_challenge_method") is not None,
                  "no challenge method is recorded for the request", o)
    ck.rule("C05.hooks", "PKCE support checks both the authorization and the token endpoint", 2)
    EP = sym("ENDPOINTS")
    n = 0
    for o in ck.run(PK + "add_pkce_support", None, ["ENDPOINTS"], watch_fn=lambda kind, name, recv, it, st: kind == "mutate", **BIG):
        if o.kind != "return":
            continue
        if any(a[0] == "NONE" and b is True for a, b in o.facts.items()):
            continue
        n += 1
        for ep, fn in (("authorization", "post_authn_parse"), ("token", "post_token_parse")):
            ok = any(e.kind == "mutate" and e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "post_parse_request"
                     and is_key(e.recv.a[0], ep) and any(fn in show(v) for _, v in e.args) for e in o.trace)
            ck.ob("C05.hooks", "add_pkce_support:" + fn, ok, "%s does not take part in parsing %s requests" % (fn, ep), o)
    if not n:
        raise Broken("add_pkce_support has no normal path")


def by_method(t, m, v):
    """t is v transformed by the challenge method named m"""
    if m == "plain" and t is v:
        return True
    hit = lambda q: isinstance(q, str) and (q.endswith("[%r]" % m) or (m[1:].isdigit() and "sha%s" % m[1:] in q))
    return mentions(t, lambda s: (s.k == "item" and is_const(s.a[1]) and cval(s.a[1]) == m) or hit(show(s)))


def f_in(f, key, base):
    for a, b in f.items():
        if a[0] == "IN" and a[1] is const(key) and base(a[2]):
            return b
    return None


# ------------------------------------------------------------------ C21


def par_db(t):
    return mentions(t, lambda s: s.k == "attr" and s.a[1] == "par_db")


def now(t):
    return mentions(t, lambda s: s.k == "call" and "time" in s.a[0])


RURI = item(REQ, const("request_uri"))


@prop("C21")
def pushed_requests(ck):
    ck.rule("C21.resolve", "a pushed request is used only unexpired, by the client that pushed it, and is taken out of the store", 9)
    ck.rule("C21.unresolved", "a pushed request URI that cannot be resolved is refused", 1)
    for cls in AUTHZ:
        n = 0
        for o in ck.run(cls, "_do_request_uri", ["self", "REQ", "CID"], binds={"endpoint_context": CTX}, **BIG):
            if o.kind != "return":
                continue
            v = o.val
            f = o.facts
            from_par = par_db(v) or any(k[0] == "i" and k[1] is REQ and par_db(x) for k, x in o.st.ov.items())
            urn = any(a[0] == "T" and b is True and is_call(a[1], "startswith") and has_sub(a[1], RURI) and "urn:uuid" in show(a[1])
                      for a, b in f.items())
            if urn:
                ck.ob("C21.unresolved", nm(cls) + "._do_request_uri", from_par or
                      f.get(("T", mk("call", "endpoint", None, (const("pushed_authorization"),), (), 0))) is False,
                      "a request with an unknown pushed request URI is accepted", o)
            if not from_par:
                continue
            n += 1
            entry = None
            for s in subterms(v):
                if s.k == "item" and s.a[0].k == "attr" and s.a[0].a[1] == "par_db":
                    entry = s
            ck.ob("C21.resolve", nm(cls) + "._do_request_uri:key", entry is not None and entry.a[1] is RURI,
                  "another entry than the referenced one is used", o)
            gone = entry is not None and show(o.st.ov.get(("i", entry.a[0], entry.a[1]), const(None))) == "deleted()"
            ck.ob("C21.resolve", nm(cls) + "._do_request_uri:one time", gone, "a pushed request can be used again", o)
            ck.ob("C21.resolve", nm(cls) + "._do_request_uri:client",
                  has_eq(o, lambda t: t is CID, lambda t: is_key(t, "client_id") and par_db(t)),
                  "a pushed request can be used by another client", o)
            exp = any(a[0] == "LT" and ((b is False and is_key(a[1], "expires_at") and par_db(a[1]) and now(a[2])) or
                                        (b is True and now(a[1]) and is_key(a[2], "expires_at") and par_db(a[2])))
                      for a, b in f.items())
            ck.ob("C21.resolve", nm(cls) + "._do_request_uri:expiry", exp, "a pushed request never expires", o)
            # the request the response is built from is the pushed one
            ck.ob("C21.resolve", nm(cls) + "._do_request_uri:value", v.k == "item" and v.a[0] is entry, "parameters of the front channel request survive", o)
        if not n:
            raise Broken("no path of %s._do_request_uri resolves a pushed request" % nm(cls))
    ck.rule("C21.store", "each pushed request is stored under a fresh unguessable URI together with an expiry, and that URI is returned", 3)
    for o in ck.run(PAR, "process_request", ["self", "REQ"], **BIG):
        if o.kind != "return" or is_error_val(o, o.val):
            continue
        sets = [(k[2], v) for k, v in o.st.ov.items() if k[0] == "i" and k[1].k == "attr" and k[1].a[1] == "par_db"]
        ck.ob("C21.store", "PushedAuthorization.process_request:stored", len(sets) == 1, "", o)
        for k, v in sets:
            ck.ob("C21.store", "PushedAuthorization.process_request:urn",
                  mentions(k, lambda s: s.k == "call" and s.a[0] in ("uuid4", "rndstr", "token_urlsafe", "token_hex", "unreserved"))
                  and ("urn:uuid:" in show(k) or mentions(k, lambda s: s.k == "attr" and s.a[1] == "urn")), "the request URI can be guessed", o)
            st = kv(o, v, "expires_at")
            ck.ob("C21.store", "PushedAuthorization.process_request:expiry",
                  st is not None and now(st) and "ttl" in show(st) and st.k == "op" and st.a[0] == "add", "no expiry is stored", o)
            ttl = kv(o, kv(o, o.val, "http_response"), "expires_in") if kv(o, o.val, "http_response") is not None else None
            ck.ob("C21.store", "PushedAuthorization.process_request:lifetime",
                  st is None or st.k != "op" or (ttl if ttl is not None else attr(SELF, "ttl")) in st.a[1:], "it is kept until %s, the client is told %s" % (show(st)[:80] if st is not None else "", show(ttl) if ttl is not None else ""), o)
            ck.ob("C21.store", "PushedAuthorization.process_request:request", kv(o, v, "request") is REQ, "", o)
            hr = kv(o, o.val, "http_response")
            ck.ob("C21.store", "PushedAuthorization.process_request:answer",
                  hr is not None and kv(o, hr, "request_uri") is k, "another URI is returned", o)
    ck.rule("C21.owner", "a request is accepted, or pushed, only for the client that was established for it", 3)
    for cls in AUTHZ:
        for o in ck.run(cls, "_post_parse_request", ["self", "REQ", "CID"], binds={"endpoint_context": CTX},
                        more_opaque={"get_uri", "verify_response_type"}, **BIG):
            if success(o):
                ck.ob("C21.owner", nm(cls) + "._post_parse_request",
                      has_eq(o, lambda t: t is CID, lambda t: rk(t, "client_id")),
                      "a request object can move a request to another client", o)
        hook(ck, "C21.owner", cls, "_post_parse_request")
        hook(ck, "C21.owner", cls, "_do_request_uri")


# ------------------------------------------------------------------ C22


@prop("C22")
def request_objects(ck):
    ck.rule("C22.algs", "request objects, passed by value or by reference, are used only if their signing and encryption "
            "algorithms were checked, each against what its own header says", 12)
    vc = lambda t: is_call(t, "verified_claim_name") or (is_const(t) and isinstance(cval(t), str) and cval(t).endswith("verified_request"))
    for cls in AUTHZ:
        n = 0
        for o in ck.run(cls, "_do_request_uri", ["self", "REQ", "CID"], binds={"endpoint_context": CTX},
                        watch={"allowed_request_algorithms", "AllowedAlgorithms.__call__"}, more_opaque={"AllowedAlgorithms.__call__"}, **BIG):
            if o.kind != "return" or par_db(o.val):
                continue
            f = o.facts
            fetched = any(has_call(v, "from_jwt") for k, v in o.st.ov.items() if k[0] == "i" and k[1] is REQ) or has_call(o.val, "from_jwt")
            if fetched:
                base = None
                for k, v in o.st.ov.items():
                    for s in subterms(v):
                        if is_call(s, "from_jwt"):
                            base = s
            else:
                base = None
                vals = [a for a, b in f.items() if a[0] == "ISA" and b is True and a[1].k == "item" and a[1].a[0] is REQ and vc(a[1].a[1])]
                pres = [a for a, b in f.items() if b is True and ((a[0] == "T" and a[1].k == "item" and a[1].a[0] is REQ and vc(a[1].a[1]))
                                                                 or (a[0] == "IN" and a[2] is REQ and vc(a[1])))]
                if vals:
                    base = vals[0][1]
                elif pres:
                    base = item(REQ, pres[0][1] if pres[0][0] == "IN" else pres[0][1].a[1])
                    absent = [a for a, b in f.items() if b is False and a[0] in ("T", "ISA") and a[1] is base]
                    if absent:
                        continue
                else:
                    known_absent = any(b is False and ((a[0] in ("T", "ISA") and a[1].k == "item" and a[1].a[0] is REQ and vc(a[1].a[1]))
                                                       or (a[0] == "IN" and a[2] is REQ and vc(a[1])))
                                       or (b is True and a[0] == "NONE" and a[1].k == "item" and a[1].a[0] is REQ and vc(a[1].a[1]))
                                       for a, b in f.items())
                    ck.ob("C22.algs", nm(cls) + "._do_request_uri:by value", known_absent,
                          "a request object passed by value is never looked at", o)
                    continue
            n += 1
            how = "fetched" if fetched else "by value"
            seen = {}
            for e in o.trace:
                if e.name not in ("allowed_request_algorithms", "__call__", "AllowedAlgorithms.__call__"):
                    continue
                a = dict(e.args)
                pos = [a.get(i, a.get(str(i))) for i in range(4)]
                c = a.get("client_id", pos[0])
                alg = a.get("alg", pos[2])
                ty = a.get("alg_type", pos[3])
                if ty is None or not is_const(ty):
                    continue
                ok = c is CID and alg is not None
                seen.setdefault(cval(ty), []).append((ok, alg, e))
            jws = lambda t: mentions(t, lambda s: s.k == "attr" and s.a[1] == "jws_header" and s.a[0] is base)
            jwe = lambda t: mentions(t, lambda s: s.k == "attr" and s.a[1] == "jwe_header" and s.a[0] is base)
            hasjws = f.get(("T", attr(base, "jws_header"))) is not False
            dec = lambda alg: (jws(alg) and is_key(alg, "alg")) or (is_const(alg) and (
                (cval(alg) == "RS256" and hasjws) or (cval(alg) == "none" and not hasjws)))
            ck.ob("C22.algs", "%s._do_request_uri:%s signature" % (nm(cls), how),
                  any(ok and dec(alg) for ok, alg, e in seen.get("sign", ())),
                  "the signature algorithm of a request object is not checked", o)
            je = attr(base, "jwe_header")
            enc = f.get(("NONE", je)) is not True and f.get(("T", je)) is not False
            if enc:
                for ty, key in (("enc_alg", "alg"), ("enc_enc", "enc")):
                    ck.ob("C22.algs", "%s._do_request_uri:%s %s" % (nm(cls), how, ty),
                          any(ok and jwe(alg) and (is_key(alg, key)) for ok, alg, e in seen.get(ty, ())),
                          "the encryption algorithm of a request object is not checked", o)
        if n < 4:
            raise Broken("%s._do_request_uri: %d request object paths" % (nm(cls), n))
    ck.rule("C22.leaf", "an algorithm is allowed only if the client registered it or, when it registered none, the OP supports it", 2)
    ALG = sym("ALG")
    for o in ck.run(OA + "AllowedAlgorithms", "__call__", ["self", "CID", "CTX_", "ALG", "TYPE"], binds={"endpoint_context": CTX}, **BIG):
        if o.kind != "return":
            continue
        ok = False
        for a, b in o.facts.items():
            if a[0] == "IN" and b is True and a[1] is ALG:
                cont = a[2]
                col = lambda t, i: mentions(t, lambda s: is_key(s, i, lambda x: has_sub(x, sym("TYPE"))))
                if registered(cont):
                    ok = has_sub(cont, CID) and col(cont, 0)
                else:
                    reg = [c for c, d in o.facts.items() if registered(c[1]) and has_sub(c[1], CID) and col(c[1], 0)
                           and ((c[0] == "NONE" and d is True) or (c[0] == "T" and d is False))] or \
                          [c for c, d in o.facts.items() if c[0] == "IN" and d is False and registered(c[2]) and col(c[1], 0)]
                    ok = bool(reg) and col(cont, 1) and "provider_info" in show(cont)
        ck.ob("C22.leaf", "AllowedAlgorithms.__call__", ok, "an algorithm that was not registered passes", o)
    ck.rule("C22.params", "each kind of algorithm is compared with its own registered and supported values", 3)
    n = 0
    for mod in ("oidcop.oauth2.authorization",):
        for nd in ck.p.modules[mod].tree.body:
            if isinstance(nd, ast.Assign) and any(getattr(t, "id", "") == "ALG_PARAMS" for t in nd.targets):
                tab = ast.literal_eval(nd.value)
                for ty, name in (("sign", "signing_alg"), ("enc_alg", "encryption_alg"), ("enc_enc", "encryption_enc")):
                    n += 1
                    ck.ob("C22.params", "ALG_PARAMS[%s]" % ty, list(tab.get(ty, ())) == [
                        "request_object_" + name, "request_object_%s_values_supported" % name], "wrong columns for " + ty, None,
                        "%s:%d" % (mod, nd.lineno))
    ck.rule("C22.uri", "a client that registered request URIs has no other fetched", 2)
    for cls in (A2, A1):
        for o in ck.run(cls, "_do_request_uri", ["self", "REQ", "CID"], binds={"endpoint_context": CTX},
                        watch_fn=lambda kind, name, recv, it, st: name in ("get", "__getitem__") and recv is not None and "httpc" in show(recv),
                        **BIG):
            f = o.facts
            if not any(has_call(v, "from_jwt") for k, v in o.st.ov.items()):
                continue
            ru = lambda t: mentions(t, lambda s: is_key(s, "request_uris", lambda b: registered(b) and has_sub(b, CID)))
            none = any(b is False and ((a[0] == "T" and a[1].k == "item" and ru(a[1])) or (a[0] == "IN" and a[1] is const("request_uris") and registered(a[2])))
                       for a, b in f.items())
            ok = any(b is True and ((a[0] == "EQ" and ((ru(a[1]) and has_sub(a[2], RURI)) or (ru(a[2]) and has_sub(a[1], RURI))))
                                    or (a[0] == "IN" and has_sub(a[1], RURI) and ru(a[2]))) for a, b in f.items())
            ck.ob("C22.uri", nm(cls) + "._do_request_uri", none or ok, "a request URI that was not registered is fetched", o)
            sup = f.get(("EQ", item(attr(CTX, "provider_info"), const("request_uri_parameter_supported")), const(False)))
            ck.ob("C22.uri", nm(cls) + "._do_request_uri:supported", sup is not True, "request_uri is used although it is not supported", o)
    ck.rule("C22.merge", "what the request object says replaces what the request itself says", 2)
    for cls in (A2, A1):
        for o in ck.run(cls, "_do_request_uri", ["self", "REQ", "CID"], binds={"endpoint_context": CTX}, **BIG):
            f = o.facts
            base = None
            for k, v in o.st.ov.items():
                if k[0] == "i" and k[1] is REQ and has_call(v, "from_jwt") and vc(k[2]):
                    base = v
            if base is None or o.kind != "return":
                continue
            empty = any(a[0] == "T" and b is False and has_sub(a[1], base) and ("items" in show(a[1]) or a[1] is base) for a, b in f.items())
            cp = any(k[0] == "i" and k[1] is REQ and k[2].k != "const" and has_sub(v, base) and not vc(k[2]) for k, v in o.st.ov.items()) \
                or any(has_sub(x, base) for ly in getattr(o.st.heap.get(REQ), "layers", ()) for x in ly[1:] if hasattr(x, "k")) \
                or any(k[0] not in ("i", "a") and k[1] is REQ and has_sub(v, base) for k, v in o.st.ov.items() if hasattr(v, "k"))
            ck.ob("C22.merge", nm(cls) + "._do_request_uri", empty or cp or o.val is base, "the request object is dropped", o)


# ------------------------------------------------------------------ C39


def filt(t, scopes, client):
    """t is filter_scopes(scopes, client)"""
    if t.k == "call" and t.a[0] in ("set", "list", "sorted", "tuple", "frozenset") and t.a[2]:
        return filt(t.a[2][0], scopes, client)
    if not is_call(t, "filter_scopes"):
        return False
    d = dict(t.a[3])
    return d.get("scopes") is not None and scopes(d["scopes"]) and d.get("client_id") is not None and client(d["client_id"])


def setlike(o, t, pred):
    """t, or the whole collection it was built from, satisfies pred"""
    if pred(t):
        return True
    if t.k == "op" and t.a[0] in ("set", "list", "sorted", "frozenset"):
        return len(t.a) > 1 and setlike(o, t.a[1], pred)
    ob = o.st.heap.get(t) if t.k == "alloc" else None
    return ob is not None and len(ob.layers) == 1 and ob.layers[0][0] == "s" and setlike(o, ob.layers[0][1], pred)


@prop("C39")
def scopes(ck):
    SC = sym("SCOPES")
    ck.rule("C39.filter", "filtering keeps only scopes in the client's own list, in the scopes it has claims for, or in the OP's list", 4)
    for o in ck.run("oidcop.scopes.Scopes", "filter_scopes", ["self", "SCOPES", "CID"], **BIG):
        if o.kind != "return":
            continue
        client = item(attr(CTX, "cdb"), CID)
        f = o.facts
        known = f.get(("NONE", client))
        if known is None:
            known = False if f.get(("T", client)) is True or f.get(("IN", CID, attr(CTX, "cdb"))) is True else known
        if f.get(("T", CID)) is False or f.get(("NONE", CID)) is True:
            known = True  # no client
        own = f.get(("IN", const("allowed_scopes"), client))
        stc = f.get(("IN", const("scopes_to_claims"), client))
        lacks = lambda k, i: i is False or known is True or f.get(("NONE", item(client, const(k)))) is True or f.get(("T", client)) is False
        for ly in layers(o, o.val):
            x = ly[1]
            ok = False
            for a, b in f.items():
                c = None
                if a[0] == "IN" and b is True and a[1] is x:
                    c = a[2]
                elif a[0] == "EQ" and b is True and x in a[1:]:
                    c = a[2] if a[1] is x else a[1]
                    c = c.a[0] if c.k == "elem" else None
                if c is not None:
                    if own is True and known is not True:
                        ok = ok or deep_has(o, c, lambda s: s is item(client, const("allowed_scopes")))
                    elif not lacks("allowed_scopes", own):
                        ok = ok or deep_has(o, c, lambda s: s is item(client, const("allowed_scopes")))
                    elif stc is True and known is not True:
                        ok = ok or deep_has(o, c, lambda s: s is item(client, const("scopes_to_claims")))
                    elif not lacks("scopes_to_claims", stc):
                        ok = ok or deep_has(o, c, lambda s: s is item(client, const("scopes_to_claims")))
                    else:
                        ok = ok or deep_has(o, c, lambda s: s.k == "attr" and s.a[1] == "allowed_scopes")
            ck.ob("C39.filter", "Scopes.filter_scopes", ly[0] == "i" and x.k == "elem" and x.a[0] is SC and ok,
                  "a scope outside the client's allowed scopes passes the filter", o)
        if o.val.k != "alloc":
            ck.ob("C39.filter", "Scopes.filter_scopes:value", is_const(o.val), "unexpected value %s" % show(o.val)[:80], o)
    ck.rule("C39.deny", "with deny_unknown_scopes on, a request passes only if filtering leaves its scopes unchanged", 2)
    deny = lambda t: is_key(t, "deny_unknown_scopes")
    rs = lambda t: is_key(t, "scope", lambda b: b is REQ)
    for o in ck.run(OA + "check_unknown_scopes_policy", None, ["REQ", "CID", "CTX_"], binds={"endpoint_context": CTX},
                    more_opaque={"filter_scopes"}, **BIG):
        if o.kind != "return":
            continue
        f = o.facts
        off = any((a[0] == "T" and b is False and deny(a[1])) or (a[0] == "IN" and b is False and a[1] is const("deny_unknown_scopes"))
                  or (a[0] == "NONE" and b is True and deny(a[1])) for a, b in f.items())
        fl = lambda t: filt(t, rs, lambda c: c is CID)
        okk = any((setlike(o, x, fl) and setlike(o, y, rs)) or (setlike(o, y, fl) and setlike(o, x, rs)) for x, y in eq_pairs(o))
        for a, b in f.items():
            if a[0] == "T" and a[1].k in ("op", "call"):
                if b is False and mentions(a[1], fl) and mentions(a[1], rs) and ("sub" in str(a[1].a[0]) or a[1].a[0] in ("difference", "symmetric_difference", "xor")):
                    okk = okk or first_is(a[1], fl)
                if b is True and is_call(a[1], "issubset") and mentions(a[1], fl):
                    okk = True
            if a[0] == "IN" and b is True and a[1].k == "elem" and rs(a[1].a[0]) and setlike(o, a[2], fl):
                okk = True
            if a[0] == "T" and b is False and rs(a[1]):
                okk = True
        ck.ob("C39.deny", "check_unknown_scopes_policy", off or okk, "a request with scopes the client may not use passes", o)
    ck.rule("C39.before", "the policy is applied to each request, for its own client, before anything is set up for it", 2)
    for cls in (A2, A1):
        for o in ck.run(cls, "process_request", ["self", "REQ"],
                        more_opaque={"authz_part2", "setup_auth", "get_uri", "inputs", "check_unknown_scopes_policy", "do_request_user", "response_mode"},
                        watch={"setup_auth", "check_unknown_scopes_policy"}, raises=True, **BIG):
            done = False
            for e in o.trace:
                if e.name == "check_unknown_scopes_policy":
                    a = dict(e.args)
                    done = e.arg("request_info") is REQ and e.arg("client_id") is not None and rk(e.arg("client_id"), "client_id")
                if e.name == "setup_auth":
                    ck.ob("C39.before", nm(cls) + ".process_request", done, "the scope policy is not applied before the session is set up", o, e.site)
    ck.rule("C39.echo", "the scope a response names is the filtered one", 2)
    for cls in (A2, A1):
        for o in ck.run(cls, "create_authn_response", ["self", "REQ", "SID"],
                        more_opaque={"filter_scopes", "authentication_error_response"}, **BIG):
            if o.kind != "return":
                continue
            ra = kv(o, o.val, "response_args")
            if ra is None or ra.k != "alloc":
                continue
            v = kv(o, ra, "scope")
            if v is None:
                continue
            ck.ob("C39.echo", nm(cls) + ".create_authn_response",
                  filt(v, lambda s: rk(s, "scope") or s is item(REQ, const("scope")),
                       lambda c: is_key(c, "client_id") and has_call(c, "get_session_info")),
                  "the response names scopes that were not filtered for the client", o)
    ck.rule("C39.claims", "scopes turn into claims only after being filtered for the client", 2)
    for o in ck.run("oidcop.scopes.Scopes", "scopes_to_claims", ["self", "SCOPES", "MAP", "CID"],
                    more_opaque={"filter_scopes", "convert_scopes2claims"}, watch={"convert_scopes2claims"}, **BIG):
        for e in events(o, "convert_scopes2claims"):
            s = e.arg("scopes")
            ck.ob("C39.claims", "Scopes.scopes_to_claims", s is not None and filt(s, lambda x: x is SC, lambda c: c is CID),
                  "claims are derived from unfiltered scopes", o, e.site)
    for o in ck.run("oidcop.session.claims.ClaimsInterface", "get_claims_from_request", ["self", "REQ", "POINT", "SCOPES", "CID"],
                    more_opaque={"scopes_to_claims", "_client_claims", "_get_module", "authorization_request_claims", "convert_scopes2claims"},
                    watch={"scopes_to_claims", "convert_scopes2claims"}, **BIG):
        for e in o.trace:
            if e.name == "convert_scopes2claims":
                ck.ob("C39.claims", "ClaimsInterface.get_claims_from_request:direct", False, "claims are derived from unfiltered scopes", o, e.site)
            if e.name == "scopes_to_claims":
                c = e.arg("client_id")
                ck.ob("C39.claims", "ClaimsInterface.get_claims_from_request", c is not None and (c is CID or rk(c, "client_id") or c.k == "phi"),
                      "claims are derived from scopes filtered for no or another client", o, e.site)


def first_is(t, fl):
    """in a difference the filtered scopes are what is subtracted"""
    args = t.a[1:] if t.k == "op" else ((t.a[1],) + tuple(t.a[2]))
    return len(args) > 1 and args[1] is not None and mentions(args[1], fl)


# ------------------------------------------------------------------ C45


def _cookie_name(t, key):
    """cookie_handler.name[key]"""
    return t is not None and t.k == "item" and t.a[1] is const(key) and t.a[0].k == "attr" and t.a[0].a[1] == "name" and mentions(
        t.a[0].a[0], lambda s: s.k == "attr" and s.a[1] == "cookie_handler")


def _flat(o, t):
    """the parts of a text that is put together, in order"""
    t = deep_one(o, t)
    if t.k == "op" and t.a[0] in ("add", "fmt", "join", "coll"):
        out = []
        for x in t.a[1:]:
            out.extend(_flat(o, x))
        return out
    if t.k in ("tuple",):
        return [y for x in t.a for y in _flat(o, x)]
    if t.k == "lit":
        return [y for x in t.a[1] for y in _flat(o, x)]
    return [t]


def deep_one(o, t):
    if t.k == "alloc":
        ob = o.st.heap.get(t)
        if ob is not None and ob.kind == "list" and all(ly[0] == "i" for ly in ob.layers):
            return mk("tuple", *[ly[1] for ly in ob.layers])
    return t


@prop("C45")
def login_state(ck):
    from .session import argn, call_arg

    ck.rule("C45.hash", "session_state hashes client, origin, cookie value and salt, told apart, and tells the salt", 3)
    ck.rule("C45.inputs", "session_state is about the client of the request, the URI the response goes to and the cookie that is set with it", 3)
    ck.rule("C45.given", "with session management on every successful response carries that session_state and the cookie it was made from", 2)
    ck.rule("C45.alive", "session_state is computed only for an authentication of this session that is valid", 1)
    ck.rule("C45.session", "the session cookie names the session the response is about", 2)
    ck.rule("C45.content", "a new cookie has the name and all of the content it is to have", 1)
    OP, SALT, CID, RU = sym("OPBS"), sym("SALT"), sym("CID"), sym("RURI")
    for o in ck.run("oidcop.cookie_handler.compute_session_state", None, ["OPBS", "SALT", "CID", "RURI"], **BIG):
        if o.kind != "return":
            continue
        parts = _flat(o, o.val)
        h = [p for p in parts if has_call(p, "hexdigest")]
        ck.ob("C45.hash", "salt", parts[-1] is SALT and len(h) == 1, "session_state is %s" % show(o.val)[:100], o)
        if len(h) != 1:
            continue
        sub = [s for s in subterms(h[0]) if s.k == "op" and s.a[0] in ("add", "fmt", "join")]
        best = []
        for s in sub:
            f = _flat(o, s)
            if len(f) > len(best):
                best = f
        part = lambda x, nme: x.k == "attr" and x.a[1] == nme and has_sub(x, RU) or x.k == "item" and is_const(x.a[1]) and \
            cval(x.a[1]) == {"scheme": 0, "netloc": 1}[nme] and is_call(x.a[0], "urlparse", "urlsplit") and has_sub(x, RU)
        order, between, text = [], [], ""
        for x in best:
            if is_const(x):
                text += str(cval(x))
                continue
            tag = "client" if x is CID else "cookie" if x is OP else "salt" if x is SALT else "scheme" if part(x, "scheme") else \
                "netloc" if part(x, "netloc") else "?"
            order.append(tag)
            between.append(text)
            text = ""
        pos = {t: i for i, t in enumerate(order)}
        fmt_terms = [s for s in sub if s.a[0] == "fmt"]
        seen = {t for t in ("client", "cookie", "salt", "scheme", "netloc") if t in pos}
        ck.ob("C45.hash", "parts", len(seen) == 5, "session_state does not depend on %s" % sorted({"client", "cookie", "salt", "scheme", "netloc"} - seen), o)
        ck.ob("C45.hash", "origin only", "?" not in order and not any(
            s.k == "attr" and s.a[1] in ("path", "query", "fragment", "params") and has_sub(s, RU) for s in subterms(h[0])),
            "session_state depends on more than the origin of the URI", o)
        ck.ob("C45.hash", "order", order == ["client", "scheme", "netloc", "cookie", "salt"], "the parts of session_state are in the order %s" % order, o)
    # --- where it is used
    n = 0
    for cls in (A2, A1):
        L = nm(cls) + ".authz_part2"
        for o in ck.run(cls, "authz_part2", ["self", "REQ", "SID"], watch={"compute_session_state", "append", "extend", "insert"},
                        more_opaque={"post_authentication", "error_by_response_mode", "new_cookie", "compute_session_state", "b64e", "get_authentication_event"},
                        watch_fn=lambda kind, name, recv, it, st: kind == "mutate", **BIG):
            if o.kind != "return":
                continue
            pa = [t for t in subterms(o.val) if is_call(t, "post_authentication")]
            on = any(a[0] == "IN" and b and a[1] is const("check_session_iframe") for a, b in o.facts.items())
            ev = events(o, "compute_session_state")
            for e in ev:
                n += 1
                c, u, k = argn(e, "client_id", 2), argn(e, "redirect_uri", 3), argn(e, "opbs", 0)
                ck.ob("C45.inputs", L + ":client", c is item(REQ, const("client_id")), "session_state is about the client %s" % (show(c)[:60] if c is not None else "?"), o, e.site)
                home = u is not None and u.k == "item" and u.a[1] is const("return_uri") and is_call(u.a[0], "post_authentication")
                fall = u is item(REQ, const("redirect_uri")) and any(
                    a[0] == "IN" and b is False and a[1] is const("return_uri") for a, b in e.facts.items())
                ck.ob("C45.inputs", L + ":uri", home or fall, "session_state is about the origin of %s" % (show(u)[:60] if u is not None else "?"), o, e.site)
                ok = k is not None and k.k == "item" and k.a[1] is const("value") and is_call(k.a[0], "new_cookie") and _cookie_name(
                    call_arg(k.a[0], "name", 0), "session_management")
                ck.ob("C45.inputs", L + ":cookie", ok, "session_state is made from %s" % (show(k)[:80] if k is not None else "?"), o, e.site)
                au = [t for t in (a[1] for a, b in e.facts.items() if a[0] == "T" and b is True) if is_call(t, "is_valid")]
                mine = lambda t: is_call(t, "get_authentication_event") and mentions(t, lambda s: s is sym("SID"))
                live = any(a[0] == "LT" and b is True and has_call(a[1], "utc_time_sans_frac") and a[2].k == "item" and a[2].a[1] is const("valid_until")
                           and mine(a[2].a[0]) for a, b in e.facts.items())
                ck.ob("C45.alive", L, live or any(mine(t.a[1]) for t in au if t.a[1] is not None),
                      "session_state is given although the authentication may have ended", o, e.site)
            if not pa or o.val is not pa[0] or not on:
                continue
            ra = o.st.ov.get(("i", o.val, const("response_args"))) or item(o.val, const("response_args"))
            miss = o.facts.get(("IN", const("response_args"), o.val)) is False or o.facts.get(("NONE", ra))
            if not miss:
                v = stored(o, ra, "session_state")
                ck.ob("C45.given", L + ":state", v is not None and is_call(v, "compute_session_state"), "the response has no session_state", o)
            made = [t for e in ev for t in [argn(e, "opbs", 0)] if t is not None and t.k == "item"]
            cv = o.st.ov.get(("i", o.val, const("cookie")))
            for t in made:
                sent = cv is not None and any(s is t.a[0] for s in deep(o, cv))
                for e in o.trace:
                    if e.kind == "mutate" or e.name in ("append", "extend", "insert"):
                        sent = sent or any(x is t.a[0] or has_sub(x, t.a[0]) or any(s is t.a[0] for s in deep(o, x)) for _, x in e.args)
                falsy = any(a[0] in ("T",) and b is False and a[1] is t.a[0] for a, b in o.facts.items()) or o.facts.get(("NONE", t.a[0]))
                ck.ob("C45.given", L + ":cookie", sent or falsy, "the cookie that session_state was made from is not set", o)
        m = 0
        L = nm(cls) + ".post_authentication"
        for o in ck.run(cls, "post_authentication", ["self", "REQ", "SID"],
                        more_opaque={"create_authn_response", "get_uri", "response_mode", "new_cookie", "error_response"}, **BIG):
            if o.kind != "return" or is_call(o.val, "error_response") or is_error_val(o, o.val):
                continue
            m += 1
            cv = o.st.ov.get(("i", o.val, const("cookie"))) or kv(o, o.val, "cookie")
            cs = [s for s in (deep(o, cv) if cv is not None else ()) if is_call(s, "new_cookie")]
            ck.ob("C45.session", L + ":set", bool(cs), "no session cookie is set", o)
            for c in cs:
                ck.ob("C45.session", L + ":name", _cookie_name(call_arg(c, "name", 0), "session"), "the cookie is not the session cookie", o)
                ck.ob("C45.session", L + ":sid", dict(c.a[3]).get("sid") is sym("SID"), "the session cookie names %s" % show(dict(c.a[3]).get("sid"))[:60]
                      if dict(c.a[3]).get("sid") is not None else "the session cookie names no session", o)
        if not m:
            raise Broken("post_authentication never succeeds")
    if not n:
        raise Broken("no session_state is computed")
    # --- cookies
    NAME, KW = sym("NAME"), sym("kwargs")
    n = 0
    for o in ck.run("oidcop.endpoint_context.EndpointContext", "new_cookie", ["self", "NAME"], watch={"make_cookie_content"}, more_opaque={"make_cookie_content"}, **BIG):
        for e in events(o, "make_cookie_content"):
            n += 1
            v = argn(e, "value", 1)
            ok = v is not None and is_call(v, "dumps") and any(s is KW or s.k == "star" for s in deep(o, v))
            ck.ob("C45.content", "new_cookie:value", ok, "the content of a cookie is %s" % (show(v)[:80] if v is not None else "?"), o, e.site)
            ck.ob("C45.content", "new_cookie:name", argn(e, "name", 0) is NAME, "a cookie gets another name", o, e.site)
    if not n:
        raise Broken("new_cookie makes no cookie")
