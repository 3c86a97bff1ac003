"""Client authentication: who a request is processed for, secrets, assertions."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop
from .authz import BIG
from .authz import CID
from .authz import now
from .authz import registered

CA = "oidcop.client_authn."
EP = "oidcop.endpoint.Endpoint"
METHODS = lambda t: t.k == "attr" and t.a[1] == "client_authn_method"


def argv(e, *names):
    for n in names:
        if e.arg(n) is not None:
            return e.arg(n)
    return None


def same_secret(o, stored, presented):
    """a comparison of the stored and the presented value came out equal"""
    for x, y in eq_pairs(o):
        for a, b in ((x, y), (y, x)):
            if stored(a) and presented(b):
                return a, b
    for a, b in o.facts.items():
        if a[0] == "T" and b is True and a[1].k == "call" and a[1].a[0] == "compare_digest":
            xs = [v for _, v in a[1].a[3]] or list(a[1].a[2])
            for p in xs:
                for q in xs:
                    pp, qq = strip(p), strip(q)
                    if stored(pp) and presented(qq):
                        return pp, qq
    return None


def strip(t):
    while is_call(t, "as_bytes", "as_unicode", "encode", "decode", "str", "bytes") and (t.a[1] is not None or t.a[2] or t.a[3]):
        if t.a[2]:
            t = t.a[2][0]
        elif t.a[3]:
            t = t.a[3][0][1]
        else:
            t = t.a[1]
    return t


def there(o, t):
    """t is known to be present, a comparison with it is not None == None"""
    f = o.facts
    return f.get(("T", t)) is True or f.get(("NONE", t)) is False or (t.k == "item" and f.get(("IN", t.a[1], t.a[0])) is True)


# ------------------------------------------------------------------ C17


def expiry_ok(o, c):
    ci = item(attr(CTX, "cdb"), c)
    E = "client_secret_expires_at"
    e = item(ci, const(E))
    f = o.facts
    if f.get(("IN", const(E), ci)) is False or f.get(("T", e)) is False:
        return True
    for a, b in f.items():
        if a[0] == "LT" and a[1] is e and b is False and now(a[2]):
            return True
        if a[0] == "LT" and a[2] is e and b is True and now(a[1]):
            return True
        if a[0] == "VAL" and a[1] is e and not cval(b):
            return True
        if a[0] == "EQ" and b is True and e in a[1:] and const(0) in a[1:]:
            return True
        if a[0] == "T" and b is True and is_call(a[1], "valid_client_info") and has_sub(a[1], ci):
            return True
    return False


@prop("C17")
def gate(ck):
    AKA = sym("AKA")
    ck.rule("C17.who", "the client a request is processed for was established by a method that verified the request, by the access token, or by 'none'", 20)
    ck.rule("C17.known", "an established client is a known one whose secret has not expired", 10)
    ck.rule("C17.method", "only a configured method that is usable contributes", 10)
    outs = ck.run(CA + "verify_client", None, [None, "REQ", "HTTP", "FROMTOKEN", "ENDP", "AKA"],
                  binds={"endpoint_context": CTX}, watch={"verify"}, **BIG)
    for o in outs:
        if o.kind != "return":
            continue
        f = o.facts
        V = None
        for e in events(o, "verify"):
            r = e.recv
            if r is None:
                continue
            ok = mentions(r, METHODS) and r.k == "elem" and (e.facts.get(("NONE", r)) is False or e.facts.get(("T", r)) is True)
            us = any(a[0] == "T" and b is True and is_call(a[1], "is_usable") and a[1].a[1] is r for a, b in e.facts.items())
            ck.ob("C17.method", "verify_client:method", ok, "something that is not a configured method authenticates clients", o, e.site)
            ck.ob("C17.method", "verify_client:usable", us, "a method is used that is not usable for the request", o, e.site)
            rq = argv(e, "request")
            ck.ob("C17.method", "verify_client:request", rq is REQ and e.arg("client_id") is None,
                  "a method verifies something else than the request", o, e.site)
        v = o.val
        c = None
        if v.k == "alloc":
            c = kv(o, v, "client_id")
            src = [ly[1] for ly in layers(o, v) if ly[0] == "s"]
            if c is None and src:
                c = item(src[0], const("client_id"))
        else:
            for k, w in o.st.ov.items():
                if k[0] == "i" and k[1] is v and k[2] is const("client_id"):
                    c = w
            if c is None:
                c = item(v, const("client_id"))
        if v.k == "call" and f.get(("T", v)) is False:
            ck.ob("C17.who", "verify_client:empty", True)
            continue
        if c is None or (is_const(c) and not cval(c)):
            ck.ob("C17.who", "verify_client:nobody", True)
            continue
        base = c
        if base.k == "item" and base.a[0] is AKA:
            base = base.a[1]
        ver = lambda t: t.k == "item" and t.a[1] is const("client_id") and is_call(t.a[0], "verify") and mentions(t.a[0], METHODS)
        none = any(a[0] == "IN" and b is True and a[1] is const(None) and METHODS(a[2]) for a, b in f.items()) or any(
            a[0] == "NONE" and b is True and a[1].k == "elem" and mentions(a[1], METHODS) for a, b in f.items())
        tok = lambda t: t.k == "call" and mentions(t, lambda s: s is sym("FROMTOKEN")) or is_call(t, "get_client_id_from_token", "FROMTOKEN")
        ok = ver(base) or (none and is_key(base, "client_id", lambda b: b is REQ)) or tok(base)
        ck.ob("C17.who", "verify_client:client", ok, "the client is %s, which nothing established" % show(base)[:120], o)
        if tok(base):
            tk = [x for _, x in base.a[3]] + list(base.a[2])
            ck.ob("C17.who", "verify_client:token",
                  any(mentions(x, lambda s: s.k == "item" and s.a[1] is const("token") and is_call(s.a[0], "verify")) for x in tk),
                  "the client is looked up by a token no method returned", o)
            continue
        absent = any((a[0] == "T" and b is False and a[1] is c) or (a[0] == "NONE" and b is True and a[1] is c)
                     or (a[0] == "IN" and b is False and a[1] is const("client_id") and c.k == "item" and a[2] is c.a[0]) for a, b in f.items())
        if absent:
            continue
        ci = item(attr(CTX, "cdb"), c)
        known = any((a[0] == "IN" and b is True and a[1] is c and registered(a[2])) or (a[0] == "T" and b is True and a[1] is ci)
                    or (a[0] == "NONE" and b is False and a[1] is ci) for a, b in f.items())
        ck.ob("C17.known", "verify_client:known", known, "a client that is not registered gets through", o)
        ck.ob("C17.known", "verify_client:expired", expiry_ok(o, c), "a client whose secret has expired gets through", o)

    ck.rule("C17.gate", "where methods are configured, a request nothing verified does not get past client_authentication", 2)
    for o in ck.run(EP, "client_authentication", ["self", "REQ", "HTTP"], more_opaque={"verify_client"}, watch={"verify_client"}, **BIG):
        if o.kind != "return":
            continue
        f = o.facts
        es = events(o, "verify_client")
        R = o.val
        ck.ob("C17.gate", "Endpoint.client_authentication:result", is_call(R, "verify_client"), "not what the verification said is returned", o)
        nomethods = any(a[0] == "T" and b is False and METHODS(a[1]) for a, b in f.items()) or any(
            a[0] == "EQ" and b is True and any(is_call(x, "len") and mentions(x, METHODS) for x in a[1:]) for a, b in f.items())
        okr = f.get(("T", R)) is True or any(a[0] == "EQ" and b is False and R in a[1:] for a, b in f.items())
        ck.ob("C17.gate", "Endpoint.client_authentication", okr or nomethods, "an unauthenticated request is let through", o)
        for e in es:
            ck.ob("C17.gate", "Endpoint.client_authentication:args",
                  argv(e, "request") is REQ and argv(e, "endpoint_context") is CTX and argv(e, "http_info") is sym("HTTP")
                  and e.arg("also_known_as") is None,
                  "something else than the request is verified", o, e.site)
            g = argv(e, "get_client_id_from_token")
            ck.ob("C17.gate", "Endpoint.client_authentication:token", g is not None and g.k == "attr" and g.a[0] is SELF,
                  "the endpoint's token lookup is not used", o, e.site)

    ck.rule("C17.parse", "every endpoint authenticates the client before anything else is done with a request, and goes on as that client", 6)
    for q, ci in sorted(ck.p.classes.items()):
        if "parse_request" not in ci.methods or not ck.p.is_sub(q, EP):
            continue
        label = nm_(q)
        outs = ck.run(q, "parse_request", ["self", "REQ", "HTTP"],
                      more_opaque={"client_authentication", "do_post_parse_request", "process_verify_error"},
                      watch={"client_authentication", "do_post_parse_request", "verify"}, **BIG)
        for o in outs:
            if o.kind != "return" or is_error_val(o, o.val) or is_call(o.val, "process_verify_error"):
                continue
            es = events(o, "client_authentication")
            ck.ob("C17.parse", label + ".parse_request", bool(es), "a request is let through without client authentication", o)
            if not es:
                continue
            A = [t for t in find_calls(o, "client_authentication")]
            done = False
            for e in o.trace:
                if e.name == "client_authentication":
                    done = True
                if e.name in ("do_post_parse_request",):
                    ck.ob("C17.parse", label + ".parse_request:order", done, "the request is handled before the client is authenticated", o, e.site)
            if o.val.k == "call" and o.val.a[0] == "client_authentication":
                continue
            cl = authn_client(o)
            for e in events(o, "do_post_parse_request"):
                req, cid = argv(e, "request"), argv(e, "client_id")
                if authn_has(o, e):
                    ck.ob("C17.parse", label + ".parse_request:client", cid is not None and cl(cid),
                          "the request is handled for %s instead of the authenticated client" % show(cid)[:80], o, e.site)
                    ck.ob("C17.parse", label + ".parse_request:request",
                          req is not None and any(cl(w) for w in written(o, req, "client_id")),
                          "the request does not carry the authenticated client", o, e.site)
            if not events(o, "do_post_parse_request"):
                got = any(b is False and a[0] == "T" and is_call(a[1], "client_authentication") for a, b in o.facts.items())
                if not got:
                    ws = [w for k, w in o.st.ov.items() if k[0] == "i" and k[2] is const("client_id")]
                    for ob in o.st.heap.values():
                        ws += [ly[2] for ly in ob.layers if ly[0] == "kv" and ly[1] is const("client_id")]
                    ck.ob("C17.parse", label + ".parse_request:request", any(cl(w) for w in ws),
                          "the request does not carry the authenticated client", o)


def nm_(q):
    return ".".join(q.split(".")[-3:])


def find_calls(o, name):
    for a in o.facts:
        for x in a[1:]:
            for s in subterms(x):
                if is_call(s, name):
                    yield s


def authn_client(o):
    return lambda t: t.k == "item" and t.a[1] is const("client_id") and is_call(t.a[0], "client_authentication")


def authn_has(o, e):
    return not any(a[0] == "IN" and b is False and a[1] is const("client_id") and is_call(a[2], "client_authentication")
                   for a, b in e.facts.items())


def written(o, t, key):
    out = []
    v = kv(o, t, key)
    if v is not None:
        out.append(v)
    for k, w in o.st.ov.items():
        if k[0] == "i" and k[1] is t and k[2] is const(key):
            out.append(w)
    return out


# ------------------------------------------------------------------ C18


@prop("C18")
def secrets(ck):
    TOK = sym("AUTHZ")
    ck.rule("C18.basic", "HTTP Basic authenticates a client only by that client's own secret", 1)
    ck.rule("C18.post", "client_secret_post authenticates a client only by that client's own secret", 1)
    ck.rule("C18.bearer", "a bearer token is passed on as presented, and names no client by itself", 2)
    for name, par, clause in (("ClientSecretBasic", ["self", "AUTHZ"], "C18.basic"), ("ClientSecretPost", ["self", "REQ"], "C18.post")):
        outs = ck.run(CA + name, "verify", par, more_opaque={"basic_authn"}, **BIG)
        for o in outs:
            if o.kind != "return":
                continue
            X = kv(o, o.val, "client_id") if o.val.k == "alloc" else None
            if X is None:
                ck.ob(clause, name + ".verify", is_const(o.val) and not cval(o.val) or (o.val.k == "alloc" and not layers(o, o.val)),
                      "unexpected result", o)
                continue
            if clause == "C18.basic":
                def pres(t):
                    t = strip(t)
                    if t.k == "item" and is_call(t.a[0], "basic_authn"):
                        return t.a[1] is const("secret")
                    return has_sub(t, TOK) and not registered(t) and t is not X

                who = (lambda t: t.a[1] is const("id") if t.k == "item" and is_call(t.a[0], "basic_authn") else has_sub(t, TOK) and not registered(t))
            else:
                pres = lambda t: strip(t) is item(REQ, const("client_secret"))
                who = lambda t: t is item(REQ, const("client_id"))
            stored = lambda t: strip(t) is item(item(attr(CTX, "cdb"), X), const("client_secret"))
            hit = same_secret(o, stored, pres)
            ck.ob(clause, name + ".verify", hit is not None and (clause == "C18.basic" or any(there(o, strip(x)) for x in hit)),
                  "a client is authenticated without its secret", o)
            ck.ob(clause, name + ".verify:client", who(X), "another client than the presented one is authenticated", o)
    for o in ck.run(CA + "basic_authn", None, ["AUTHZ"], **BIG):
        if o.kind == "return":
            ck.ob("C18.basic", "basic_authn", any(a[0] == "T" and b is True and a[1].k == "call" and a[1].a[0] == "startswith"
                                                  and mentions(a[1], lambda s: s is TOK) and mentions(a[1], lambda s: is_const(s) and "Basic" in str(cval(s)))
                                                  for a, b in o.facts.items()),
                  "credentials are taken from an authorization header of another type", o)
    for name, par in (("BearerHeader", ["self", "AUTHZ"]), ("BearerBody", ["self", "REQ"])):
        for o in ck.run(CA + name, "verify", par, **BIG):
            if o.kind != "return":
                continue
            ok = o.val.k == "alloc" and all(ly[0] == "kv" and ly[1] in (const("token"), const("method")) for ly in layers(o, o.val))
            ck.ob("C18.bearer", name + ".verify", ok, "presenting a bearer token establishes %s" % show(kv(o, o.val, "client_id") or o.val)[:80], o)
            t = kv(o, o.val, "token")
            src = TOK if name == "BearerHeader" else item(REQ, const("access_token"))
            ck.ob("C18.bearer", name + ".verify:token", t is not None and has_sub(t, src) and not any(
                a[0] == "NONE" and b is True and a[1] is t for a, b in o.facts.items()), "the token is not the presented one", o)
    ck.rule("C18.lookup", "the client behind a bearer token is the one its session belongs to", 1)
    T_ = sym("TOK")
    for q, ci in sorted(ck.p.classes.items()):
        if "get_client_id_from_token" not in ci.methods:
            continue
        for o in ck.run(q, "get_client_id_from_token", ["self", None, "TOK", "REQ"], binds={"endpoint_context": CTX}, **BIG):
            if o.kind != "return":
                continue
            v = o.val
            ok = is_key(v, "client_id") and is_call(v.a[0], "get_session_info_by_token") and any(
                x is T_ for _, x in v.a[0].a[3])
            if is_const(v) and not cval(v):
                ok = True
            # the registration access token names the client it was issued for
            reg = lambda t: t is item(attr(CTX, "registration_access_token"), T_)
            ok = ok or reg(v) or (v is item(REQ, const("client_id")) and has_eq(o, lambda t: t is v, reg))
            ck.ob("C18.lookup", nm_(q) + ".get_client_id_from_token", ok, "the client is %s" % show(v)[:100], o)


# ------------------------------------------------------------------ C19


@prop("C19")
def assertions(ck):
    ck.rule("C19.signed", "an assertion or request object authenticates only if its signature was verified with the OP's key jar", 6)
    ck.rule("C19.iss", "the client it authenticates is its issuer", 6)
    ck.rule("C19.key", "client_secret_jwt accepts only MACs made with the client's secret, private_key_jwt never a MAC", 4)
    ck.rule("C19.aud", "an assertion counts only if it is addressed to this OP", 4)
    ck.rule("C19.jti", "an assertion with a jti is accepted once per issuer", 6)
    for name, arg in (("ClientSecretJWT", "client_assertion"), ("PrivateKeyJWT", "client_assertion"), ("RequestParam", "request")):
        outs = ck.run(CA + name, "verify", ["self", "REQ"], more_opaque={"allowed_target_uris"}, **BIG)
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            lab = name + ".verify"
            f = o.facts
            us = set()
            for a in f:
                for x in a[1:]:
                    if hasattr(x, "k"):
                        us |= {s for s in subterms(x) if is_call(s, "unpack")}
            c = kv(o, o.val, "client_id") if o.val.k == "alloc" else None
            if o.val.k == "alloc" and c is None:
                ck.ob("C19.iss", lab, True)
                continue
            n += 1
            J = None
            for u in us:
                r = u.a[1]
                if r is not None and r.k == "alloc" and (o.st.heap[r].cls or "").endswith("jwt.JWT"):
                    if any(x is item(REQ, const(arg)) for x in list(u.a[2]) + [y for _, y in u.a[3]]):
                        J = u
            if J is None:
                ck.ob("C19.signed", lab, False, "no assertion is unpacked", o)
                continue
            r = J.a[1]
            jar = [w for k, w in o.st.ov.items() if k[0] == "a" and k[1] is r and k[2] in ("key_jar", const("key_jar"))]
            ck.ob("C19.signed", lab + ":keys", any(mentions(w, lambda s: s is attr(CTX, "keyjar")) for w in jar), "the signature is verified with other keys", o)
            hdr = attr(J, "jws_header")
            ck.ob("C19.signed", lab, any(
                (a[0] == "T" and b is True and a[1] is hdr) or (a[0] == "NONE" and b is False and a[1] is hdr)
                or any(s.k == "item" and s.a[0] is hdr for x in a[1:] if hasattr(x, "k") for s in subterms(x))
                or (a[0] == "IN" and a[2] is hdr)
                for a, b in f.items()), "a JWT that is encrypted but not signed authenticates a client", o)
            iss = item(J, const("iss"))
            ck.ob("C19.iss", lab, c is not None and (c is iss or is_kwarg(c, "client_id")),
                  "the authenticated client is %s" % show(c)[:80], o)
            jti = item(J, const("jti"))
            used = [x for a, b in f.items() if a[0] == "IN" and b is False and (a[2] is attr(CTX, "jti_db")) for x in (a[1],)]
            nojti = f.get(("T", jti)) is False or f.get(("IN", const("jti"), J)) is False or f.get(("NONE", jti)) is True
            kept = any(k[0] == "i" and k[1] is attr(CTX, "jti_db") and k[2] in used for k in o.st.ov)
            ck.ob("C19.jti", lab, nojti or (kept and any(has_sub(x, jti) and has_sub(x, iss) for x in used)),
                  "an assertion can be used again", o)
            if name == "RequestParam":
                continue
            aud = item(J, const("aud"))
            mine = lambda t: mentions(t, lambda s: s is attr(CTX, "issuer") or is_call(s, "allowed_target_uris"))
            ok = False
            for a, b in f.items():
                if a[0] == "IN" and b is True and ((mine(a[1]) and has_sub(a[2], aud)) or (mine(a[2]) and has_sub(a[1], aud))):
                    ok = True
                if a[0] == "EQ" and b is True and ((mine(a[1]) and has_sub(a[2], aud)) or (mine(a[2]) and has_sub(a[1], aud))):
                    ok = True
                if a[0] == "T" and a[1].k in ("op", "call") and mine(a[1]) and has_sub(a[1], aud):
                    ok = ok or (b is True and ("intersection" in str(a[1].a[0]) or a[1].a[0] in ("and", "&")))
                    ok = ok or (b is False and "isdisjoint" in str(a[1].a[0]))
            ck.ob("C19.aud", lab, ok, "an assertion meant for somebody else is accepted", o)
            alg = item(hdr, const("alg"))
            hs = None
            for a, b in f.items():
                if a[0] == "T" and a[1].k == "call" and a[1].a[0] == "startswith" and has_sub(a[1], alg) and mentions(
                        a[1], lambda s: s is const("HS")):
                    hs = b
                if a[0] == "EQ" and a[1].k != "const" and has_sub(a[1], alg) and is_const(a[2]) and str(cval(a[2])).startswith("HS"):
                    hs = b if hs is None or b else hs
            if name == "PrivateKeyJWT":
                ck.ob("C19.key", lab, hs is not True, "private_key_jwt accepts a symmetric signature", o)
                ck.ob("C19.key", lab + ":looked", hs is False or f.get(("T", alg)) is False or f.get(("NONE", alg)) is True
                      or f.get(("IN", const("alg"), hdr)) is False,
                      "private_key_jwt does not look at the algorithm", o)
            else:
                ck.ob("C19.key", lab, hs is True, "client_secret_jwt accepts something else than a MAC", o)
                sec = item(item(attr(CTX, "cdb"), iss), const("client_secret"))
                nosec = f.get(("T", sec)) is False or f.get(("IN", const("client_secret"), sec.a[0])) is False or f.get(("NONE", sec)) is True
                stored = lambda t: strip(t) is sec
                key = lambda t: mentions(t, lambda s: s.k == "attr" and s.a[1] in ("key", "k"))
                ck.ob("C19.key", lab + ":secret", nosec or same_secret(o, stored, key) is not None,
                      "client_secret_jwt accepts a MAC not made with the client's secret", o)
        if n < 2:
            raise Broken("%s.verify: %d accepting paths" % (name, n))
    ck.rule("C19.targets", "the targets an endpoint accepts are the issuer and the OP's own endpoints", 1)
    for o in ck.run(EP, "allowed_target_uris", ["self"], **BIG):
        if o.kind != "return":
            continue
        for ly in all_layers(o, o.val):
            x = ly[-1]
            if not hasattr(x, "k"):
                continue
            ok = x is attr(CTX, "issuer") or (x.k == "attr" and x.a[1] == "full_path" and (has_call(x, "endpoint") or x.a[0] is SELF))
            ck.ob("C19.targets", "Endpoint.allowed_target_uris", ok, "%s is an accepted audience" % show(x)[:80], o)


def all_layers(o, v):
    v0 = v
    seen = []
    while v0.k == "op" and len(v0.a) > 1 and hasattr(v0.a[1], "k"):
        v0 = v0.a[1]
    if v0.k == "call" and v0.a[2]:
        v0 = v0.a[2][0]
    for ly in layers(o, v0):
        if ly[0] == "s" and ly[1].k == "alloc":
            seen += all_layers(o, ly[1])
        else:
            seen.append(ly)
    return seen


def is_kwarg(t, key):
    return t.k == "item" and t.a[1] is const(key) and t.a[0].k == "sym" and t.a[0] is not REQ
