"""Dynamic client registration and reading of registered information."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .claims import final, members, val
from .session import argn, call_arg, deep_has, _elems

REG = "oidcop.oidc.registration.Registration"
RD = "oidcop.oidc.read_registration.RegistrationRead"
MOD = "oidcop.oidc.registration"
BIG = dict(cap=400, widen=3000)
CDB = attr(CTX, "cdb")
RAT = attr(CTX, "registration_access_token")

# what a client may ask for -> what the provider publishes about it (OpenID Connect Registration/Discovery)
SUPPORTED = {
    "request_object_signing_alg": "request_object_signing_alg_values_supported",
    "request_object_encryption_alg": "request_object_encryption_alg_values_supported",
    "request_object_encryption_enc": "request_object_encryption_enc_values_supported",
    "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
    "userinfo_encrypted_response_alg": "userinfo_encryption_alg_values_supported",
    "userinfo_encrypted_response_enc": "userinfo_encryption_enc_values_supported",
    "id_token_signed_response_alg": "id_token_signing_alg_values_supported",
    "id_token_encrypted_response_alg": "id_token_encryption_alg_values_supported",
    "id_token_encrypted_response_enc": "id_token_encryption_enc_values_supported",
    "default_acr_values": "acr_values_supported",
    "subject_type": "subject_types_supported",
    "token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
    "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported",
    "response_types": "response_types_supported",
    "grant_types": "grant_types_supported",
}
ISSUED = ("client_id", "client_secret", "client_secret_expires_at", "client_id_issued_at", "client_salt", "registration_access_token",
          "registration_client_uri")
POLICY = ("add_claims", "allowed_scopes", "auth_method", "dpop_jkt", "grant_types_supported", "pkce_essential", "revoke_refresh_on_issue",
          "scopes_to_claims", "sector_id", "si_redirects", "token_usage_rules")


def key_of(o, t):
    """the constant a key is known to be"""
    if is_const(t):
        return cval(t)
    v = facts_of(o).get(("VAL", t))
    return cval(v) if v is not None and is_const(v) else None


def impossible(o, t):
    """t is an element of a known collection, but none of those in it"""
    ls = layers(o, t.a[0])
    return bool(ls) and all(l[0] in ("kv", "i") and is_const(l[1]) for l in ls) and none_of(o, lambda x: x is t, {cval(l[1]) for l in ls})


def req_val(o, t):
    """t = REQ[key] -> key"""
    return key_of(o, t.a[1]) if t.k == "item" and t.a[0] is REQ else None


def consts(o, t):
    if t.k in ("lit", "tuple"):
        return {cval(s) for s in subterms(t) if is_const(s)}
    if t.k == "alloc":
        return {cval(l[1]) for l in layers(o, t) if l[0] == "i" and is_const(l[1])}
    return {cval(s) for s in subterms(t) if is_const(s)}


def one_of(o, pred, allowed):
    """the facts say that a term chosen by pred is one of allowed"""
    for a, b in facts_of(o).items():
        if a[0] == "VAL" and pred(a[1]) and is_const(b) and cval(b) in allowed:
            return True
        if a[0] == "EQ" and b is True and ((pred(a[1]) and is_const(a[2]) and cval(a[2]) in allowed) or (
                pred(a[2]) and is_const(a[1]) and cval(a[1]) in allowed)):
            return True
        if a[0] == "IN" and b is True and pred(a[1]):
            c = consts(o, a[2])
            if c and c <= set(allowed) and not mentions(a[2], lambda s: s.k == "sym"):
                return True
    return False


def none_of(o, pred, banned):
    """the facts say that a term chosen by pred is none of banned"""
    left = set(banned)
    for a, b in facts_of(o).items():
        if a[0] == "IN" and b is False and pred(a[1]):
            left -= consts(o, a[2])
        if a[0] == "EQ" and b is False:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if pred(x) and is_const(y):
                    left.discard(cval(y))
        if a[0] == "VAL" and pred(a[1]) and is_const(b):
            return cval(b) not in banned
    return not left


def uattr(uri, name):
    """urlparse/urlsplit(uri).name"""
    return lambda t: t.k == "attr" and t.a[1] == name and is_call(t.a[0], "urlparse", "urlsplit") and has_sub(t.a[0], uri)


def no_part(o, uri, name):
    p = uattr(uri, name)
    return any(a[0] == "T" and b is False and p(a[1]) for a, b in o.facts.items()) or has_eq(
        o, p, lambda t: is_const(t) and not cval(t)) or any(
        a[0] == "IN" and b is False and is_const(a[1]) and cval(a[1]) == {"fragment": "#", "query": "?"}[name] and a[2] is uri
        for a, b in o.facts.items())


@prop("C26")
def metadata(ck):
    ck.rule("C26.verified", "a client is registered only after the request has been verified and compared with what the provider supports", 2)
    ck.rule("C26.supported", "algorithms, methods, response types, grant types, subject types and acr values asked for must be ones the provider supports", 20)
    ck.rule("C26.redirect", "redirect URIs have no fragment; web clients use https (http only for the code flow), native ones a custom "
            "scheme or http to the own host; they are stored as requested", 4)
    ck.rule("C26.stored", "what is stored for redirect, logout and request URIs, sector identifier and policy pages is what passed its check", 7)
    ck.rule("C26.sector", "a sector identifier document lists every redirect URI of the client", 1)
    ck.rule("C26.refused", "a request that fails is answered by an error", 2)
    # --- the request is checked before anything is made of it
    outs = ck.run(REG, "client_registration_setup", ["self", "REQ", "NEW", "SET"], watch={"verify", "match_client_request", "do_client_registration"},
                  more_opaque={"do_client_registration", "match_client_request", "comb_uri", "importer"}, raises=True, **BIG)
    n = 0
    for o in outs:
        seen = []
        for e in o.trace:
            if e.name == "do_client_registration":
                n += 1
                r = argn(e, "request", 0)
                ok = "verify" in seen and "match_client_request" in seen and r is REQ
                ck.ob("C26.verified", "client_registration_setup", ok, "a client is registered without %s" % (
                    " and ".join(sorted({"verify", "match_client_request"} - set(seen))) or "the request that was checked"), o)
            elif e.name == "verify" and e.recv is REQ:
                seen.append(e.name)
            elif e.name == "match_client_request" and any(v is REQ for _, v in e.args):
                seen.append(e.name)
        if o.kind == "return" and not is_error_val(o, o.val) and not events(o, "do_client_registration"):
            ck.ob("C26.verified", "success", False, "a registration succeeds without client information having been checked", o)
    if not n:
        raise Broken("client_registration_setup does not call do_client_registration")
    for name in ("verify", "match_client_request"):
        exc = {"verify": "ValueError", "match_client_request": "oidcop.exception.CapabilitiesMisMatch"}[name]
        for o in ck.run(REG, "client_registration_setup", ["self", "REQ", "NEW", "SET"], watch={"do_client_registration"}, throws={name: exc},
                        more_opaque={"do_client_registration", "match_client_request", "comb_uri", "importer"}, raises=True, **BIG):
            ck.ob("C26.refused", name, o.kind == "raise" or (is_error_val(o, o.val) and not events(o, "do_client_registration")),
                  "a registration goes on although %s refused it" % name, o)
    for o in ck.run(REG, "process_request", ["self", "REQ", "NEW", "SET"], more_opaque={"client_registration_setup", "new_cookie"}, **BIG):
        if is_error_val(o, o.val):
            continue
        if is_call(o.val, "client_registration_setup"):
            ck.ob("C26.refused", "error passed on", o.facts.get(("IN", const("error"), o.val)) is True, "a result is not answered", o)
            continue
        ra = val(o, o.val, "response_args")
        ck.ob("C26.refused", "process_request", ra is not None and is_call(ra, "client_registration_setup") and o.facts.get(
            ("IN", const("error"), ra)) is False, "a refused registration is answered as a success: %s" % show(o.val)[:80], o)
    # --- capabilities
    seen = set()
    for o in ck.run(REG, "match_client_request", ["self", "REQ"], more_opaque={"match_sp_sep"}, qloop=2, **BIG):
        for a, b in list(o.facts.items()):
            if a[0] != "IN" or b is not True or a[2] is not REQ:
                continue
            k = key_of(o, a[1])
            if k is None and a[1].k == "elem" and impossible(o, a[1]):
                continue
            if k is None:
                ck.ob("C26.supported", "key", False, "cannot tell which capability %s is" % show(a[1]), o)
                continue
            if k not in SUPPORTED:
                continue
            seen.add(k)
            v = lambda t: req_val(o, t) == k
            prov = lambda t: is_key(t, SUPPORTED[k], lambda x: x.k == "attr" and x.a[1] == "provider_info") or is_key(
                t, SUPPORTED[k], lambda x: mentions(x, lambda y: y.k == "attr" and y.a[1] == "provider_info"))
            ok = False
            for c, d in o.facts.items():
                if c[0] == "IN" and d is True and mentions(c[2], prov) and (v(c[1]) or (c[1].k == "elem" and v(c[1].a[0]))):
                    ok = True
                if c[0] == "T" and d is True and is_call(c[1], "match_sp_sep"):
                    f, s = call_arg(c[1], "first", 0), call_arg(c[1], "second", 1)
                    ok = ok or (f is not None and s is not None and v(f) and prov(s))
                if c[0] == "T" and d is True and is_call(c[1], "issubset"):
                    ok = ok or (mentions(c[1].a[1], v) and any(mentions(x, prov) for x in c[1].a[2]))
                if c[0] == "T" and d is False and v(c[1]):
                    ok = True  # asks for nothing
            for c, d in o.facts.items():
                if c[0] == "IN" and d is False and c[1].k == "elem" and v(c[1].a[0]) and mentions(c[2], prov):
                    ok = False
            ck.ob("C26.supported", k, ok, "%s is not compared with %s" % (k, SUPPORTED[k]), o)
    for k in SUPPORTED:
        ck.ob("C26.supported", k, k in seen, "what a client asks for as %s is not compared with what the provider supports" % k,
              where=ck.method(REG, "match_client_request").qual)
    A, B = sym("A"), sym("B")
    for o in ck.run(MOD + ".match_sp_sep", None, ["A", "B"], truth=True, nogc=True, qloop=2, **BIG):
        if not cval(o.val):
            continue
        empty = any(a[0] == "T" and b is False and (a[1] is A or (is_call(a[1], "split") and a[1].a[1] is A)) for a, b in o.facts.items())
        eq = any((deep_has(o, x, lambda s: s is A) and deep_has(o, y, lambda s: s is B)) or (
            deep_has(o, x, lambda s: s is B) and deep_has(o, y, lambda s: s is A)) for x, y in eq_pairs(o))
        ea = [t for t, ob in o.st.heap.items() if ob.kind in ("set", "list") and deep_has(o, t, lambda s: s is A)
              and not any(l[0] == "i" and l[1].k == "alloc" for l in ob.layers)]
        eq = eq and all(any(t in (x, y) for x, y in eq_pairs(o)) for t in ea)
        isin = any(a[0] == "IN" and b is True and deep_has(o, a[1], lambda s: s is A) and deep_has(o, a[2], lambda s: s is B)
                   for a, b in o.facts.items())
        ck.ob("C26.supported", "match_sp_sep", empty or eq or isin, "values are taken to be supported without being among the supported ones", o)
    # --- redirect URIs
    RU = item(REQ, const("redirect_uris"))
    at = lambda t: is_key(t, "application_type", lambda b: b is REQ)
    rt = lambda t: is_key(t, "response_types", lambda b: b is REQ)
    n = 0
    for o in ck.run(REG, "verify_redirect_uris", ["REQ"], more_opaque={"split_uri"}, **BIG):
        if o.val.k != "alloc":
            ck.ob("C26.redirect", "result", False, "returns %s" % show(o.val)[:80], o)
            continue
        for l in layers(o, o.val):
            n += 1
            es = _elems(l[1]) if l[0] == "i" else []
            uris = {s for s in subterms(l[1]) if s.k == "elem" and has_sub(s.a[0], RU)}
            if len(es) != 2 or len(uris) != 1:
                ck.ob("C26.redirect", "stored", False, "cannot tell which URI is stored: %s" % show(l[1])[:90], o)
                continue
            uri = uris.pop()
            sp = lambda t: is_call(t, "split_uri") and any(x is uri for x in list(t.a[2]) + list(dict(t.a[3]).values()))
            base = es[0] is uri or (es[0].k == "item" and sp(es[0].a[0]) and is_const(es[0].a[1]) and cval(es[0].a[1]) == 0)
            q = es[1]
            full = es[0] is not uri and (
                (q.k == "item" and sp(q.a[0]) and cval(q.a[1]) == 1) or any(
                    a[0] == "T" and b is False and a[1].k == "item" and sp(a[1].a[0]) and cval(a[1].a[1]) == 1 for a, b in o.facts.items()))
            sch = uattr(uri, "scheme")
            custom = none_of(o, sch, ("http", "https"))
            ck.ob("C26.redirect", "stored", base and (full or custom), "a redirect URI is stored as %s" % show(l[1])[:90], o)
            ck.ob("C26.redirect", "fragment", no_part(o, uri, "fragment"), "a redirect URI with a fragment is registered", o)
            native = one_of(o, at, ("native",))
            web = one_of(o, at, ("web",)) or o.facts.get(("IN", const("application_type"), REQ)) is False
            code = has_eq(o, rt, lambda t: consts(o, t) == {"code"})
            if native:
                ok = custom or (one_of(o, sch, ("http",)) and one_of(o, uattr(uri, "hostname"), ("localhost", "127.0.0.1", "::1")))
            elif web:
                ok = one_of(o, sch, ("https",)) or (code and one_of(o, sch, ("http", "https")))
            else:
                ok = one_of(o, sch, ("http", "https"))
            ck.ob("C26.redirect", "native" if native else "web" if web else "other", ok, "a redirect URI with another scheme or host is registered", o)
    if not n:
        raise Broken("verify_redirect_uris never returns anything")
    # --- what is stored, for each kind of item on its own
    KEYS = ["redirect_uris", "post_logout_redirect_uri", "request_uris", "sector_identifier_uri", "policy_uri", "logo_uri", "tos_uri"]
    REST = ["id_token_signed_response_alg", "userinfo_signed_response_alg", "jwks_uri", "jwks"]
    for k in KEYS:
        fs = {("IN", const(x), REQ): x == k for x in KEYS + REST}
        v = item(REQ, const(k))
        fs[("T", v)] = True
        n = 0
        for o in ck.run(REG, "do_client_registration", ["self", "REQ", "CID", "IGN"], facts=fs,
                        more_opaque={"verify_redirect_uris", "_verify_sector_identifier", "verify_url", "load_keys", "split_uri"}, **BIG):
            if is_error_val(o, o.val):
                continue
            n += 1
            f = final(o, o.val, k)[0] if o.val.k == "alloc" else None
            bad = "%s is stored unchecked: %s" % (k, show(f)[:80] if f is not None else "?")
            if k == "redirect_uris":
                ok = f is not None and is_call(f, "verify_redirect_uris") and has_sub(f, REQ)
            elif k == "post_logout_redirect_uri":
                ok = f is not None and is_call(f, "split_uri") and has_sub(f, v) and no_part(o, v, "fragment")
            elif k == "request_uris":
                ok = f is not None and f.k == "alloc" and all(
                    l[0] == "i" and all(no_part(o, u, "query") for u in {s for s in alluris(o, l[1], v)} or [REQ]) for l in layers(o, f))
            elif k == "sector_identifier_uri":
                ok = True
                for x, i in (("si_redirects", 0), ("sector_id", 1)):
                    g = final(o, o.val, x)[0] if o.val.k == "alloc" else None
                    ok = ok and g is not None and g.k == "item" and is_call(g.a[0], "_verify_sector_identifier") and has_sub(g, REQ) and cval(g.a[1]) == i
            else:
                ok = any(a[0] == "T" and b is True and is_call(a[1], "verify_url") and any(req_val(o, x) == k for x in list(a[1].a[2]) + list(
                    dict(a[1].a[3]).values())) for a, b in o.facts.items())
            ck.ob("C26.stored", k, ok, bad, o)
        if not n:
            raise Broken("do_client_registration never succeeds with %s" % k)
    U, S = sym("U"), sym("SET")
    for o in ck.run(MOD + ".verify_url", None, ["U", "SET"], truth=True, **BIG):
        if cval(o.val):
            host = has_eq(o, uattr(U, "netloc"), lambda t: t.k == "attr" and t.a[1] in ("netloc", "hostname") and has_sub(t, S)) or has_eq(
                o, uattr(U, "hostname"), lambda t: t.k == "attr" and t.a[1] == "hostname" and has_sub(t, S))
            sch = has_eq(o, uattr(U, "scheme"), lambda t: t.k == "attr" and t.a[1] == "scheme" and has_sub(t, S))
            if not (host and sch):
                host = sch = any(u.k == "tuple" and any(uattr(U, "netloc")(z) for z in u.a) and any(uattr(U, "scheme")(z) for z in u.a)
                                 for p in eq_pairs(o) for u in p)
            ck.ob("C26.stored", "verify_url", host and sch, "a URL at another host than the redirect URIs' is accepted", o)
    SI = item(REQ, const("sector_identifier_uri"))
    for o in ck.run(REG, "_verify_sector_identifier", ["self", "REQ"], **BIG):
        es = _elems(o.val)
        ok = len(es) == 2 and es[1] is SI and deep_has(o, es[0], lambda s: is_call(s, "loads", "json")) and has_sub(es[0], SI)
        if ok and o.facts.get(("IN", const("redirect_uris"), REQ)) is not False and o.facts.get(("T", RU)) is not False:
            ok = any(a[0] == "IN" and b is True and a[1].k == "elem" and has_sub(a[1], RU) and a[2] is es[0] for a, b in o.facts.items()) or any(
                a[0] == "T" and b is True and is_call(a[1], "issubset") and has_sub(a[1], RU) and has_sub(a[1], es[0]) for a, b in o.facts.items())
        ck.ob("C26.sector", "_verify_sector_identifier", ok, "a sector identifier is accepted without every redirect URI being in its document", o)


def alluris(o, t, v):
    """elements of v (the requested list) that t was made from"""
    for s in subterms(t):
        if s.k == "elem" and has_sub(s.a[0], v):
            yield s
        elif s.k == "alloc":
            for l in layers(o, s):
                for x in l[1:]:
                    for y in alluris(o, x, v):
                        yield y


def is_random(t):
    """fresh, from the secrets module or os.urandom, of at least 8 bytes"""
    return mentions(t, lambda s: is_call(s, "token_urlsafe", "token_hex", "token_bytes", "urandom", "rndstr", "uuid4") and (
        s.a[0] == "uuid4" or any(is_const(x) and isinstance(cval(x), int) and cval(x) >= 8 for x in list(s.a[2]) + list(dict(s.a[3]).values()))))


@prop("C27")
def credentials(ck):
    ck.rule("C27.id", "a new client gets an identifier that no registered client has, chosen by the provider", 2)
    ck.rule("C27.secret", "secret, salt and registration access token are random, made for this client, and the secret expires as configured", 4)
    ck.rule("C27.issued", "a request cannot replace what the provider issued", 1)
    ck.rule("C27.policy", "a request cannot set what is for the provider to decide (scopes, claims, usage rules, ..)", 1)
    ck.rule("C27.stored", "what is stored and what the client is told are the same checked information, under the identifier issued", 2)
    ck.rule("C27.keys", "keys are loaded for the client registered, from its request, and its secret is its symmetric key", 2)
    ck.rule("C27.clean", "a refused registration leaves neither a client nor a registration access token", 2)
    OP = {"do_client_registration", "match_client_request", "comb_uri", "importer"}
    NEW, SET = sym("NEW"), sym("SET")
    rpl = lambda t: is_call(t, "do_client_registration")
    n = 0
    for o in ck.run(REG, "client_registration_setup", ["self", "REQ", "NEW", "SET"], watch={"add_symmetric"}, more_opaque=OP, log_puts=True, **BIG):
        if is_error_val(o, o.val) or o.facts.get(("T", NEW)) is not True or rpl(o.val):
            continue
        n += 1
        st = [(k[2], v) for k, v in o.st.ov.items() if k[0] == "i" and k[1] is CDB]
        ck.ob("C27.stored", "one client", len(st) == 1, "%d entries of the client database change" % len(st), o)
        for cid, v in st:
            fresh = not has_sub(cid, REQ) and mentions(cid, lambda s: s.k == "call" and "reserved" in dict(s.a[3]) and mentions(
                dict(s.a[3])["reserved"], lambda x: x is CDB))
            fresh = fresh or (not has_sub(cid, REQ) and o.facts.get(("IN", cid, CDB)) is False)
            ck.ob("C27.id", "new identifier", fresh, "a client is registered as %s" % show(cid)[:80], o)
            ck.ob("C27.stored", "stored", rpl(v) and mentions(v, lambda s: s is cid), "what is stored is %s" % show(v)[:80], o)
            for e in events(o, "add_symmetric"):
                ow, k = argn(e, "issuer_id", 0), argn(e, "key", 1)
                ck.ob("C27.keys", "symmetric", ow is cid and k is not None and is_random(k), "the symmetric key of %s becomes %s" % (
                    show(ow)[:40], show(k)[:60] if k is not None else "?"), o)
            for k2, v2 in [(k[2], v) for k, v in o.st.ov.items() if k[0] == "i" and k[1] is RAT]:
                ck.ob("C27.secret", "access token owner", is_random(k2) and v2 is cid, "registration access token %s given to %s" % (
                    show(k2)[:60], show(v2)[:60]), o)
            resp = [s for s in leafs(o, o.val)]
            ck.ob("C27.stored", "answer", all(mentions(x, rpl) or is_const(x) for x in resp) and bool(resp) or not resp,
                  "the client is told something that is not what was stored", o)
    if not n:
        raise Broken("no registration of a new client")
    P = ck.puts
    for key in ("client_secret", "client_salt", "registration_access_token"):
        ps = [p for p in P if p.key is not None and is_const(p.key) and cval(p.key) == key]
        if not ps:
            raise Broken("no place where %s is issued" % key)
        for p in ps:
            ck.ob("C27.secret", key, is_random(p.val) and not has_sub(p.val, REQ) or mentions(p.val, lambda s: is_call(s, "hexdigest") and is_random(s)),
                  "%s is %s" % (key, show(p.val)[:80]), o=p, where=p.site)
    # expiry
    n = 0
    for o in ck.run(REG, "client_registration_setup", ["self", "REQ", "NEW", "SET"], watch={"do_client_registration"}, more_opaque=OP,
                    facts={("T", NEW): True, ("T", SET): True, ("IN", const("client_id_generator"), attr(SELF, "kwargs")): False}, nogc=True, cap=4000, widen=30000):
        if not events(o, "do_client_registration"):
            continue
        n += 1
        never = any(a[0] == "T" and b is False and is_key(a[1], "client_secret_expires") and o.facts.get(
            ("IN", const("client_secret_expires"), a[1].a[0])) is True for a, b in o.facts.items())
        zero = any(a[0] == "T" and b is False and mentions(a[1], lambda s: is_call(s, "utc_time_sans_frac")) for a, b in o.facts.items())
        info = [t for t, ob in o.st.heap.items() if any(l[0] == "kv" and is_const(l[1]) and cval(l[1]) == "client_secret" for l in ob.layers)]
        exp = [val(o, t, "client_secret_expires_at") for t in info]
        good = exp and all(x is not None and mentions(x, lambda s: is_call(s, "utc_time_sans_frac")) and x.k == "op" and x.a[0] == "add" and (
            mentions(x, lambda s: is_key(s, "client_secret_expires_in")) or any(is_const(y) and isinstance(cval(y), int) and cval(y) > 0 for y in x.a[1:]))
            for x in exp)
        ck.ob("C27.secret", "expiry", never or zero or bool(good), "a secret that should expire does not", o)
    if not n:
        raise Broken("client_registration_setup does not call do_client_registration")
    # copying the request
    C = sym("CID")
    ck.run(REG, "do_client_registration", ["self", "REQ", "CID", "IGN"], log_puts=True, watch={"load_keys"},
           more_opaque={"verify_redirect_uris", "_verify_sector_identifier", "verify_url", "split_uri"}, cap=40, widen=300)
    n = 0
    for p in ck.puts:
        if p.key is None:
            if p.val is REQ:
                ck.ob("C27.issued", "copy", False, "everything in the request is stored", p, where=p.site)
            continue
        if is_const(p.key):
            k = cval(p.key)
            if k in ISSUED:
                ck.ob("C27.issued", k, not has_sub(p.val, REQ), "%s comes from the request" % k, p, where=p.site)
            if k in POLICY and has_sub(p.val, REQ):
                ck.ob("C27.policy", k, mentions(p.val, lambda s: is_call(s, "_verify_sector_identifier")), "%s comes from the request" % k, p, where=p.site)
            continue
        if not mentions(p.key, lambda s: s is REQ):
            continue
        n += 1
        own = key_of(p, p.key)
        if own is not None and own not in ISSUED + POLICY:
            continue
        ex = lambda k: excluded(p, p.key, k)
        prev = lambda t: mentions(t, lambda s: s is CDB) or t is p.base or (t.k == "alloc")
        kept = any(a[0] == "IN" and b is False and a[1] is p.key and prev(a[2]) for a, b in p.facts.items())
        ck.ob("C27.issued", "copy", kept or all(ex(k) for k in ISSUED), "a request can replace %s" % ", ".join(k for k in ISSUED if not ex(k)), p, where=p.site)
        ck.ob("C27.policy", "copy", all(ex(k) for k in POLICY), "a request can set %s" % ", ".join(k for k in POLICY if not ex(k)), p, where=p.site)
    if not n:
        raise Broken("do_client_registration copies nothing from the request")
    fs = {("IN", const(x), REQ): False for x in ("redirect_uris", "post_logout_redirect_uri", "request_uris", "sector_identifier_uri",
                                               "policy_uri", "logo_uri", "tos_uri", "id_token_signed_response_alg", "userinfo_signed_response_alg")}
    for has in ((), ("jwks",), ("jwks_uri",)):
        f2 = dict(fs)
        f2.update({("IN", const(k), REQ): k in has for k in ("jwks", "jwks_uri")})
        for o in ck.run(REG, "do_client_registration", ["self", "REQ", "CID", "IGN"], facts=f2, watch={"load_keys"}, **BIG):
            if is_error_val(o, o.val):
                continue
            es = [e for e in events(o, "load_keys")]
            ck.ob("C27.keys", "loaded", bool(es) or not has, "the keys of the client are not loaded", o)
            for e in es:
                ok = argn(e, "issuer_id", 0) is C
                for k in ("jwks", "jwks_uri"):
                    x = e.arg(k)
                    if k in has:
                        ok = ok and x is not None and is_key(x, k, lambda b: b is REQ)
                    else:
                        ok = ok and (x is None or not has_sub(x, REQ))
                ck.ob("C27.keys", "loaded", ok, "keys are loaded otherwise than from the request, for its client", o)
    # refused
    n = 0
    for thr in ({}, {"do_client_registration": "Exception"}, {"comb_uri": "Exception"}, {"response_cls": "Exception"}):
        for o in ck.run(REG, "client_registration_setup", ["self", "REQ", "NEW", "SET"], more_opaque=OP, throws=thr, raises=True,
                        facts={("T", NEW): True}, **BIG):
            isa = any(a[0] == "ISA" and b is True and rpl(a[1]) for a, b in o.facts.items())
            if not (o.kind == "raise" or is_error_val(o, o.val) or (rpl(o.val) and isa)):
                continue
            n += 1
            for base, what in ((CDB, "client"), (RAT, "registration access token")):
                left = [k[2] for k, v in o.st.ov.items() if k[0] == "i" and k[1] is base and not (v.k == "deleted" or show(v) == "deleted()")]
                ck.ob("C27.clean", what, not left, "a refused registration leaves a %s behind" % what, o)
    if not n:
        raise Broken("registrations are never refused")
    R = sym("RES")
    for o in ck.run(MOD + ".random_client_id", None, ["L", "RES"], **BIG):
        ck.ob("C27.id", "random_client_id", is_random(o.val) and o.facts.get(("IN", o.val, R)) is False, "returns %s" % show(o.val)[:60], o)


def leafs(o, t, seen=()):
    """values in a mapping"""
    if t.k != "alloc":
        yield t
        return
    if t in seen:
        return
    for l in layers(o, t):
        x = l[2] if l[0] == "kv" else l[1]
        for y in leafs(o, x, seen + (t,)):
            yield y


def excluded(o, key, k):
    for a, b in facts_of(o).items():
        if a[0] == "IN" and b is False and a[1] is key and k in consts_any(o, a[2]):
            return True
        if a[0] == "EQ" and b is False and ((a[1] is key and is_const(a[2]) and cval(a[2]) == k) or (a[2] is key and is_const(a[1]) and cval(a[1]) == k)):
            return True
        if a[0] == "IN" and b is True and a[1] is key and a[2].k in ("lit", "tuple") and k not in consts_any(o, a[2]):
            return True
    v = key_of(o, key)
    return v is not None and v != k


def consts_any(o, t):
    return {cval(s) for s in subterms(t) if is_const(s)}


@prop("C28")
def reading(ck):
    ck.rule("C28.token", "a registration access token gives access to the client it was issued to, only", 1)
    ck.rule("C28.what", "what is told is the registered information of the authenticated client, registration parameters only", 1)
    ck.rule("C28.default", "unless configured otherwise the client has to present its registration access token", 1)
    TOK = sym("TOK")
    n = 0
    for o in ck.run(RD, "get_client_id_from_token", ["self", None, "TOK", "REQ"], **BIG):
        v = o.val
        if is_const(v) and not truthy_possible(v):
            continue
        n += 1
        own = lambda t: t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "registration_access_token" and t.a[1] is TOK
        ck.ob("C28.token", "get_client_id_from_token", own(v) or has_eq(o, lambda t: t is v, own),
              "a token is taken for one of %s" % show(v)[:60], o)
    if not n:
        raise Broken("a registration access token never gives access")
    outs = ck.run(RD, "process_request", ["self", "REQ"], log_puts=True, more_opaque={"comb_uri"}, **BIG)
    info = lambda t: t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "cdb" and is_key(t.a[1], "client_id", lambda b: b is REQ)
    n = 0
    for o in outs:
        if is_error_val(o, o.val):
            continue
        n += 1
        for x in leafs(o, o.val):
            ok = is_const(x) or (mentions(x, info) and not info(x) and all(
                info(s) for s in subterms(x) if s.k == "item" and s.a[0].k == "attr" and s.a[0].a[1] == "cdb"))
            ck.ob("C28.what", "client", ok, "tells %s" % show(x)[:80], o)
    for p in ck.puts:
        if p.key is not None and mentions(p.val, info) and p.val.k == "item" and info(p.val.a[0]):
            n += 1
            ok = any(a[0] == "IN" and b is True and a[1] is p.key and "c_param" in show(a[2])
                     for a, b in p.facts.items())
            ck.ob("C28.what", "parameters", ok, "stored information that is no registration parameter is told", p, where=p.site)
    if not n:
        raise Broken("nothing is ever told")
    import ast as _ast

    c = ck.p.need_class(RD)
    dc = None
    for s in c.node.body:
        if isinstance(s, _ast.Assign) and any(isinstance(t, _ast.Name) and t.id == "default_capabilities" for t in s.targets):
            dc = s.value
    names = [x.value for x in _ast.walk(dc) if isinstance(x, _ast.Constant)] if dc is not None else []
    ck.ob("C28.default", "default_capabilities", "client_authn_method" in names and any(x in names for x in ("bearer_header", "bearer_body")),
          "no client authentication by default", where=c.qual)
