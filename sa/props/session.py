"""Cookies, RP-initiated logout and what logging out does."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop
from .authz import verify_uri_leaf
from .claims import final, same, sources, val

CH = "oidcop.cookie_handler.CookieHandler"
SES = "oidcop.oidc.session.Session"
SM = "oidcop.session.manager.SessionManager"
BIG = dict(cap=400, widen=3000)


def cls_of(o, t):
    if t is None or t.k != "alloc":
        return ""
    ob = o.st.heap.get(t)
    return (ob.cls or "").rpartition(".")[2] if ob is not None else ""


def argn(e, *names):
    for n in names:
        v = e.arg(n)
        if v is not None:
            return v
    return None


def call_arg(t, *names):
    """argument of a call term, by position or name"""
    for n in names:
        if isinstance(n, int):
            if n < len(t.a[2]):
                return t.a[2][n]
        elif n in dict(t.a[3]):
            return dict(t.a[3])[n]
    return None


def enc(t):
    """through .encode()/str()/bytes conversions"""
    while True:
        if t.k == "call" and t.a[0] in ("encode", "decode", "as_bytes", "as_unicode", "bytes") and t.a[1] is not None:
            t = t.a[1]
        elif t.k == "call" and t.a[0] in ("encode", "decode", "as_bytes", "as_unicode") and t.a[2]:
            t = t.a[2][0]
        elif t.k == "op" and t.a[0] in ("str", "bytes", "fmt") and len(t.a) == 2:
            t = t.a[1]
        else:
            return t


def keyattr(o, t, name, self_=SELF):
    """the key material of self.<name>"""
    return t is not None and mentions(t, lambda s: s.k == "attr" and s.a[1] == name and s.a[0] is self_)


def alg_key(o, recv, name):
    """AES_GCMEncrypter(key=self.enc_key.key)"""
    if recv is None or recv.k != "alloc":
        return False
    k = o.st.ov.get(("a", recv, "key"))
    if k is None:
        for l in layers(o, recv):
            if l[0] == "kv" and is_const(l[1]) and cval(l[1]) == "key":
                k = l[2]
            elif l[0] == "i":
                k = k or l[1]
    return keyattr(o, k, name)


# ------------------------------------------------------------------ C23


def mac_of(o, t, payload, ts):
    """T(verify(HMAC, payload + ts, mac, sign_key))"""
    if not is_call(t, "verify") or cls_of(o, t.a[1]) != "HMACSigner":
        return False
    msg = call_arg(t, 0, "msg")
    key = call_arg(t, 2, "key")
    if msg is None or not keyattr(o, key, "sign_key"):
        return False
    parts = [enc(x) for x in msg.a[1:]] if msg.k == "op" and msg.a[0] in ("add", "fmt") else [enc(msg)]
    return payload in parts and ts in parts


@prop("C23")
def cookies(ck):
    ck.rule("C23.authentic", "a cookie's content is believed only after its MAC over content and time has been verified with the "
            "handler's key, or it was decrypted with the handler's encryption key", 2)
    ck.rule("C23.reader", "what is read from cookies is the verified content of cookies with the name asked for, nothing else", 2)
    ck.rule("C23.writer", "a cookie that is made carries a MAC over content and time if there is a signing key, and no clear text "
            "content if there is an encryption key, which is used with a fresh nonce", 2)
    ck.rule("C23.content", "the value of a cookie is its protected content, and it gets all configured flags (secure and httponly "
            "unless configured otherwise)", 2)
    P = sym("PARTS")
    outs = ck.run(CH, "_ver_dec_content", ["self", "PARTS"], more_opaque={"lv_unpack"}, **BIG)
    pos = set()
    n = 0
    for o in outs:
        v = o.val
        if is_const(v) and not truthy_possible(v):
            continue
        n += 1
        if v.k not in ("tuple", "lit") or len([x for x in _elems(v)]) != 2:
            ck.ob("C23.authentic", "result", False, "cannot tell what is believed: %s" % show(v)[:100], o)
            continue
        pl, ts = _elems(v)
        mac = any(a[0] == "T" and b is True and mac_of(o, a[1], enc(pl), enc(ts)) for a, b in o.facts.items())
        dec = [s for s in subterms(pl) if is_call(s, "decrypt")]
        good = [d for d in dec if cls_of(o, d.a[1]) == "AES_GCMEncrypter" and alg_key(o, d.a[1], "enc_key")
                and mentions(d, lambda s: s is P) and (call_arg(d, "tag", 2) is not None) and has_sub(ts, d)]
        ck.ob("C23.authentic", "content", mac or bool(good),
              "the content of a cookie is believed without a verified MAC or authenticated decryption", o)
        pos.add("dec" if dec else "mac")
    if pos != {"dec", "mac"}:
        raise Broken("cookies are read as %s" % sorted(pos))
    # --- parse_cookie
    n = 0
    N, C = sym("NAME"), sym("COOKIES")
    for o in ck.run(CH, "parse_cookie", ["self", "NAME", "COOKIES"], more_opaque={"_ver_dec_content"}, **BIG):
        if o.val.k != "alloc":
            ck.ob("C23.reader", "result", is_const(o.val) and not truthy_possible(o.val), "returns %s" % show(o.val)[:90], o)
            continue
        for l in layers(o, o.val):
            n += 1
            named = has_eq(o, lambda t: t is N, lambda t: is_key(t, "name", lambda b: b.k == "elem"))
            ck.ob("C23.reader", "name", named, "cookies with another name are read", o)
            x = l[1] if l[0] == "i" else None
            ok = x is not None
            for key in ("value", "timestamp"):
                v = val(o, x, key) if x is not None and x.k == "alloc" else None
                ok = ok and v is not None and has_call(v, "_ver_dec_content") and raw_free(v)
            ck.ob("C23.reader", "content", ok, "what is read from a cookie is not its verified content", o)
            chk = any(a[0] in ("T", "NONE") and b is (a[0] == "T") and is_call(a[1], "_ver_dec_content") for a, b in o.facts.items())
            ck.ob("C23.reader", "verified", chk, "a cookie that did not verify is read", o)
    if not n:
        raise Broken("parse_cookie never returns anything")
    # --- writer
    PL, TS = sym("PAYLOAD"), sym("TS")
    n = 0
    for o in ck.run(CH, "_sign_enc_payload", ["self", "PAYLOAD", "TS"], watch={"sign", "encrypt"}, more_opaque={"lv_pack"}, **BIG):
        n += 1
        v = o.val
        ts = [s for s in subterms(v)]
        if o.facts.get(("T", attr(SELF, "sign_key"))) is not False:
            good = [e for e in events(o, "sign") if cls_of(o, e.recv) == "HMACSigner" and keyattr(o, argn(e, 1, "key"), "sign_key")
                    and mentions(argn(e, 0, "msg"), lambda s: s is PL)
                    and (mentions(argn(e, 0, "msg"), lambda s: s is TS) or mentions(argn(e, 0, "msg"), lambda s: is_call(s, "utc_time_sans_frac")))]
            used = deep_has(o, v, lambda s: is_call(s, "sign")) or any(
                a[0] == "T" and b is False and is_call(a[1], "sign") for a, b in o.facts.items())  # a MAC is never empty
            ck.ob("C23.writer", "signed", bool(good) and used, "a cookie is made without a MAC over its content and time", o)
        if o.facts.get(("T", attr(SELF, "enc_key"))) is not False:
            good = [e for e in events(o, "encrypt") if cls_of(o, e.recv) == "AES_GCMEncrypter" and alg_key(o, e.recv, "enc_key")]
            clear = clear_text(o, v, PL)
            ck.ob("C23.writer", "encrypted", bool(good) and not clear, "the content of a cookie is sent in clear text despite an encryption key", o)
            iv = all(argn(e, 1, "iv") is not None and has_call(argn(e, 1, "iv"), "urandom", "os.urandom", "token_bytes", "secrets.token_bytes")
                     for e in good)
            ck.ob("C23.writer", "nonce", iv, "cookies are encrypted with a nonce that is not fresh", o)
    if n < 2:
        raise Broken("_sign_enc_payload: %d paths" % n)
    # --- content
    n = 0
    VAL, NAME, TYP = sym("VALUE"), sym("NAME"), sym("TYP")
    flags = attr(SELF, "flags")
    for o in ck.run(CH, "make_cookie_content", ["self", "NAME", "VALUE", "TYP"], more_opaque={"_sign_enc_payload"}, **BIG):
        if o.val.k != "alloc":
            continue
        n += 1
        v = kv(o, o.val, "value")
        empty = o.facts.get(("T", VAL)) is False
        ok = v is not None and (is_call(v, "_sign_enc_payload") or (empty and is_const(v) and not cval(v)))
        ck.ob("C23.content", "value", ok, "the value of the cookie is %s" % (show(v)[:90] if v is not None else "missing"), o)
        nv = kv(o, o.val, "name")
        ck.ob("C23.content", "name", nv is NAME, "the cookie is made under another name", o)
        fl = flags in list(sources(o, o.val)) or any(
            l[0] == "kv" and mentions(l[1], lambda s: s is flags) and mentions(l[2], lambda s: s is flags) for l in layers(o, o.val)) or any(
            a[0] == "T" and b is False and mentions(a[1], lambda s: s is flags) for a, b in o.facts.items())
        ck.ob("C23.content", "flags", fl, "a cookie does not get the configured flags", o)
    if not n:
        raise Broken("make_cookie_content returns nothing")
    n = 0
    for o in ck.run(CH, "__init__", ["self"], **BIG):
        f = o.st.ov.get(("a", SELF, "flags"))
        if f is None:
            ck.ob("C23.content", "flags set", False, "no cookie flags", o)
            continue
        for t in alts(f):
            if t.k == "alloc":
                n += 1
                for key in ("secure", "httponly"):
                    v = val(o, t, key)
                    ck.ob("C23.content", "default " + key, v is not None and is_const(v) and cval(v) is True, "cookies are not %s by default" % key, o)
    if not n:
        raise Broken("no default cookie flags")


def _elems(v):
    if v.k == "tuple":
        return list(v.a)
    if v.k == "lit":
        x = v.a[1]
        return list(x) if isinstance(x, tuple) else []
    return []


def raw_free(v):
    """only through _ver_dec_content does it come from the cookie"""
    if is_call(v, "_ver_dec_content"):
        return True
    if v.k == "elem":
        return False
    return all(raw_free(x) for x in v.a if isinstance(x, T))


def clear_text(o, t, payload, seen=()):
    if t is payload:
        return True
    if is_call(t, "encrypt", "sign"):
        return False
    if t.k == "alloc":
        if t in seen:
            return False
        return any(clear_text(o, x, payload, seen + (t,)) for l in layers(o, t) for x in l[1:] if isinstance(x, T))
    for x in t.a:
        if isinstance(x, T) and clear_text(o, x, payload, seen):
            return True
        if isinstance(x, tuple):
            for y in x:
                y = y[1] if isinstance(y, tuple) and len(y) == 2 else y
                if isinstance(y, T) and clear_text(o, y, payload, seen):
                    return True
    return False


# ------------------------------------------------------------------ C24

REQ_ = REQ
HINT = "id_token_hint"


def hint(t):
    """the verified id_token_hint of the request"""
    return t.k == "item" and t.a[0] is REQ and (
        (is_call(t.a[1], "verified_claim_name") and any(is_const(x) and cval(x) == HINT for x in subterms(t.a[1])))
        or (is_const(t.a[1]) and str(cval(t.a[1])) == "__verified_" + HINT))


def cookie_session(t):
    """get_session_info(sid of the session cookie of the request)"""
    return is_call(t, "get_session_info") and mentions(
        t, lambda s: is_key(s, "sid") and mentions(
            s, lambda c: is_call(c, "parse_cookie") and mentions(c, lambda x: is_key(x, "session") and mentions(
                x, lambda y: y.k == "attr" and y.a[1] == "cookie_handler")) and mentions(c, lambda x: is_key(x, "cookie"))))


def is_issuer(t):
    return t.k == "attr" and t.a[1] == "issuer" and mentions(t.a[0], lambda s: s is CTX or s.k == "sget")


def jwt_maker(o, recv):
    """-> the arguments JWT(..) was made with"""
    d = {}
    if recv is not None and recv.k == "alloc" and cls_of(o, recv) == "JWT":
        for k, v in o.st.ov.items():
            if k[0] == "a" and k[1] is recv:
                d[k[2]] = v
        for l in layers(o, recv):
            if l[0] == "i":
                d.setdefault("key_jar", l[1])
            elif l[0] == "kv" and is_const(l[1]):
                d[cval(l[1])] = l[2]
    return d


@prop("C24")
def rp_logout(ck):
    ck.rule("C24.session", "only the session named in a verified session cookie of the request can be logged out", 1)
    ck.rule("C24.hint", "an id_token_hint is accepted only if issued by this provider, for the client and the subject of that session; "
            "a request naming another client is refused", 4)
    ck.rule("C24.redirect", "a redirect after logout goes to a URI that came with an accepted id_token_hint and is registered for the "
            "client of the session, otherwise to the provider itself", 2)
    ck.rule("C24.carrier", "what is to be logged out travels in a JWT signed by the provider, to the provider, with the session and redirect just "
            "determined, and is read back only after verification with the provider's keys and the configured algorithm", 3)
    ck.rule("C24.parse", "a logout request is verified with the key jar of the provider, with a hint signed by an algorithm the provider supports", 2)
    outs = ck.run(SES, "process_request", ["self", "REQ", "HI"], more_opaque={"parse_cookie", "verify_uri"},
                  watch={"verify_uri", "pack"}, watch_ctor={"JWT"}, raises=True, **BIG)
    n = m = 0
    plur = const("post_logout_redirect_uri")
    for o in outs:
        if o.kind != "return" or not success(o):
            continue
        n += 1
        packs = [e for e in events(o, "pack") if cls_of(o, e.recv) == "JWT"]
        if len(packs) != 1:
            ck.ob("C24.carrier", "JWT", False, "%d JWTs are made for one logout" % len(packs), o)
            continue
        e = packs[0]
        mk_ = jwt_maker(o, e.recv)
        iss, alg = mk_.get("iss"), mk_.get("sign_alg")
        ck.ob("C24.carrier", "issuer", iss is not None and is_issuer(iss), "the logout JWT is not issued by the provider", o)
        ck.ob("C24.carrier", "algorithm", alg is not None and is_key(alg, "signing_alg"), "the logout JWT is not signed with the configured algorithm", o)
        rc = argn(e, "recv", 1)
        ck.ob("C24.carrier", "audience", rc is not None and is_issuer(rc), "the logout JWT is for somebody else than the provider", o)
        pl = argn(e, "payload", 0)
        sid = val(o, pl, "sid") if pl is not None and pl.k == "alloc" else None
        base = None
        ok = False
        if sid is not None:
            if is_key(sid, "session_id"):
                base = sid.a[0]
                ok = cookie_session(base)
            elif is_key(sid, "sid"):
                ok = any(cookie_session(s) and has_sub(s, sid) for a in o.facts for s in atoms(a))
        ck.ob("C24.session", "session", ok, "the session logged out is %s" % (show(sid)[:100] if sid is not None else "unknown"), o)
        S = lambda t: cookie_session(t)
        # the hint
        h = o.facts.get(("IN", const(HINT), REQ))
        if h is not False:
            i = has_eq(o, lambda t: is_key(t, "iss", hint), is_issuer)
            ck.ob("C24.hint", "issuer", i, "an ID Token of another issuer is accepted as hint", o)
            a_ = any(a[0] == "IN" and b is True and is_key(a[1], "client_id", S) and is_key(a[2], "aud", hint) for a, b in o.facts.items())
            ck.ob("C24.hint", "audience", a_, "an ID Token for another client is accepted as hint", o)
            s_ = has_eq(o, lambda t: is_key(t, "sub", hint), lambda t: t.k == "attr" and t.a[1] == "sub" and mentions(t.a[0], S))
            ck.ob("C24.hint", "subject", s_, "an ID Token about another subject is accepted as hint", o)
        c = o.facts.get(("IN", const("client_id"), REQ))
        c_ = c is False or has_eq(o, lambda t: is_key(t, "client_id", lambda b: b is REQ), lambda t: is_key(t, "client_id", S))
        # redirect
        ru = val(o, pl, "redirect_uri") if pl is not None and pl.k == "alloc" else None
        if ru is None:
            ck.ob("C24.redirect", "redirect", False, "no redirect determined", o)
            continue
        theirs = mentions(ru, lambda s: is_key(s, "post_logout_redirect_uri", lambda b: b is REQ))
        if theirs:
            m += 1
            ck.ob("C24.hint", "client", c_, "the request can name another client than that of the session", o)
            ck.ob("C24.redirect", "hint", h is True, "a post_logout_redirect_uri is used without an id_token_hint", o)
            v = [x for x in events(o, "verify_uri") if argn(x, "request", 1) is REQ
                 and argn(x, "uri_type", 2) is plur and argn(x, "client_id", 3) is not None
                 and is_key(argn(x, "client_id", 3), "client_id", S)]
            ck.ob("C24.redirect", "registered", bool(v), "a post_logout_redirect_uri is used that is not registered for the client of the session", o)
        extra = [s for s in subterms(ru) if s.k == "item" and s.a[0] is REQ and is_const(s.a[1])
                 and cval(s.a[1]) not in ("post_logout_redirect_uri", "state")]
        ck.ob("C24.redirect", "parts", not extra and (theirs or first_issuer(ru)), "the redirect is made from %s" % show(ru)[:100], o)
        if not theirs:
            st = any(is_key(s, "state", lambda b: b is REQ) for s in subterms(ru))
            ck.ob("C24.redirect", "own page", not st, "the own page gets parts of the request", o)
        loc = kv(o, o.val, "redirect_location") if o.val.k == "alloc" else None
        ok = loc is not None and mentions(loc, lambda s: is_key(s, "logout_verify_url")) and deep_has(
            o, loc, lambda s: is_call(s, "pack")) and not mentions(loc, lambda s: s.k == "item" and s.a[0] is REQ)
        ok = ok and leading(loc, lambda s: is_key(s, "logout_verify_url"))
        ck.ob("C24.carrier", "location", ok, "the user is sent to %s" % (show(loc)[:100] if loc is not None else "?"), o)
    if n < 4 or not m:
        raise Broken("logout has %d accepting paths, %d with redirect" % (n, m))
    verify_uri_leaf(ck, "C24.redirect")
    # --- unpack
    n = 0
    J = sym("SJWT")
    for o in ck.run(SES, "unpack_signed_jwt", ["self", "SJWT", "ALG"], **BIG):
        n += 1
        v = o.val
        ok = is_call(v, "verify_compact", "verify_compact_verbose") and has_sub(v.a[1] if v.a[1] is not None else v, J)
        keys = call_arg(v, "keys", 1) if ok else None
        alg = call_arg(v, "sigalg", 3) if ok else None
        if v.k == "item" and is_call(v.a[0], "verify_compact_verbose"):
            keys, alg = call_arg(v.a[0], "keys", 1), call_arg(v.a[0], "sigalg", 3)
            ok = has_sub(v, J)
        ok = ok and keys is not None and own_keys(keys)
        ok = ok and alg is not None and (alg is sym("ALG") or is_key(alg, "signing_alg"))
        ok = ok and not any(is_const(x) and cval(x) is True for k, x in (v.a[3] if is_call(v) else ()) if k == "allow_none")
        ck.ob("C24.carrier", "read back", ok, "the JWT naming what to log out is read by %s" % show(v)[:150], o)
    # --- parse
    n = 0
    for o in ck.run(SES, "parse_request", ["self", "REQ"], more_opaque={"client_authentication"}, keep=about_hint,
                    noraise={"verified_claim_name"}, **BIG):
        if not success(o) or is_call(o.val, "client_authentication"):
            continue
        if not any(a[0] == "ISA" and b is True and show(a[2]).endswith("dict") for a, b in o.facts.items()) and o.val.k != "alloc":
            # a message object somebody else has verified
            continue
        n += 1
        v = o.val
        ok = any(a[0] == "T" and b is True and is_call(a[1], "verify") and a[1].a[1] is v and call_arg(a[1], "keyjar") is not None
                 and call_arg(a[1], "keyjar").k == "attr" and call_arg(a[1], "keyjar").a[1] == "keyjar" for a, b in o.facts.items())
        ck.ob("C24.parse", "verified", ok, "a logout request is used that was not verified with the provider's key jar", o)
        noh = any(a[0] == "IN" and b is False and mentions(a[1], lambda s: is_const(s) and HINT in str(cval(s))) for a, b in o.facts.items())
        noh = noh or o.facts.get(("IN", const(HINT), v)) is False or o.facts.get(("T", REQ)) is False
        alg = any(a[0] == "IN" and b is True and mentions(a[1], lambda s: is_key(s, "alg")) and is_key(a[2], "id_token_signing_alg_values_supported")
                  for a, b in o.facts.items())
        ck.ob("C24.parse", "hint algorithm", noh or alg, "an id_token_hint signed with an unsupported algorithm is accepted", o)
    if not n:
        raise Broken("parse_request of the session endpoint accepts nothing")


def about_hint(at):
    return any(isinstance(x, T) and mentions(x, lambda s: is_const(s) and HINT in str(cval(s))) for x in at[1:])


def atoms(a):
    for x in a[1:]:
        if isinstance(x, T):
            for s in subterms(x):
                yield s


def leading(t, pred):
    if pred(t):
        return True
    if t.k == "op" and t.a[0] in ("fmt", "add") and len(t.a) > 1:
        return leading(t.a[1], pred)
    if is_call(t, "rstrip", "strip") and t.a[1] is not None:
        return leading(t.a[1], pred)
    return False


def first_issuer(t):
    return leading(t, is_issuer) or (is_call(t, "add_path", "urljoin") and t.a[2] and is_issuer(t.a[2][0])) or (
        is_call(t, "add_path") and any(is_issuer(v) for k, v in t.a[3])) or (t.k == "attr" and is_issuer(t))


def own_keys(t):
    """keyjar.get_signing_key(..) of the provider itself"""
    def own(s):
        if not is_call(s, "get_signing_key", "get_verify_key", "get"):
            return False
        if s.a[1] is None or not (s.a[1].k == "attr" and s.a[1].a[1] == "keyjar"):
            return False
        o_ = call_arg(s, "issuer_id", "owner", 1)
        return o_ is None or is_issuer(o_) or (is_const(o_) and not cval(o_))
    return mentions(t, own)


# ------------------------------------------------------------------ C25


def revokes(o, e):
    """client session ended by event e, as (how, term)"""
    return argn(e, "session_id", 0)


def elems_of(o, coll):
    """the elements of a collection met on this path"""
    out = set()

    def f(t):
        if t.k == "elem" and coll(t.a[0]):
            out.add(t)
        return False
    for a in o.facts:
        for x in a[1:]:
            if isinstance(x, T):
                mentions(x, f)
    for e in o.trace:
        for x in [e.recv] + [a[1] if isinstance(a, tuple) else a for a in e.args or ()]:
            if isinstance(x, T):
                mentions(x, f)
    return sorted(out, key=show)


@prop("C25")
def logout_effects(ck):
    ck.rule("C25.single", "logging out from a client ends that client session, whether or not the client is told", 1)
    ck.rule("C25.all", "logging out everywhere ends the sessions of all clients of the user", 1)
    ck.rule("C25.ends", "ending a client session revokes it and every grant in it", 3)
    ck.rule("C25.told", "clients with a logout URI are told: at the URI they registered, with a logout token from this provider to that client about "
            "that session, signed as the client registered", 4)
    ck.rule("C25.verified", "a confirmed logout logs out the session confirmed, everywhere only if asked to, and posts every logout token to its client", 2)
    ck.rule("C25.cookies", "the cookies that carry the login are emptied and expired", 1)
    SID = sym("SID")
    W = dict(watch={"pack", "revoke_client_session"}, more_opaque={"revoke_client_session"}, loop_track=True, **BIG)
    sinfo = lambda t: is_call(t, "get_session_info") and has_sub(t, SID)
    me = lambda t: is_key(t, "client_id", sinfo)
    n = 0
    for o in ck.run(SES, "logout_from_client", ["self", "SID"], **W):
        n += 1
        rv = [revokes(o, e) for e in events(o, "revoke_client_session")]
        ck.ob("C25.single", "session ended", SID in rv, "a logout leaves the client session as it was", o)
        told(ck, o, o.val, me, lambda t: t is SID)
    if n < 3:
        raise Broken("logout_from_client: %d paths" % n)
    n = 0
    for o in ck.run(SES, "logout_all_clients", ["self", "SID"], **dict(W, cap=3000, widen=30000)):
        subs = [a[1] for a, b in o.facts.items() if a[0] == "T" and b is True and is_subs(a[1], sinfo, "user_session_info")]
        if not subs:
            continue
        n += 1
        each = lambda t: t.k == "elem" and is_subs(t.a[0], sinfo, "user_session_info")
        rv = [revokes(o, e) for e in events(o, "revoke_client_session")]
        ok = any(v is not None and names_client(v, each, sinfo) for v in rv)
        early = [e for e in o.trace if e.kind == "early" and is_subs(e.recv, sinfo, "user_session_info")]
        ck.ob("C25.all", "sessions ended", ok, "a client's session survives logging out everywhere", o)
        ck.ob("C25.all", "every client", not early, "logging out everywhere stops at some client", o)
        told(ck, o, o.val, each, lambda t: t.k == "attr" and t.a[1] == "session_id" or names_client(t, each, sinfo))
    if not n:
        raise Broken("logout_all_clients does not go through clients")
    # what happens to one client does not depend on another
    n = 0
    two = dict(W, cap=6000, widen=100000, loop=2)
    two["more_opaque"] = {"revoke_client_session", "do_back_channel_logout", "do_front_channel_logout_iframe", "last_issued_token_of_type"}
    for o in ck.run(SES, "logout_all_clients", ["self", "SID"], **two):
        met = elems_of(o, lambda t: is_subs(t, sinfo, "user_session_info"))
        if len(met) < 2:
            continue
        n += 1
        rv = [revokes(o, e) for e in events(o, "revoke_client_session")]
        for m in met:
            ck.ob("C25.all", "sessions ended of two", any(v is not None and names_client(v, lambda t: t is m, sinfo) for v in rv), "a client's session survives logging out everywhere when another client is told", o)
    if not n:
        raise Broken("logout_all_clients: not two clients")
    # a client that is not registered any more is no reason not to log out
    cdb = lambda t: is_key(t, "cdb") or t.k == "attr" and t.a[1] == "cdb"
    for name, c in (("logout_from_client", "C25.single"), ("logout_all_clients", "C25.all")):
        gone = 0
        for o in ck.run(SES, name, ["self", "SID"], **dict(W, cap=3000, widen=30000, raises=True, partial=cdb)):
            if o.kind == "raise":
                lost = o.val.k == "exc" and o.val.a[0] == "KeyError" and [a for a, b in o.facts.items() if a[0] == "IN" and b is False and cdb(a[2])]
                ck.ob(c, name + " removed client", not lost, "a client that has been removed stops the logout", o)
            else:
                gone += 1
        if not gone:
            raise Broken("%s: no logout" % name)
    for o in ck.run(SES, "clean_sessions", ["self", "USIDS"], **W):
        U = sym("USIDS")
        if not any(a[0] == "T" and b is True and has_sub(a[1], U) for a, b in o.facts.items()):
            continue
        rv = [revokes(o, e) for e in events(o, "revoke_client_session")]
        ck.ob("C25.ends", "clean_sessions", any(v is not None and v.k == "elem" and has_sub(v, U) for v in rv)
              and not [e for e in o.trace if e.kind == "early"], "a session that is to end is not", o)
    for o in ck.run(SES, "clean_sessions", ["self", "USIDS"], **dict(W, loop=2)):
        rv = [revokes(o, e) for e in events(o, "revoke_client_session")]
        for m in elems_of(o, lambda t: t is sym("USIDS")):
            ck.ob("C25.ends", "clean_sessions of two", m in rv, "a session that is to end is not", o)
    # --- revoke_client_session
    D = lambda t: is_call(t, "decrypt_session_id") and has_sub(t, SID)
    n = 0
    for o in ck.run(SM, "revoke_client_session", ["self", "SID"], watch={"set", "revoke"}, watch_attrs={"revoked"},
                    loop_track=True, **BIG):
        marks = [e for e in o.trace if e.kind == "setattr" and e.name == "revoked" and truthy_const(e.arg("value"))]
        objs = [e.recv for e in marks + events(o, "revoke") if e.recv is not None]
        cs = [x for x in objs if client_path(x, D, 2)]
        ck.ob("C25.ends", "client session", bool(cs), "a client session is not marked revoked", o)
        gs = [a[1] for a, b in o.facts.items() if a[0] == "T" and b is True and a[1].k == "attr" and a[1].a[1] == "subordinate"]
        if gs:
            n += 1
            ok = any(client_path(x, D, 3) and mentions(x, lambda s: s.k == "elem" and s.a[0] in gs) for x in objs)
            ck.ob("C25.ends", "grants", ok and not [e for e in o.trace if e.kind == "early"], "a grant of a revoked client session stays valid", o)
    if not n:
        raise Broken("revoke_client_session does not go through grants")
    for cls in ("oidcop.session.info.SessionInfo", "oidcop.session.grant.Grant"):
        for o in ck.run(cls, "revoke", ["self"], watch_attrs={"revoked"}, **BIG):
            ok = truthy_const(o.st.ov.get(("a", SELF, "revoked")) or const(None)) or any(
                e.kind == "setattr" and e.name == "revoked" and truthy_const(e.arg("value")) for e in o.trace)
            ck.ob("C25.ends", cls.rpartition(".")[2] + ".revoke", ok, "revoke does not mark", o)
    # --- do_verified_logout
    n = 0
    ALLA = sym("ALLA")
    for o in ck.run(SES, "do_verified_logout", ["self", "SID", "ALLA"], watch={"post", "logout_all_clients", "logout_from_client"},
                    more_opaque={"logout_all_clients", "logout_from_client"}, loop_track=True, **BIG):
        a = o.facts.get(("T", ALLA))
        want = "logout_all_clients" if a is True else "logout_from_client"
        done = [e for e in o.trace if e.name in ("logout_all_clients", "logout_from_client")]
        ck.ob("C25.verified", "scope", len(done) == 1 and done[0].name == want and argn(done[0], "sid", 0) is SID,
              "a confirmed logout does %s" % [e.name for e in done], o)
        blu = lambda t: is_key(t, "blu") and is_call(t.a[0], want)
        some = any(x[0] == "T" and b is True and x[1].k != "item" and mentions(x[1], blu) and not mentions(x[1], lambda s: s.k == "elem")
                   for x, b in o.facts.items())
        if some:
            n += 1
            posts = [e for e in events(o, "post")]
            ok = any(mentions(argn(e, 0, "url"), blu) and mentions(argn(e, "data", 1), blu) for e in posts if argn(e, 0, "url") is not None
                     and argn(e, "data", 1) is not None)
            early = [e for e in o.trace if e.kind == "early"]
            ck.ob("C25.verified", "posted", ok and not early, "a logout token is not posted to its client", o)
    if not n:
        raise Broken("do_verified_logout posts nothing")
    # --- cookies
    n = 0
    for o in ck.run(SES, "kill_cookies", ["self"], **BIG):
        names = set()
        for l in layers(o, o.val):
            x = l[1]
            v, nm = kv(o, x, "value"), kv(o, x, "name")
            exp = kv(o, x, "expires")
            ma = kv(o, x, "max-age")
            gone = v is not None and is_const(v) and not cval(v) and (
                (exp is not None and is_const(exp) and "1970" in str(cval(exp))) or (ma is not None and is_const(ma) and cval(ma) in (0, "0")))
            if gone and nm is not None and nm.k == "item" and is_const(nm.a[1]):
                names.add(cval(nm.a[1]))
        n += 1
        ck.ob("C25.cookies", "kill_cookies", {"session", "session_management"} <= names, "cookies ended by logout: %s" % sorted(names), o)


def truthy_const(v):
    return v is not None and is_const(v) and bool(cval(v))


def is_subs(t, sinfo, key):
    if t is None:
        return False
    if t.k == "op" and t.a[0] in ("list", "tuple", "set", "sorted") and len(t.a) == 2:
        t = t.a[1]
    if t.k == "call" and t.a[0] in ("list", "sorted", "tuple") and t.a[2]:
        t = t.a[2][0]
    return t.k == "attr" and t.a[1] == "subordinate" and (is_key(t.a[0], key, sinfo) or is_call(t.a[0], "get_user_info", "get_user_session_info")
        or (is_call(t.a[0], "get") and len(_elems((t.a[0].a[2] + tuple(v for k, v in t.a[0].a[3]) + (const(0),))[0])) == 1))


def names_client(v, each, sinfo):
    """a session id made of the user and client"""
    return is_call(v, "encrypted_session_id") and mentions(v, each) and mentions(v, lambda s: is_key(s, "user_id", sinfo))


def client_path(x, D, n):
    """self.get([user, client(, grant)]) of the session"""
    x = x.a[0] if x.k == "attr" else x
    if not (is_call(x, "get", "__getitem__") and x.a[2] + tuple(v for k, v in x.a[3])):
        return False
    p = (x.a[2] + tuple(v for k, v in x.a[3]))[0]
    el = _elems(p)
    return len(el) == n and el[0].k == "item" and D(el[0].a[0]) and el[1].k == "item" and D(el[1].a[0]) and [
        cval(e.a[1]) for e in el[:2] if is_const(e.a[1])] == [0, 1]


def told(ck, o, res, client, session):
    """what the clients of a logout are told"""
    cdb = lambda t: t.k == "item" and client(t.a[1]) and mentions(t.a[0], lambda s: s.k == "attr" and s.a[1] == "cdb")
    has = {u: any(a[0] == "IN" and b is True and is_const(a[1]) and cval(a[1]) == u and cdb(a[2]) for a, b in o.facts.items())
           for u in ("backchannel_logout_uri", "frontchannel_logout_uri")}
    for e in events(o, "pack"):
        if cls_of(o, e.recv) != "JWT":
            continue
        j = jwt_maker(o, e.recv)
        ck.ob("C25.told", "issuer", j.get("iss") is not None and is_issuer(j["iss"]), "a logout token of another issuer", o)
        alg = j.get("sign_alg")
        ok = alg is not None and (is_key(alg, "id_token_signed_response_alg", cdb) or (
            mentions(alg, lambda s: is_key(s, "id_token_signing_alg_values_supported")) and any(
                a[0] == "IN" and b is False and is_const(a[1]) and cval(a[1]) == "id_token_signed_response_alg"
                or a[0] == "T" and b is False and is_key(a[1], "id_token_signed_response_alg", cdb) for a, b in o.facts.items())))
        ck.ob("C25.told", "algorithm", ok, "a logout token is signed with %s" % (show(alg)[:80] if alg is not None else "?"), o)
        rc = argn(e, "recv", 1)
        ok = rc is not None and (client(rc) or is_key(rc, "client_id", cdb))
        ck.ob("C25.told", "audience", ok, "a logout token is addressed to %s" % (show(rc)[:80] if rc is not None else "nobody"), o)
        pl = argn(e, "payload", 0)
        sid = val(o, pl, "sid") if pl is not None and pl.k == "alloc" else None
        ck.ob("C25.told", "session", sid is not None and session(sid), "a logout token is about %s" % (show(sid)[:80] if sid is not None else "no session"), o)
        ev = val(o, pl, "events") if pl is not None and pl.k == "alloc" else None
        ck.ob("C25.told", "event", ev is not None and deep_has(o, ev, lambda s: "backchannel-logout" in show(s) or "BACK_CHANNEL_LOGOUT_EVENT" in show(s)),
              "a logout token does not say it is one", o)
    blu = kv(o, res, "blu") if res.k == "alloc" else None
    flu = kv(o, res, "flu") if res.k == "alloc" else None
    packed = events(o, "pack")
    if packed or has["backchannel_logout_uri"] and client_is_told(o):
        ok = blu is not None and deep_has(o, blu, lambda s: is_call(s, "pack")) and deep_has(
            o, blu, lambda s: is_key(s, "backchannel_logout_uri", cdb)) and any(
            l[0] == "kv" and client(l[1]) for l in layers(o, blu))
        ck.ob("C25.told", "back channel", ok, "a logout token is not returned for the client it is for", o)
    elif has["frontchannel_logout_uri"] and client_is_told(o):
        ok = flu is not None and deep_has(o, flu, lambda s: is_key(s, "frontchannel_logout_uri", cdb)) and any(
            l[0] == "kv" and client(l[1]) for l in layers(o, flu))
        ck.ob("C25.told", "front channel", ok, "no iframe for a client with a front-channel logout URI", o)


def client_is_told(o):
    """not a client without ID Token or authentication in a logout from all"""
    return not any(b is False and a[0] in ("T", "EQ") and mentions(a[1], lambda s: s.k == "attr" and s.a[1] in (
        "subordinate", "authentication_event", "issued_token", "token_class") or is_key(s, "backchannel_logout_uri")) for a, b in o.facts.items()) and not any(
        a[0] == "NONE" and b is True for a, b in o.facts.items())
