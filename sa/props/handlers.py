"""Token handlers: what a token is made of and when it is recognised."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .claims import val
from .session import argn, call_arg, cls_of
from .store import exposed

DT = "oidcop.token.DefaultToken"
JT = "oidcop.token.jwt_token.JWTToken"
IT = "oidcop.token.id_token.IDToken"
TH = "oidcop.token.handler.TokenHandler"
SM = "oidcop.session.manager.SessionManager"
BIG = dict(cap=400, widen=3000)
TOK, SID = sym("TOK"), sym("SID")
CLASS = attr(SELF, "token_class")
LIFE = attr(SELF, "lifetime")
RULES = sym("RULES")


def zipped(o, t):
    """names, unpacked of zip(names, unpacked), possibly through dict()/list()"""
    xs = t.a[2] if is_call(t, "zip") else t.a[1:] if t.k == "op" and t.a[0] == "zip" else ()
    if len(xs) == 2:
        ns, u = xs
        if ns.k == "tuple":
            return tuple(ns.a), u
        ls = layers(o, ns)
        if ls and all(l[0] == "i" for l in ls):
            return tuple(l[1] for l in ls), u
    return None, None


def intlike(t):
    while t is not None:
        if is_call(t, "int", "str", "as_unicode") and t.a[2]:
            t = t.a[2][0]
        elif t.k == "op" and t.a[0] in ("int", "str", "fmt") and len(t.a) == 2:
            t = t.a[1]
        else:
            break
    return t


def pos(o, t):
    """which part of the unpacked content of a token a term is"""
    t = intlike(t)
    if t is None or t.k != "item" or not is_const(t.a[1]):
        return None
    b, k = t.a
    if is_call(b, "lv_unpack") and isinstance(cval(k), int):
        return cval(k)
    ns, u = zipped(o, b)
    if ns is not None and is_call(u, "lv_unpack"):
        for i, n in enumerate(ns):
            if n is k:
                return i
    return None


def now(t):
    return is_call(t, "utc_time_sans_frac", "time_sans_frac") and not t.a[2]


def unexpired(o, isexp):
    """the path excludes that the time isexp has passed"""
    for a, b in o.facts.items():
        if a[0] == "IN" and b is False and is_const(a[1]) and isexp(item(a[2], a[1])):
            return True  # lives for ever
        if a[0] == "LT":
            if isexp(a[1]) and is_const(a[2]) and cval(a[2]) == 0 and b is True:
                return True
            if isexp(a[1]) and now(a[2]) and b is False:
                return True
            if now(a[1]) and isexp(a[2]) and b is True:
                return True
        if a[0] == "EQ" and b is True and (isexp(a[1]) and a[2] is const("-1") or isexp(a[2]) and a[1] is const("-1")):
            return True
        if a[0] == "VAL" and isexp(a[1]) and cval(b) in ("-1", -1):
            return True
    return False


def own_class(o, pred):
    own = lambda x: x is CLASS or x is attr(SELF, "alt_token_name")
    return has_eq(o, pred, own) or any_fact(o, "IN", lambda x, c: pred(x) and all(own(l[1]) for l in layers(o, c)) and layers(o, c))


def lifetime_of(o, t):
    """self.lifetime, or what the usage rules say when they say anything"""
    while t is not None and (is_call(t, "int") or t.k == "op" and t.a[0] == "int"):
        t = t.a[2][0] if t.k == "call" else t.a[1]
    rule = item(RULES, const("expires_in"))
    if t is rule or is_call(t, "get") and t.a[1] is RULES and t.a[2] and t.a[2][0] is const("expires_in"):
        return True
    if t is LIFE:
        f = o.facts
        return (f.get(("T", RULES)) is False or f.get(("NONE", RULES)) is True or f.get(("T", rule)) is False or f.get(("NONE", rule)) is True
                or f.get(("IN", const("expires_in"), RULES)) is False)
    return False


def addends(t):
    if t.k == "op" and t.a[0] in ("add", "Add"):
        return addends(t.a[1]) + addends(t.a[2])
    return (t,)


@prop("C08")
def recognised(ck):
    ck.rule("C08.open", "what an opaque token says is believed only after authenticated decryption with the key of the handler", 4)
    ck.rule("C08.class", "a token is recognised only by the handler of the class it was made for, and it is of that class", 6)
    ck.rule("C08.time", "a token is not recognised after its lifetime", 3)
    ck.rule("C08.make", "a token names its session, class and end of life, sealed or signed by the OP, and nothing the claims say changes that", 6)
    ck.rule("C08.jwt", "a JWT token is believed only if it is signed, by the OP, with the algorithm of the handler", 4)
    ck.rule("C08.lookup", "what is said about a token, and its session, is what a handler that recognised it says; otherwise it is unknown", 4)
    ck.rule("C08.keys", "every class of token has its own handler, with its own key", 4)
    unsealed = lambda t: is_call(t, "decrypt") and has_sub(t, TOK) and mentions(t.a[1], lambda s: s is attr(SELF, "crypt"))
    # --- DefaultToken
    n = 0
    positions = {}
    for o in ck.run(DT, "info", ["self", "TOK"], raises=True, more_opaque={"lv_unpack"}, **BIG):
        if o.kind != "return":
            continue
        n += 1
        sid, cl = val(o, o.val, "sid"), val(o, o.val, "token_class")
        ck.ob("C08.open", "DefaultToken.info:sid", sid is not None and mentions(sid, unsealed) and not exposed(sid, lambda t: t is TOK, unsealed),
              "the session of a token is %s" % (show(sid)[:100] if sid is not None else None), o)
        positions.setdefault("sid", set()).add(pos(o, sid))
        ck.ob("C08.class", "DefaultToken.info:class", cl is CLASS or own_class(o, lambda t: t is cl), "a token is taken to be of class %s" % (show(cl)[:80] if cl is not None else None), o)
        sealed_class = [t for x, y in eq_pairs(o) for t in (x, y) if pos(o, t) is not None]
        sealed_class += [a[1] for a, b in o.facts.items() if a[0] == "IN" and b is True and pos(o, a[1]) is not None]
        ck.ob("C08.class", "DefaultToken.info:sealed", any(own_class(o, lambda t, s=s: t is s) for s in sealed_class), "the class inside the token is not compared", o)
        positions.setdefault("class", set()).update(pos(o, s) for s in sealed_class if own_class(o, lambda t, s=s: t is s))
        isexp = lambda t: mentions(t, lambda s: pos(o, s) is not None and mentions(s, unsealed))
        ck.ob("C08.time", "DefaultToken.info", unexpired(o, isexp), "a token past its lifetime is recognised", o)
        for a, b in o.facts.items():
            if a[0] == "LT":
                positions.setdefault("exp", set()).update(pos(o, s) for x in a[1:] for s in [x] if pos(o, s) is not None)
    if not n:
        raise Broken("DefaultToken.info never recognises a token")
    made = {}
    ciph = lambda t: is_call(t, "encrypt") and mentions(t.a[1], lambda s: s is attr(SELF, "crypt"))
    for o in ck.run(DT, "__call__", ["self", "SID"], binds={"token_class": const(""), "usage_rules": RULES}, facts={("T", CLASS): True}, more_opaque={"lv_pack"}, **BIG):
        ck.ob("C08.open", "DefaultToken.__call__:clear", not exposed(o.val, lambda t: t is SID or t is CLASS, ciph), "what the token says is readable", o)
        packs = {s for s in subterms(o.val) if is_call(s, "lv_pack")}
        ck.ob("C08.make", "DefaultToken.__call__:content", len(packs) == 1 and all(ciph_has(o.val, s, ciph) for s in packs), "the token is %s" % show(o.val)[:100], o)
        for s in packs:
            xs = s.a[2]
            ix = [i for i, x in enumerate(xs) if x is SID]
            ic = [i for i, x in enumerate(xs) if x is CLASS]
            ie = [i for i, x in enumerate(xs) if end_of_life(o, x)]
            ck.ob("C08.make", "DefaultToken.__call__:session", len(ix) == 1, "the token does not name its session", o)
            ck.ob("C08.make", "DefaultToken.__call__:class", len(ic) == 1, "the token does not say the class of the handler", o)
            ck.ob("C08.make", "DefaultToken.__call__:time", len(ie) == 1, "the token does not live as long as configured", o)
            ck.ob("C08.make", "DefaultToken.__call__:unique", any(has_call(x, "rndstr", "token_urlsafe", "token_hex", "token_bytes", "uuid4", "urandom") for x in xs),
                  "two tokens of a session can be the same", o)
            for k_, v_ in (("sid", ix), ("class", ic), ("exp", ie)):
                made.setdefault(k_, set()).update(v_)
    for k_ in ("sid", "class", "exp"):
        got = {x for x in positions.get(k_, ()) if x is not None}
        ck.ob("C08.make", "order:%s" % k_, got <= made.get(k_, set()) or not made.get(k_), "%s is read from place %s but written to %s" % (k_, sorted(got), sorted(made.get(k_, ()))))
    # --- JWTToken
    jwts(ck, JT, lambda t: t is attr(SELF, "issuer"), "JWTToken.info", True)
    jwts(ck, IT, lambda t: t is attr(CTX, "issuer"), "IDToken.info", False)
    for o in ck.run(JT, "__call__", ["self", "SID"], binds={"token_class": const(""), "usage_rules": RULES}, facts={("T", CLASS): True}, watch_ctor={"JWT"}, watch={"pack"}, **BIG):
        con = "JWTToken.__call__"
        pk = events(o, "pack")
        ok = len(pk) == 1 and mentions(o.val, lambda s: is_call(s, "pack"))
        ck.ob("C08.make", con + ":packed", ok, "the token is %s" % show(o.val)[:100], o)
        if not ok:
            continue
        payload = argn(pk[0], "payload", "0") if argn(pk[0], "payload", "0") is not None else argn(pk[0], 0)
        sid, cl = fld(o, payload, "sid"), fld(o, payload, "token_class")
        ck.ob("C08.make", con + ":session", sid is SID, "the token names the session %s" % (show(sid)[:80] if sid is not None else None), o)
        ck.ob("C08.make", con + ":class", cl is CLASS, "the token says it is of class %s" % (show(cl)[:80] if cl is not None else None), o)
        for e in events(o, "JWT"):
            ck.ob("C08.make", con + ":issuer", argn(e, "iss") is attr(SELF, "issuer"), "issuer is not that of the OP", o)
            ck.ob("C08.make", con + ":key", argn(e, "key_jar") is attr(CTX, "keyjar"), "keys are not those of the OP", o)
            ck.ob("C08.make", con + ":alg", argn(e, "sign_alg") is attr(SELF, "alg") and argn(e, "sign") in (None, const(True)), "not signed with the algorithm of the handler", o)
            lt = argn(e, "lifetime")
            ck.ob("C08.make", con + ":time", lt is not None and (lifetime_of(o, lt) or is_const(lt) and cval(lt) == 0 and any(
                b is True and lifetime_of(o, a[1]) and (a[0] == "NONE" or a[0] == "LT" and is_const(a[2]) and cval(a[2]) == 0) for a, b in o.facts.items())),
                  "the token does not live as long as configured: %s" % (show(lt) if lt is not None else None), o)
    # --- TokenHandler
    k = 0
    for nm in ("get_handler", "info"):
        for o in ck.run(TH, nm, ["self", "TOK"], raises=True, **BIG):
            if o.kind != "return":
                continue
            hs = list(o.val.a) if o.val.k == "tuple" else [None, o.val]
            if len(hs) == 2 and all(h is not None and is_const(h) and cval(h) is None for h in hs) and nm == "get_handler":
                continue
            h, i = hs if len(hs) == 2 else (None, None)
            ok = i is not None and is_call(i, "info") and call_arg(i, "token", 0) is TOK and i.a[1] is not None and handler_elem(i.a[1]) and (h is None or h is i.a[1])
            k += 1
            ck.ob("C08.lookup", "TokenHandler.%s" % nm, ok, "an unknown token is taken to be %s" % show(o.val)[:120], o)
    unknown = [o for o in ck.run(TH, "info", ["self", "TOK"], raises=True, **BIG) if o.kind == "raise" and "UnknownToken" in show(o.val)[:80]]
    ck.ob("C08.lookup", "TokenHandler.info:unknown", bool(unknown), "a token no handler knows is not refused")
    for nm, key in (("get_session_info_by_token", True), ("get_session_id_by_token", False)):
        for o in ck.run(SM, nm, ["self", "TOK"], raises=True, expose={"get_session_info_by_token"}, more_opaque={"TokenHandler.info", "_compatible_sid"}, **BIG):
            if o.kind != "return":
                continue
            t = o.val
            if key:
                ok = is_call(t, "get_session_info") and t.a[1] is SELF
                t = call_arg(t, "session_id", 0) if ok else None
            said = lambda s: is_key(s, "sid", lambda b: is_call(b, "info") and call_arg(b, "item", "token", 0) is TOK and mentions(b.a[1], lambda r: r is attr(SELF, "token_handler")))
            ck.ob("C08.lookup", nm, t is not None and mentions(t, said) and not exposed(t, lambda s: s is TOK, said), "the session of a token is %s" % (show(t)[:100] if t is not None else None), o)
    # --- factory
    conf = {"CODE": "authorization_code", "TOKEN": "access_token", "REFRESH": "refresh_token"}
    pairs, kids, handlers = set(), {}, {}
    for o in ck.run("oidcop.token.handler.factory", None, ["SG", "CODE", "TOKEN", "REFRESH", "IDT"], watch={"init_token_handler", "_add_passwd", "default_token"},
                    watch_ctor={"TokenHandler"}, more_opaque={"init_token_handler", "_add_passwd", "default_token"}, cap=900, widen=3000):
        for c, cl in conf.items():
            inits = [e for e in events(o, "init_token_handler") if argn(e, "spec", "1") is sym(c)]
            if o.facts.get(("NONE", sym(c))) is True:
                continue
            ck.ob("C08.keys", "factory:%s" % cl, len(inits) == 1 and argn(inits[0], "token_class", "2") is const(cl), "tokens of class %s are made by another handler" % cl, o)
            pw = [e for e in events(o, "_add_passwd") if argn(e, "conf", "1") is sym(c)]
            if any(a[0] == "T" and is_call(a[1], "default_token") and has_sub(a[1], sym(c)) and b is True for a, b in o.facts.items()):
                ck.ob("C08.keys", "factory:%s key" % cl, len(pw) == 1, "no key is set for %s" % cl, o)
            for e in pw:
                kid = argn(e, "kid", "2")
                kids.setdefault(cl, set()).add(show(kid))
            for e in events(o, "TokenHandler"):
                h = argn(e, cl)
                ck.ob("C08.keys", "factory:%s handler" % cl, h is not None and is_call(h, "init_token_handler") and has_sub(h, sym(c)), "the handler of %s is %s" % (cl, show(h)[:80] if h is not None else None), o)
    allk = [x for s in kids.values() for x in s]
    ck.ob("C08.keys", "factory:distinct", len(kids) == 3 and len(set(allk)) == len(allk), "the classes share keys: %s" % sorted(kids.items()))
    for o in ck.run("oidcop.token.handler._add_passwd", None, ["KJ", "CONF", "KID"], watch={"get_encrypt_key"}, log_puts=True, **BIG):
        pass
    for p in ck.puts:
        if p.key is const("password"):
            ck.ob("C08.keys", "_add_passwd", p.val is not None and mentions(p.val, lambda s: is_call(s, "get_encrypt_key", "get", "get_signing_key") and has_sub(s, sym("KID")) and has_sub(s.a[1], sym("KJ"))),
                  "the key is %s" % show(p.val)[:100], p, p.site)
    for o in ck.run(TH, "__init__", ["self", "A", "C", "R", "I"], **BIG):
        hd = o.st.ov.get(("a", SELF, "handler"))
        for cl, s in (("access_token", "A"), ("authorization_code", "C"), ("refresh_token", "R"), ("id_token", "I")):
            v = val(o, hd, cl) if hd is not None else None
            ck.ob("C08.keys", "TokenHandler.__init__:%s" % cl, v is sym(s) or (v is None or is_const(v)) and o.facts.get(("T", sym(s))) is False, "the handler of %s is %s" % (cl, show(v)[:60] if v is not None else None), o)


def fld(o, t, key):
    v = o.st.ov.get(("i", t, const(key)))
    return v if v is not None else val(o, t, key)


def handler_elem(t):
    """self.handler[<one of the order>]"""
    return t.k == "item" and t.a[0] is attr(SELF, "handler") or is_call(t, "get", "__getitem__") and t.a[1] is attr(SELF, "handler")


def ciph_has(t, s, ciph):
    return not exposed(t, lambda x: x is s, ciph)


def end_of_life(o, t):
    while t is not None and (is_call(t, "str") or t.k == "op" and t.a[0] in ("str", "fmt") and len(t.a) == 2):
        t = t.a[2][0] if t.k == "call" else t.a[1]
    if is_const(t):
        return cval(t) in ("-1", -1) and any(a[0] == "LT" and lifetime_of(o, a[1]) and is_const(a[2]) and cval(a[2]) == 0 and b is True for a, b in o.facts.items())
    xs = addends(t)
    return len(xs) == 2 and sum(now(x) for x in xs) == 1 and any(lifetime_of(o, x) for x in xs)


def jwts(ck, cls, issuer, con, classed):
    n = 0
    for o in ck.run(cls, "info", ["self", "TOK"], raises=True, watch_ctor={"JWT"}, watch={"unpack"}, more_opaque={"get_sign_and_encrypt_algorithms", "payload"}, **BIG):
        if o.kind != "return":
            continue
        n += 1
        sid = val(o, o.val, "sid")
        up = lambda t: is_call(t, "unpack") and call_arg(t, "token", 0) is TOK and cls_of(o, t.a[1]) == "JWT"
        key = lambda k: lambda t: is_key(t, k, up)
        ck.ob("C08.jwt", con + ":sid", sid is not None and (key("sid")(sid) or is_const(sid) and not cval(sid)), "the session of a token is %s" % (show(sid)[:100] if sid is not None else None), o)
        ck.ob("C08.jwt", con + ":signed", any(a[0] in ("T", "NONE") and is_call(a[1], "factory") and has_sub(a[1], TOK) and b is (a[0] == "T") for a, b in o.facts.items()),
              "a token that is not signed is believed", o)
        ck.ob("C08.jwt", con + ":issuer", has_eq(o, key("iss"), issuer), "a token signed by anyone whose keys are known is believed", o)
        jw = events(o, "JWT")
        for e in jw:
            ck.ob("C08.jwt", con + ":keys", argn(e, "key_jar") is attr(CTX, "keyjar"), "not verified with the keys of the OP", o)
            al = argn(e, "allowed_sign_algs")
            ok = al is not None and (al is attr(SELF, "alg") or [l[1] for l in layers(o, al)] == [attr(SELF, "alg")] or al.k == "tuple" and al.a == (attr(SELF, "alg"),)
                                     or not classed and is_key(al, "sign_alg", lambda b: is_call(b, "get_sign_and_encrypt_algorithms")))
            ck.ob("C08.jwt", con + ":alg", ok, "any algorithm will do", o)
        ck.ob("C08.jwt", con + ":verified", bool(jw), "the signature is not verified", o)
        ck.ob("C08.time", con, unexpired(o, lambda t: key("exp")(t)), "a token past its lifetime is recognised", o)
        if classed:
            cl = val(o, o.val, "token_class")
            ck.ob("C08.class", con + ":class", cl is CLASS or cl is not None and own_class(o, lambda t: t is cl), "a token is taken to be of class %s" % (show(cl)[:80] if cl is not None else None), o)
            ck.ob("C08.class", con + ":sealed", own_class(o, key("token_class")) or own_class(o, key("ttype")), "the class the token was made for is not compared", o)
        else:
            cl = val(o, o.val, "token_class")
            ck.ob("C08.class", con + ":class", cl is None or cl is const("id_token"), "an ID Token is taken to be of class %s" % (show(cl)[:80] if cl is not None else None), o)
    if not n:
        raise Broken("%s never recognises a token" % con)
