"""DPoP: binding tokens to a key whose possession has been proven."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .claims import final, val
from .registration import key_of, none_of, one_of
from .session import argn, call_arg
from .tokens import is_grant

MOD = "oidcop.oauth2.add_on.dpop"
PROOF = MOD + ".DPoPProof"
BIG = dict(cap=400, widen=3000)
HDR = sym("HDR")
JKT = const("dpop_jkt")


def header_of(t):
    """headers["jwk"] of the proof"""
    return is_key(t, "jwk", lambda b: b.k == "attr" and b.a[1] == "headers" and has_sub(b, HDR))


def key_from(t, pred):
    return is_call(t, "key_from_jwk_dict") and any(pred(x) for x in list(t.a[2]) + [v for _, v in t.a[3]])


def key_from_list(o, ks):
    """keys=[key_from_jwk_dict(headers["jwk"])]"""
    ls = layers(o, ks)
    if ls:
        return len(ls) == 1 and ls[0][0] == "i" and key_from(ls[0][1], header_of)
    xs = [s for s in subterms(ks) if is_call(s, "key_from_jwk_dict")]
    return len(xs) == 1 and key_from(xs[0], header_of) and not any(s.k == "attr" and s.a[1] == "keyjar" for s in subterms(ks))


@prop("C20")
def dpop(ck):
    ck.rule("C20.signature", "a proof is returned only after its signature has been verified with the key in its header and nothing else", 2)
    ck.rule("C20.header", "what the proof says about its key, type and algorithm is what the protected header says, never the payload", 3)
    ck.rule("C20.verify", "a proof must be of type dpop+jwt and signed with an algorithm other than none", 2)
    ck.rule("C20.proof", "a request is given a key only from a verified proof for this URL and method, signed with a supported algorithm; what the "
            "request itself says is dropped", 4)
    ck.rule("C20.hook", "the proof is checked for every request at the token endpoint", 1)
    ck.rule("C20.bind", "when a key was proven the grant of the presented code or token is bound to it before tokens are minted, and the token type is DPoP", 6)
    ck.rule("C20.cnf", "a token minted in a bound grant names the key, whatever else is put in it", 1)
    # --- verify_header
    outs = ck.run(PROOF, "verify_header", ["self", "HDR"], raises=True, log_puts=True, watch={"verify_compact", "verify_compact_verbose"},
                  watch_attrs={"key"}, **BIG)
    n = 0
    for o in outs:
        if not success(o):
            continue
        n += 1
        ck.ob("C20.signature", "verify_header", any(key_from_list(o, ks) for ks in
                                                                (argn(e, "keys", 1) for e in o.trace if e.name.startswith("verify_compact")) if ks is not None),
              "a proof is accepted without having been verified with the key it names", o)
        ck.ob("C20.signature", "verify_header:result", o.val is SELF or cls_ok(o, o.val), "", o)
    if n < 1:
        raise Broken("verify_header never accepts")
    for p in ck.puts:
        if p.base is not SELF and p.base is not None and p.base.k != "alloc":
            continue
        src = p.val if p.val is not None else const(None)
        payload = mentions(src, lambda t: is_call(t, "verify_compact", "verify_compact_verbose")) or mentions(
            src, lambda t: t.k == "call" and t.a[0] in ("payload",))
        if not payload:
            header = mentions(src, lambda t: t.k == "attr" and t.a[1] == "headers")
            ck.ob("C20.header", "%s:header" % p.site.rpartition(" ")[2], header or is_const(src) or p.base is not SELF,
                  "the proof gets values that are neither from header nor payload: %s" % show(src)[:80], p, p.site)
            continue
        if p.key is None:
            ck.ob("C20.header", "verify_header:payload", False, "the whole payload replaces what the header says", p, p.site)
            continue
        for name in ("jwk", "alg", "typ"):
            k = key_of(p, p.key)
            ok = (k is not None and k != name) or none_of(p, lambda t: t is p.key, {name})
            ck.ob("C20.header", "verify_header:payload %s" % name, ok, "the payload can replace %s of the header" % name, p, p.site)
    for o in outs:
        v = o.st.ov.get(("a", SELF, "key"))
        if v is not None and o.kind == "return":
            ck.ob("C20.header", "verify_header:key", key_from(v, header_of) or (is_const(v) and not cval(v)), "the key is %s" % show(v)[:100], o)
    # --- verify
    for o in ck.run(PROOF, "verify", ["self"], **BIG):
        it = lambda k: lambda t: is_key(t, k, lambda b: b is SELF)
        ck.ob("C20.verify", "DPoPProof.verify:typ", one_of(o, it("typ"), {"dpop+jwt"}), "the type of the proof is not checked", o)
        ck.ob("C20.verify", "DPoPProof.verify:alg", none_of(o, it("alg"), {"none"}), "the algorithm none is accepted", o)
    # --- the request
    m = 0
    for o in ck.run(MOD + ".post_parse_request", None, ["REQ", "CLIENT", "CTX"], binds={"endpoint_context": CTX}, raises=True,
                    watch={"verify", "verify_header"}, more_opaque={"verify", "verify_header"}, **BIG):
        if o.kind != "return" or is_error_val(o, o.val):
            continue
        v = o.st.ov.get(("i", REQ, JKT))
        absent = v is not None and v.k == "call" and v.a[0] == "deleted" or (v is not None and show(v) == "deleted()") or (
            v is None and (facts_of(o).get(("IN", JKT, REQ)) is False or facts_of(o).get(("T", item(REQ, JKT))) is False))
        if absent:
            continue
        m += 1
        con = "post_parse_request"
        if v is None:
            ck.ob("C20.proof", con + ":parameter", False, "the dpop_jkt parameter of the request is believed", o)
            continue
        th = [s for s in subterms(v) if is_call(s, "thumbprint")]
        pr = proof_of(th[0].a[1]) if len(th) == 1 else None
        ck.ob("C20.proof", con + ":key", pr is not None, "the request is bound to %s" % show(v)[:120], o)
        if pr is None:
            continue
        f = lambda name: lambda t: is_key(t, name, lambda b: b is pr)
        h = lambda name: lambda t: is_key(t, name, lambda b: has_sub_key(b, "http_info"))
        ck.ob("C20.proof", con + ":htu", has_eq(o, f("htu"), h("url")), "the proof may be for another URL", o)
        ck.ob("C20.proof", con + ":htm", has_eq(o, f("htm"), h("method")), "the proof may be for another method", o)
        ck.ob("C20.proof", con + ":verified", any(e.name == "verify" and e.recv is pr for e in o.trace), "type and algorithm of the proof are not verified", o)
        ck.ob("C20.proof", con + ":alg", any(a[0] == "IN" and b is True and f("alg")(a[1]) and mentions(
            a[2], lambda s: is_const(s) and cval(s) == "dpop_signing_alg_values_supported") for a, b in o.facts.items()),
            "the proof may be signed with an algorithm that is not supported", o)
        hdr = call_arg(pr, "dpop_header", 0)
        ck.ob("C20.proof", con + ":header", hdr is not None and is_key(hdr, "dpop", lambda b: is_key(b, "headers")), "the proof is %s" % (show(hdr)[:80] if hdr is not None else None), o)
    if m < 1:
        raise Broken("no request is ever bound to a key")
    # --- the hook
    hooked = False
    for o in ck.run(MOD + ".add_support", None, ["ENDP"], watch={"append", "insert"}, watch_fn=lambda kind, name, recv, it, st: kind == "mutate", **BIG):
        ok = any(e.recv is not None and e.recv.k == "attr" and e.recv.a[1] == "post_parse_request" and is_key(e.recv.a[0], "token")
                 and any(mentions(v, lambda s: s.k in ("func", "fn", "global") or "post_parse_request" in show(s)) for _, v in e.args) for e in o.trace)
        ck.ob("C20.hook", "add_support", ok, "proofs are not checked at the token endpoint", o)
    # --- the grant
    for cls, key in (("oidcop.oidc.token.AccessTokenHelper", "code"), ("oidcop.oidc.token.RefreshTokenHelper", "refresh_token"),
                     ("oidcop.oauth2.token.RefreshTokenHelper", "refresh_token")):
        nm = cls[7:]
        jk = item(REQ, JKT)
        facts = {("IN", JKT, REQ): True, ("T", jk): True, ("T", attr(CTX, "dpop_enabled")): True,
                 ("IN", const("dpop_signing_alg_values_supported"), attr(CTX, "provider_info")): True}
        base = dict(raises=True, more_opaque={"find_scope"}, watch={"mint_token", "_mint_token"}, log_puts=True, ignore_attrs={"expires_at"},
                    ignore_keys={"expires_in"}, ev_args={"mint_token": {"token_class", "token_type"}, "_mint_token": {"token_class", "token_type"}},
                    keep=lambda at: any("dpop" in show(t) for t in at[1:]), loop=0, **BIG)
        outs = ck.run(cls, "process_request", ["self", "REQ"], facts=facts, **base)
        puts = [p for p in ck.puts if p.key is JKT and p.base is not None and p.base.k == "attr" and p.base.a[1] == "extra"]
        for p in puts:
            ck.ob("C20.bind", nm + ":value", p.val is jk, "a grant is bound to %s" % show(p.val)[:100], p, p.site)
            ck.ob("C20.bind", nm + ":grant", is_grant(p.base.a[0], key), "another grant is bound: %s" % show(p.base)[:120], p, p.site)
            ck.ob("C20.bind", nm + ":before", not any(e.name in ("mint_token", "_mint_token") for e in p.trace), "tokens are minted before the grant is bound", p, p.site)
        for o in outs:
            if not any(e.name in ("mint_token", "_mint_token") for e in o.trace):
                continue
            ck.ob("C20.bind", nm + ":bound", any(k[0] == "i" and k[2] is JKT and k[1].k == "attr" and k[1].a[1] == "extra" for k in o.st.ov),
                  "a key was proven but the grant is not bound to it", o)
            for e in events(o, "_mint_token"):
                if e.arg("token_class") is const("access_token"):
                    tt = e.arg("token_type")
                    ck.ob("C20.bind", nm + ":type", tt is const("DPoP"), "the access token of a bound grant is of type %s" % (show(tt) if tt is not None else None), o, e.site)
        # without a proof nothing is bound
        facts = {("IN", JKT, REQ): False}
        ck.run(cls, "process_request", ["self", "REQ"], facts=facts, **base)
        for p in ck.puts:
            if p.key is JKT and p.base is not None and p.base.k == "attr" and p.base.a[1] == "extra":
                ck.ob("C20.bind", nm + ":unproven", is_const(p.val) and not cval(p.val), "a grant is bound to a key although none was proven", p, p.site)
    # --- the token
    ex = item(attr(SELF, "extra"), JKT)
    k = 0
    for o in ck.run("oidcop.session.grant.Grant", "payload_arguments", ["self", "SID", "CTX"], binds={"endpoint_context": CTX},
                    facts={("T", ex): True, ("IN", JKT, attr(SELF, "extra")): True}, more_opaque={"get_claims", "get_user_claims", "add_acr_value"},
                    **BIG):
        if o.kind != "return":
            continue
        k += 1
        c = val(o, o.val, "cnf")
        ok = c is not None and val(o, c, "jkt") is ex
        ck.ob("C20.cnf", "Grant.payload_arguments", ok, "a token of a bound grant does not name the key", o)
    if k < 1:
        raise Broken("payload_arguments never returns")


def cls_ok(o, t):
    return t.k == "alloc" and (o.st.heap[t].cls or "").endswith("DPoPProof") if t.k == "alloc" and t in o.st.heap else False


def has_sub_key(t, key):
    return mentions(t, lambda s: is_key(s, key))


def proof_of(t):
    """the proof a key belongs to: P.key or key_from_jwk_dict(P["jwk"])"""
    if t is None:
        return None
    if t.k == "attr" and t.a[1] == "key" and is_call(t.a[0], "verify_header"):
        return t.a[0]
    if is_call(t, "key_from_jwk_dict"):
        for x in list(t.a[2]) + [v for _, v in t.a[3]]:
            if is_key(x, "jwk", lambda b: is_call(b, "verify_header")):
                return x.a[0]
    return None
