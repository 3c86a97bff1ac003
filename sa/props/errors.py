"""What is not accepted is answered with a protocol error."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .claims import final

BIG = dict(cap=400, widen=3000)
TOK = "oidcop.token.exception."
FAILS = (TOK + "UnknownToken", TOK + "WrongTokenClass", "oidcop.exception.ToOld", "KeyError", "ValueError",
         "oidcop.session.database.NoSuchGrant", "oidcop.session.database.NoSuchClientSession")
LOOKUP = "get_session_info_by_token"
REQ = sym("REQ")
ENTRY = (
    ("oidcop.oauth2.token.AccessTokenHelper", "post_parse_request", ["self", "REQ", "CID"], {}),
    ("oidcop.oidc.token.AccessTokenHelper", "post_parse_request", ["self", "REQ", "CID"], {}),
    ("oidcop.oauth2.token.RefreshTokenHelper", "post_parse_request", ["self", "REQ", "CID"], {}),
    ("oidcop.oidc.token.RefreshTokenHelper", "post_parse_request", ["self", "REQ", "CID"], {}),
    ("oidcop.oidc.add_on.pkce.post_token_parse", None, ["REQ", "CID", "CTX"], {}),
    ("oidcop.oauth2.introspection.Introspection", "process_request", ["self", "REQ"], dict(more_opaque={"get_user_claims", "find_scope"})),
    ("oidcop.oidc.userinfo.UserInfo", "process_request", ["self", "REQ"], dict(more_opaque={"get_user_claims"})),
)


def exc_of(o):
    x = o.val.a[0] if o.val.k == "exc" else None
    return x if isinstance(x, str) else show(x)


def inactive(o, v):
    """an introspection answer that says inactive"""
    ra = kv(o, v, "response_args") if v.k == "alloc" else None
    act, w = final(o, ra, "active") if ra is not None else (None, None)
    return act is not None and is_const(act) and not cval(act) and w is None


def refused(o, v):
    return is_error_val(o, v) or inactive(o, v)


@prop("C41")
def token_errors(ck):
    ck.rule("C41.endpoint", "a token the session manager cannot resolve is answered with an error (or as inactive)", 40)
    ck.rule("C41.bearer", "an unusable bearer token ends in an error response or in failed authentication", 6)
    ck.rule("C41.handlers", "whatever a token handler stumbles over, the token is only not one of its own", 10)
    ck.rule("C41.session", "a session identifier that cannot be read is an error of the kinds the endpoints answer", 4)
    for qual, meth, params, kw in ENTRY:
        lab = ".".join(qual.split(".")[1:]) + ("." + meth if meth else "")
        for w in FAILS:
            outs = ck.run(qual, meth, params, raises=True, throws={LOOKUP: w}, watch={LOOKUP}, **{**BIG, **kw})
            met = 0
            for o in outs:
                if not events(o, "thrown:" + LOOKUP):
                    continue
                met += 1
                if o.kind == "raise":
                    ck.ob("C41.endpoint", lab + ":" + w.rpartition(".")[2], exc_of(o) != w, "%s is not answered" % w, o)
                else:
                    ck.ob("C41.endpoint", lab + ":" + w.rpartition(".")[2], refused(o, o.val), "a token that cannot be resolved is accepted", o)
            if not met:
                raise Broken("%s does not look the token up" % lab)
    bearer(ck)
    handlers(ck)
    session(ck)
    unreadable(ck)


def bearer(ck):
    EP, CB = sym("EP"), "get_client_id_from_token"
    UI = "oidcop.oidc.userinfo.UserInfo"
    # what may come out of the lookup of the client of a token: BearerTokenAuthenticationError is how authentication fails
    outs_of = {}
    for w in FAILS:
        n = 0
        for o in ck.run("oidcop.client_authn.verify_client", None, [None, "REQ", "HTTP", attr(EP, CB), "ENDP", "AKA"], raises=True,
                        binds={"endpoint_context": CTX}, throws={CB: w}, more_opaque={CB}, **BIG):
            if not events(o, "thrown:" + CB):
                continue
            n += 1
            ck.ob("C41.bearer", "verify_client:" + w.rpartition(".")[2], o.kind == "raise", "a token that cannot be resolved authenticates", o)
            if o.kind == "raise":
                outs_of.setdefault(w, set()).add(exc_of(o))
        if not n:
            raise Broken("verify_client does not ask whose token it is")
    for x in sorted(set().union(*outs_of.values())):
        if x == "oidcop.exception.BearerTokenAuthenticationError":
            continue
        n = 0
        for o in ck.run(UI, "parse_request", ["self", "REQ", "HTTP"], raises=True, throws={"client_authentication": x}, more_opaque={"client_authentication"}, **BIG):
            if not events(o, "thrown:client_authentication"):
                continue
            n += 1
            lab = "UserInfo.parse_request:" + x.rpartition(".")[2]
            if o.kind == "raise":
                ck.ob("C41.bearer", lab, exc_of(o) != x, "%s is not answered" % x, o)
            else:
                ck.ob("C41.bearer", lab, is_error_val(o, o.val), "a token that cannot be resolved is accepted", o)
        if not n:
            raise Broken("userinfo does not authenticate the client")


STUMBLE = ("KeyError", "IndexError", "TypeError", "ValueError", "AttributeError", "UnicodeDecodeError",
           "cryptojwt.exception.BadSignature", "cryptojwt.exception.Invalid", TOK + "UnknownToken", TOK + "WrongTokenClass",
           TOK + "InvalidToken")


def handlers(ck):
    TH = "oidcop.token.handler.TokenHandler"
    TOKEN, ORDER = sym("TOKEN"), sym("ORDER")
    for w in STUMBLE:
        n = 0
        for o in ck.run(TH, "get_handler", ["self", "TOKEN", "ORDER"], raises=True, throws={"info": w}, **BIG):
            if not events(o, "thrown:info"):
                continue
            n += 1
            lab = "get_handler:" + w.rpartition(".")[2]
            if o.kind == "raise":
                ck.ob("C41.handlers", lab, exc_of(o) != w, "%s of one handler ends the search" % w, o)
            else:
                ck.ob("C41.handlers", lab, o.val.k == "tuple" and is_const(o.val.a[0]) and cval(o.val.a[0]) is None,
                      "the handler that failed is taken", o)
        if not n:
            raise Broken("get_handler asks no handler")
    for o in ck.run(TH, "info", ["self", "TOKEN", "ORDER"], raises=True, **BIG):
        if o.kind == "return":
            ck.ob("C41.handlers", "info", any(a[0] == "NONE" and b is False for a, b in o.facts.items()), "no handler knows the token, yet it has information", o)


def session(ck):
    MG = "oidcop.session.manager.SessionManager"
    for w in ("cryptography.fernet.InvalidToken", "ValueError", "TypeError", "binascii.Error", "UnicodeDecodeError"):
        n = 0
        for o in ck.run(MG, "decrypt_session_id", ["self", "KEY"], raises=True, throws={"decrypt": w}, **BIG):
            if not events(o, "thrown:decrypt"):
                continue
            n += 1
            ck.ob("C41.session", "decrypt_session_id:" + w.rpartition(".")[2], o.kind == "raise" and exc_of(o) == "ValueError", "an unreadable session identifier ends in %s" % (exc_of(o) if o.kind == "raise" else "a session"), o)
        if not n:
            raise Broken("decrypt_session_id does not decrypt")


# what the libraries raise when a token is not what they expect
UNREADABLE = {
    "unpack": ("cryptojwt.exception.BadSignature", "cryptojwt.exception.Invalid", "cryptojwt.jws.exception.NoSuitableSigningKeys", "cryptojwt.jws.exception.SignerAlgError",
               "KeyError", "ValueError"),
    "decrypt": ("cryptography.fernet.InvalidToken", "ValueError", "TypeError"),
    "b64decode": ("binascii.Error",),
}


def unreadable(ck):
    """each handler turns what the libraries raise into something the search survives"""
    ck.rule("C41.unreadable", "what a library raises over a token becomes an exception that only ends this handler's attempt", 12)
    TH = "oidcop.token.handler.TokenHandler"
    survived = {}

    def fatal(x):
        if x not in survived:
            n = [o for o in ck.run(TH, "get_handler", ["self", "TOKEN", "ORDER"], raises=True, throws={"info": x}, **BIG) if events(o, "thrown:info")]
            survived[x] = any(o.kind == "raise" and exc_of(o) == x for o in n)
        return survived[x]

    met = 0
    for h in ("oidcop.token.DefaultToken", "oidcop.token.jwt_token.JWTToken", "oidcop.token.id_token.IDToken"):
        for call, kinds in UNREADABLE.items():
            for w in kinds:
                for o in ck.run(h, "info", ["self", "TOKEN"], raises=True, throws={call: w}, more_opaque={"get_sign_and_encrypt_algorithms"}, **BIG):
                    if not events(o, "thrown:" + call):
                        continue
                    met += 1
                    lab = "%s:%s:%s" % (h.rpartition(".")[2], call, w.rpartition(".")[2])
                    if o.kind == "return":
                        ck.ob("C41.unreadable", lab, False, "a token that cannot be read has information", o)
                    else:
                        ck.ob("C41.unreadable", lab, not fatal(exc_of(o)), "%s ends the search for a handler" % exc_of(o), o)
    if not met:
        raise Broken("no handler reads tokens with a library")
