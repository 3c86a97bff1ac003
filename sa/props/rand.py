"""Values that have to be impossible to guess are drawn from the system's generator, when they are needed."""
import ast

from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import prop
from .session import argn

BIG = dict(cap=400, widen=3000)
REQ = sym("REQ")
SIZED = {"token_urlsafe", "token_hex", "token_bytes", "urandom", "rndstr", "randbits", "getrandbits", "randbytes"}
PICK = {"choice", "choices", "sample", "randint", "randrange", "random", "uniform", "shuffle", "getrandbits", "randbytes", "randbelow"}
KEEP = {"encode", "decode", "hexdigest", "digest", "hex", "b64encode", "urlsafe_b64encode", "b64e", "as_bytes", "as_unicode", "str", "bytes", "to_bytes", "format", "join", "strip", "rstrip",
        "lower", "upper", "replace", "hexlify", "sha256", "sha224", "sha384", "sha512", "new", "hash_update", "urn", "__str__", "quote", "quote_plus", "dumps"}


class Weak(object):
    """generators of the standard library that can be predicted"""

    def __init__(self, p):
        self.on = False
        for q, f in p.funcs.items():
            m = f.module
            if m.external:
                continue
            if any(v == "random" or v.startswith("random.") and v != "random.SystemRandom" for v in m.imports.values()):
                self.on = True


def size_of(o, t):
    xs = list(t.a[2]) + [v for _, v in t.a[3]]
    if not xs:
        return 32 if t.a[0].startswith("token") else 16 if t.a[0] == "rndstr" else 0
    n = xs[0]
    if is_const(n) and isinstance(cval(n), int):
        return cval(n) // 8 if t.a[0] in ("randbits", "getrandbits") else cval(n)
    return 0


def strength(o, t, weak, seen=()):
    """bytes that have to be guessed to know t; 0 if that is not known"""
    if t is None or t in seen:
        return 0
    seen = seen + (t,)
    if t.k == "phi":
        return min(strength(o, x, weak, seen) for x in t.a)
    if t.k == "alloc":
        return max([strength(o, x, weak, seen) for l in layers(o, t) for x in l[1:] if isinstance(x, T)] or [0])
    if t.k == "op" and t.a[0] == "slice":
        b = t.a[1:]
        n = strength(o, b[0], weak, seen)
        if all(is_const(x) for x in b[1:]) and cval(b[3]) in (None, 1):
            lo, hi = cval(b[1]) or 0, cval(b[2])
            if hi is None:
                return n if lo == 0 else 0
            return min(n, (hi - lo) // 2) if hi >= 0 and lo >= 0 else 0
        return 0
    if t.k in ("tuple", "op"):
        return max([strength(o, x, weak, seen) for x in t.a if isinstance(x, T)] or [0])
    if t.k == "lit":
        return max([strength(o, x, weak, seen) for x in t.a[1]] or [0]) if t.a[0] == "seq" else 0
    if t.k == "attr":
        return strength(o, t.a[0], weak, seen) if t.a[1] in ("hex", "bytes", "urn", "int", "bytes_le") else 0
    if t.k == "call":
        nm = t.a[0]
        if nm in PICK and weak.on:
            return 0
        if nm == "uuid4":
            return 15
        if nm in SIZED:
            return size_of(o, t)
        if nm in ("choice", "choices", "randbelow", "randrange", "randint"):
            return 32  # from a list of its own length, which is not followed
        if nm in KEEP:
            xs = list(t.a[2]) + [v for _, v in t.a[3]] + ([t.a[1]] if t.a[1] is not None else [])
            return max([strength(o, x, weak, seen) for x in xs] or [0])
    return 0


def cached(p):
    """functions whose result is kept, and that draw a random value"""
    draws = SIZED | {"uuid4", "uuid1"}
    for q, f in sorted(p.funcs.items()):
        if f.module.external:
            continue
        if any("cache" in d for d in f.decorators):
            names = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute))}
            yield f, not (names & draws)


@prop("C43")
def unpredictable(ck):
    ck.rule("C43.tokens", "tokens and sealed session identifiers contain a value of at least 16 bytes drawn when they are made", 2)
    ck.rule("C43.client", "what is issued to a client (identifier, secret, registration access token) is drawn when it registers", 3)
    ck.rule("C43.request", "the URI of a pushed request is drawn when the request is pushed", 1)
    ck.rule("C43.subject", "ephemeral identifiers, and salts that were not configured, are drawn when they are needed", 3)
    ck.rule("C43.keys", "keys and salts that were not configured are drawn, each of its own, for every provider", 4)
    ck.rule("C43.cookie", "every cookie is encrypted under an initialization vector drawn for it", 1)
    ck.rule("C43.session", "logout identifiers and the salt of session_state are drawn for each session", 2)
    ck.rule("C43.fresh", "nothing random is kept by a cache and used again", 0)
    p = ck.p
    weak = Weak(p)
    R = dict(BIG, fresh=("mint_token", "create_session", "create_grant", "uuid1", "uuid4"))

    def need(rule, construct, o, t, n, what, site=None):
        s = strength(o, t, weak)
        ck.ob(rule, construct, s >= n, "%s is %s (%s bytes to guess, %s wanted)" % (what, show(t)[:100] if t is not None else None, s, n), o, site)

    # --- tokens
    for q, m, lab in (("oidcop.token.DefaultToken", "__call__", "a token"), ("oidcop.session.database.Database", "encrypted_session_id", "a session identifier")):
        k = 0
        for o in ck.run(q, m, ["self"] if m == "__call__" else None, expose={"encrypted_session_id"}, watch={"encrypt"}, **R):
            for e in events(o, "encrypt"):
                k += 1
                need("C43.tokens", q.rpartition(".")[2] + "." + m, o, argn(e, "text", 0), 16, lab, e.site)
        if not k:
            raise Broken("nothing is encrypted by %s.%s" % (q, m))
    # --- clients
    M = "oidcop.oidc.registration."
    for o in ck.run(M + "random_client_id", None, None, **R):
        need("C43.client", "random_client_id", o, o.val, 12, "a client identifier")
    for o in ck.run(M + "secret", None, ["SEED", "SID"], **R):
        need("C43.client", "secret", o, o.val, 16, "a client secret")
    REG = M + "Registration"
    for o in ck.run(REG, "add_registration_api", ["self", "INFO", "CID", "CTX"], **R):
        v = o.st.ov.get(("i", sym("INFO"), const("registration_access_token")))
        need("C43.client", "add_registration_api", o, v, 16, "a registration access token")
    SECRET, INFO = sym("SECRET"), sym("INFO")
    for o in ck.run(REG, "add_client_secret", ["self", "INFO", "CID", "CTX"], more_opaque={"client_secret_expiration_time"}, **R):
        v = o.st.ov.get(("i", INFO, const("client_secret")))
        need("C43.client", "add_client_secret", o, v, 16, "a client secret")
    # --- pushed requests
    for o in ck.run("oidcop.oauth2.pushed_authorization.PushedAuthorization", "process_request", ["self", "REQ"], **R):
        for (k, b, x), v in o.st.ov.items():
            if k == "i" and b.k == "attr" and b.a[1] == "par_db":
                need("C43.request", "PushedAuthorization.process_request", o, x, 15, "the URI of a pushed request")
    # --- subjects
    S = "oidcop.session.manager."
    for o in ck.run(S + "ephemeral_id", None, None, **R):
        need("C43.subject", "ephemeral_id", o, o.val, 15, "an ephemeral identifier")
    for c in ("PairWiseID", "PublicID"):
        for o in ck.run(S + c, "__init__", ["self", "A", "B"], **R):
            v = o.st.ov.get(("a", SELF, "salt"))
            if v is sym("A") or v is not None and has_sub(v, sym("B")):
                continue  # configured
            need("C43.subject", c + ".__init__", o, v, 16, "a salt that was not configured")
    # --- keys
    for o in ck.run("oidcop.session.database.Database", "__init__", ["self", "KEY"], **R):
        v = o.st.ov.get(("a", SELF, "key"))
        if v is not sym("KEY"):
            need("C43.keys", "Database.__init__", o, v, 16, "the key sessions are sealed with")
    SMQ = S + "SessionManager"
    outs = ck.run(SMQ, "__init__", ["self", None, "CONF", None], **dict(R, fresh=R["fresh"] + tuple(SIZED | PICK)))
    for o in outs:
        conf = lambda n: item(item(sym("CONF"), const("session_params")), const(n))
        key, salt = o.st.ov.get(("a", SELF, "_key")), o.st.ov.get(("a", SELF, "_salt"))
        if key is not conf("password"):
            need("C43.keys", "SessionManager.__init__:key", o, key, 16, "the key sessions are sealed with")
        if salt is not conf("salt"):
            need("C43.keys", "SessionManager.__init__:salt", o, salt, 16, "the salt of subject identifiers")
            ck.ob("C43.keys", "SessionManager.__init__:own", salt is not key or salt is not None and has_call(salt, *PICK), "the salt and the key are the same", o)
    sk = item(sym("CONF"), const("symkey"))
    n = 0
    for o in ck.run("oidcop.endpoint_context.EndpointContext", "__init__", ["self", "CONF", None, None, None, None], ignore_attrs=set(), **dict(R, cap=40, widen=300)):
        v = o.st.ov.get(("a", SELF, "symkey"))
        for x in (alts(v) if v is not None else (v,)):
            if x is not None and (x is sk or has_sub(x, sym("CONF"))):
                continue
            n += 1
            need("C43.keys", "EndpointContext.__init__:symkey", o, x, 16, "the symmetric key of the provider")
    if not n:
        raise Broken("no symmetric key is made")
    seed = item(sym("KW"), const("seed"))
    for o in ck.run(REG, "__init__", None, **dict(R, cap=40, widen=300)):
        v = o.st.ov.get(("a", SELF, "seed"))
        for x in (alts(v) if v is not None else (v,)):
            if x is not None and mentions(x, lambda s: s.k == "item" and s.a[1] is const("seed")):
                continue
            need("C43.keys", "Registration.__init__:seed", o, x, 16, "the key of client secrets")
    # --- cookies
    n = 0
    CH = "oidcop.cookie_handler.CookieHandler"
    for o in ck.run(CH, "_sign_enc_payload", ["self", "PAYLOAD", "TS"], watch={"encrypt"}, **R):
        for e in events(o, "encrypt"):
            n += 1
            need("C43.cookie", "CookieHandler._sign_enc_payload", o, argn(e, "iv", 1), 12, "the initialization vector", e.site)
    if not n:
        raise Broken("no cookie is encrypted")
    # --- sessions
    for o in ck.run("oidcop.util.get_logout_id", None, None, **R):
        if o.kind == "return":
            need("C43.session", "get_logout_id", o, o.val, 15, "a logout identifier")
    n = 0
    for o in ck.run("oidcop.oauth2.authorization.Authorization", "authz_part2", ["self", "REQ", "SID"], watch={"compute_session_state"},
                    more_opaque={"post_authentication", "error_by_response_mode", "new_cookie", "compute_session_state", "b64e"}, **R):
        for e in events(o, "compute_session_state"):
            n += 1
            need("C43.session", "Authorization.authz_part2:salt", o, argn(e, "salt", 1), 8, "the salt of session_state", e.site)
    if not n:
        raise Broken("no session_state is computed")
    # --- caches
    for f, ok in cached(p):
        ck.ob("C43.fresh", f.qual, ok, "what %s draws is used more than once" % f.qual, None, "%s:%s" % (f.module.path, f.node.lineno))
