"""Token endpoint, grants and session tokens."""
import ast
import re

from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop

O2 = "oidcop.oauth2.token."
OI = "oidcop.oidc.token."
ATH = (O2 + "AccessTokenHelper", OI + "AccessTokenHelper")
RTH = (O2 + "RefreshTokenHelper", OI + "RefreshTokenHelper")
ITEM = "oidcop.session.token.Item"
TOK = "oidcop.session.token."
GRANT = "oidcop.session.grant.Grant"

KEEP_KEYS = {"redirect_uri", "client_id", "scope", "revoke_refresh_on_issue", "grant_type"}


def _keep(at):
    for t in at[1:]:
        for s in subterms(t):
            if s.k == "item" and is_const(s.a[1]) and cval(s.a[1]) in KEEP_KEYS:
                return True
            if s.k == "const" and cval(s) in KEEP_KEYS:
                return True
            if s.k == "attr" and s.a[1] in KEEP_KEYS:
                return True
    return False


def is_tok(t, key):
    """the session token looked up with REQ[key] in the session that REQ[key] identifies"""
    if t.k == "phi":
        return all(is_tok(x, key) for x in t.a)
    if not is_call(t, "get_token"):
        return False
    args = dict(t.a[3])
    v = args.get("value")
    return v is not None and req_key(v, key) and is_grant(t.a[1], key)


def is_session(t, key):
    if t.k == "phi":
        return all(is_session(x, key) for x in t.a)
    if not is_call(t, "get_session_info_by_token"):
        return False
    v = dict(t.a[3]).get("token_value")
    return v is not None and req_key(v, key)


def is_grant(t, key):
    return t is not None and (
        (t.k == "phi" and all(is_grant(x, key) for x in t.a))
        or is_key(t, "grant", lambda b: is_session(b, key))
    )


def active_fact(o, tokpred):
    for a, b in facts_of(o).items():
        if a[0] == "T" and b is True and is_call(a[1], "is_active"):
            c = a[1]
            if not c.a[2] and not c.a[3] and tokpred(c.a[1]):
                return True
    return False


def isa_fact(o, tokpred, cls):
    for a, b in facts_of(o).items():
        if a[0] == "ISA" and b is True and tokpred(a[1]) and show(a[2]).endswith(cls):
            return True
    return False


_memo = {}


def post_parse(ck, cls, **kw):
    return ck.run(
        cls,
        "post_parse_request",
        ["self", "REQ", "CLIENT"],
        raises=True,
        more_opaque={"find_scope"},
        watch_attrs={"revoked", "used"},
        watch={"revoke_token"},
        keep=_keep,
        loop=2,
        **kw
    )


def process(ck, cls, **kw):
    return ck.run(
        cls,
        "process_request",
        ["self", "REQ"],
        raises=True,
        more_opaque={"find_scope"},
        expose={"register_usage"},
        watch={"mint_token", "revoke"},
        watch_attrs={"used", "revoked", "scope", "usage_rules"},
        ignore_attrs={"expires_at"},
        ignore_keys={"expires_in"},
        ev_args={"mint_token": {"token_class", "based_on", "session_id", "scope"}},
        keep=_keep,
        **kw
    )


def short(cls):
    return ".".join(cls.split(".")[-3:])


def increments(e, tok):
    """event e consumes the token"""
    if e.kind != "setattr" or e.name != "used" or not tok(e.recv):
        return False
    return is_increment(e.arg("value"), e.recv, "used")


def is_increment(v, base, name):
    if v.k == "op" and v.a[0] in ("add", "+", "Add"):
        xs = v.a[1:]
        cur = [x for x in xs if x.k == "attr" and x.a[1] == name]
        inc = [x for x in xs if is_const(x) and isinstance(cval(x), int) and cval(x) > 0]
        return len(cur) == 1 and len(inc) == 1
    return is_const(v) and bool(cval(v)) and isinstance(cval(v), int)


@prop("C01")
def code_single_use(ck):
    ck.rule("C01.parse", "a code token request is passed on only after the presented code was found to be an "
            "authorization code of the session it identifies and active", 3)
    ck.rule("C01.consume", "every token response for a code consumes exactly that code (usage registered)", 2)
    ck.rule("C01.based_on", "tokens minted for a code request are minted from that code in that code's grant", 4)
    for cls in ATH:
        code = lambda t: is_tok(t, "code")
        for o in post_parse(ck, cls):
            if success(o):
                ck.ob("C01.parse", short(cls) + ".post_parse_request:active", active_fact(o, code),
                      "request accepted without the presented code being known active", o)
                ck.ob("C01.parse", short(cls) + ".post_parse_request:type",
                      isa_fact(o, code, "AuthorizationCode"),
                      "request accepted without the presented token being an authorization code", o)
        for o in process(ck, cls):
            for e in events(o, "mint_token"):
                b = e.arg("based_on")
                ck.ob("C01.based_on", short(cls) + ".process_request",
                      b is not None and code(b) and is_grant(e.recv, "code"),
                      "token minted from something else than the presented code", o, e.site)
            if success(o):
                ck.ob("C01.consume", short(cls) + ".process_request",
                      any(increments(e, code) for e in o.trace),
                      "a response is produced without registering the use of the code", o)
    ck.rule("C01.active", "a session token or grant counts as active only when its usage limit is not reached, it "
            "is not revoked and it is inside its validity window", 4)
    active_leaf(ck, "C01.active")
    ck.rule("C01.limit", "authorization codes always get a usage limit of one", 1)
    code_limit(ck, "C01.limit")
    ck.rule("C01.mint", "minting from a token happens only when that token is active", 1)
    mint_leaf(ck, active="C01.mint")
    ck.rule("C01.monotone", "the usage counter of a token is only ever increased", 2)
    monotone(ck, "C01.monotone", "used")


@prop("C02")
def code_replay(ck):
    ck.rule("C02.replay", "a redeemed code presented again at the OIDC token endpoint is refused and everything "
            "minted from it is revoked recursively", 1)
    cls = OI + "AccessTokenHelper"
    code = lambda t: is_tok(t, "code")
    for o in post_parse(ck, cls, expose={"revoke_token"}):
        used = used_state(o, code)
        if used:
            ok = False
            for e in events(o, "revoke_token"):
                if len(e.stack) <= 2 and is_grant(e.recv, "code"):
                    b = e.arg("based_on")
                    v = e.arg("value")
                    r = e.arg("recursive")
                    if b is not None and (req_key(b, "code") or (b.k == "attr" and b.a[1] == "value" and code(b.a[0]))):
                        if v is None or not truthy_possible(v):
                            if r is None or (is_const(r) and cval(r)):
                                ok = True
            ck.ob("C02.replay", "oidc.AccessTokenHelper.post_parse_request:revoke", ok,
                  "redeemed code presented again without recursive revocation of its descendants", o)
            ck.ob("C02.replay", "oidc.AccessTokenHelper.post_parse_request:refuse", not success(o),
                  "redeemed code accepted", o)
        elif success(o):
            ck.ob("C02.replay", "oidc.AccessTokenHelper.post_parse_request:checked",
                  used is False,
                  "request accepted without looking at whether the code was redeemed before", o)
    ck.rule("C02.cascade", "revoking by origin marks every token issued from it and recurses into its descendants", 1)
    revoke_leaf(ck, "C02.cascade")
    ck.rule("C02.link", "every minted token records the token it was minted from", 1)
    mint_leaf(ck, link="C02.link")
    ck.rule("C02.monotone", "nothing ever un-revokes a token or a grant", 2)
    monotone(ck, "C02.monotone", "revoked")
    ck.rule("C02.active", "a revoked token is never active", 1)
    active_leaf(ck, "C02.active")


def used_state(o, tok):
    """True/False/None: has the token been used before, as far as this path knows"""
    zero = lambda t: is_const(t) and cval(t) in (0, False)
    one = lambda t: is_const(t) and cval(t) == 1
    cnt = lambda t: t.k == "attr" and t.a[1] == "used" and tok(t.a[0])
    for a, b in o.facts.items():
        if not isinstance(b, bool):
            continue
        if a[0] == "T" and (cnt(a[1]) or (is_call(a[1], "has_been_used") and tok(a[1].a[1]))):
            return b
        if a[0] == "EQ" and ((cnt(a[1]) and zero(a[2])) or (cnt(a[2]) and zero(a[1]))):
            return not b
        if a[0] == "LT" and zero(a[1]) and cnt(a[2]):
            return b
        if a[0] == "LT" and cnt(a[1]) and one(a[2]):
            return not b
    return None


def revoke_leaf(ck, clause):
    outs = ck.run(GRANT, "revoke_token", ["self", "VALUE", "BASED", "REC"],
                  opaque=set(), watch={"revoke_token"}, watch_attrs={"revoked"}, loop_track=True,
                  loop=1)
    V, B, R = sym("VALUE"), sym("BASED"), sym("REC")
    n = 0
    for o in outs:
        f = o.facts

        def elem(t):
            return t.k == "elem"

        hit = has_eq(o, lambda x: x.k == "attr" and x.a[1] == "based_on" and elem(x.a[0]), lambda y: y is B)
        hitv = has_eq(o, lambda x: x.k == "attr" and x.a[1] == "value" and elem(x.a[0]), lambda y: y is V)
        early = [e for e in o.trace if e.kind == "early"]
        tv, tb, tr = f.get(("T", V)), f.get(("T", B)), f.get(("T", R))
        marks = [e for e in o.trace if e.kind == "setattr" and e.name == "revoked"]
        goodmark = [e for e in marks if is_const(e.arg("value")) and cval(e.arg("value")) and elem(e.recv)]
        ck.ob(clause, "Grant.revoke_token:mark", len(goodmark) == len(marks), "revocation mark is not set to true", o)
        if tv is False and hit:
            n += 1
            ck.ob(clause, "Grant.revoke_token:based_on", bool(goodmark), "descendant of the revoked token is not marked revoked", o)
            ck.ob(clause, "Grant.revoke_token:all", not early, "revocation stops at the first descendant", o)
            rec = [e for e in events(o, "revoke_token")
                   if e.arg("based_on") is not None and e.arg("based_on").k == "attr"
                   and e.arg("based_on").a[1] == "value" and elem(e.arg("based_on").a[0])
                   and (e.arg("value") is None or not truthy_possible(e.arg("value")))
                   and (e.arg("recursive") is None or truthy_possible(e.arg("recursive")))]
            if tr is not False:
                ck.ob(clause, "Grant.revoke_token:recurse", bool(rec), "descendants of a revoked descendant stay valid", o)
        if tv is True and tb is False and hitv:
            n += 1
            ck.ob(clause, "Grant.revoke_token:value", bool(goodmark), "the named token is not marked revoked", o)
            rec = [e for e in events(o, "revoke_token")
                   if e.arg("based_on") is not None and e.arg("based_on").k in ("attr", "sym")]
            if tr is not False:
                ck.ob(clause, "Grant.revoke_token:value-recurse", bool(rec), "tokens minted from a revoked token stay valid", o)
        if tv is False and tb is False and f.get(("T", attr(SELF, "issued_token"))) is True:
            n += 1
            ck.ob(clause, "Grant.revoke_token:everything", bool(goodmark), "revoking everything leaves a token valid", o)
    ck.ob(clause, "Grant.revoke_token:paths", n >= 3, "revoke_token no longer distinguishes its cases")


def active_leaf(ck, clause, classes=("Item",)):
    """truthy is_active => limit not reached, not revoked, in window"""
    p = ck.p
    seen = set()
    names = [c for c in [ITEM, GRANT, TOK + "SessionToken", TOK + "AuthorizationCode", TOK + "AccessToken",
                         TOK + "RefreshToken", TOK + "IDToken",
                         "oidcop.session.info.UserSessionInfo"]]
    for cq in names:
        try:
            fi = p.need_method(cq, "is_active")
        except Broken:
            continue
        mx = p.find_method(cq, "max_usage_reached")
        k = (fi.qual, getattr(mx, "qual", None))
        if k in seen or (fi.cls is not None and not p.is_sub(cq, ITEM)):
            continue
        seen.add(k)
        cn = fi.short
        NOW = sym("NOW")
        for o in ck.run(cq, "is_active", ["self", "NOW"], opaque=set(), truth=True, facts={("EQ", NOW, const(0)): True, ("T", NOW): False, ("VAL", NOW): const(0)}):
            v = o.val
            if is_const(v) and not cval(v):
                ck.ob(clause, cn + ":false", True)
                continue
            f = o.facts

            def A(n):
                return attr(SELF, n)

            limit_ok = any(
                (a[0] == "IN" and b is False and is_const(a[1]) and cval(a[1]) == "max_usage")
                or (a[0] == "LT" and a[1] is A("used") and b is True and has_sub_key(a[2], "max_usage"))
                or (a[0] == "T" and b is False and has_sub_key(a[1], "max_usage") and a[1].k == "item")
                or (a[0] == "NONE" and b is True and has_sub_key(a[1], "max_usage"))
                for a, b in f.items()
            )
            ck.ob(clause, cn + ":usage limit", limit_ok, "active although the usage limit was not checked", o)
            ck.ob(clause, cn + ":revoked", f.get(("T", A("revoked"))) is False, "active although revocation was not checked", o)
            exp_ok = f.get(("T", A("expires_at"))) is False or any(
                a[0] == "LT" and (
                    (a[1] is A("expires_at") and b is False and "time" in show(a[2]))
                    or (a[2] is A("expires_at") and b is True and "time" in show(a[1])))
                for a, b in f.items())
            ck.ob(clause, cn + ":expiry", exp_ok, "active although the expiry time was not checked", o)
            nb_ok = f.get(("T", A("not_before"))) is False or any(
                a[0] == "LT" and (
                    (a[2] is A("not_before") and b is False and "time" in show(a[1]))
                    or (a[1] is A("not_before") and b is True and "time" in show(a[2])))
                for a, b in f.items())
            ck.ob(clause, cn + ":not before", nb_ok, "active although the not-before time was not checked", o)


def has_sub_key(t, key):
    return mentions(t, lambda s: s.k == "item" and is_const(s.a[1]) and cval(s.a[1]) == key)


def code_limit(ck, clause):
    p = ck.p
    # the class minted as authorization_code
    UR = sym("UR")
    for o in ck.run(TOK + "AuthorizationCode", "__init__", None, binds={"usage_rules": UR}, opaque=set(), depth=10):
        ur = None
        for k, v in o.st.ov.items():
            if k[0] == "a" and k[1] is SELF and k[2] == "usage_rules":
                ur = v
        ok = False
        if ur is not None:
            ok = True
            for alt in alts(ur):
                got = kv(o, alt, "max_usage")
                if got is None:
                    got = o.st.ov.get(("i", alt, const("max_usage")))
                ok = ok and got is not None and is_const(got) and cval(got) == 1
        ck.ob(clause, "AuthorizationCode.__init__", ok, "an authorization code can be created without a usage limit of one", o)
    m = p.modules["oidcop.session.grant"] if "oidcop.session.grant" in p.modules else None
    found = False
    for mod in p.modules.values():
        if mod.external:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == "authorization_code" and isinstance(v, (ast.Name, ast.Attribute)):
                        d = p.resolve_expr_name(mod, v)
                        if d and d.rpartition(".")[2][:1].isupper() and p.get_class(d) is not None and p.is_sub(d, TOK + "SessionToken"):
                            found = True
                            ck.ob(clause, "token map %s" % mod.name, p.is_sub(d, TOK + "AuthorizationCode"),
                                  "authorization codes are created as %s" % d)
    if not found:
        raise Broken("no token map entry for authorization_code found")


_mint_cache = {}


def mint_runs(ck):
    if ck.p not in _mint_cache:
        _mint_cache[ck.p] = ck.run(
            GRANT, "mint_token",
            ["self", "SID", "CTX", "CLASS", "HANDLER", "BASED", "UR", "SCOPE", "TTYPE"],
            binds={"endpoint_context": CTX},
            raises=True,
            opaque={"is_active", "supports_minting", "payload_arguments", "find_scope", "set_defaults"},
            watch={"is_active", "payload_arguments", "<call>"},
            watch_fn=lambda kind, name, recv, it, st: kind == "mutate",
            loop=1,
        )
    return _mint_cache[ck.p]


def mint_leaf(ck, active=None, link=None, policy=None, scope=None, grant=None):
    B, C, S = sym("BASED"), sym("CLASS"), sym("SCOPE")
    outs = mint_runs(ck)
    n = 0
    for o in outs:
        if o.kind != "return" or (is_const(o.val) and cval(o.val) is None):
            continue
        n += 1
        f = o.facts
        based = f.get(("T", B))
        if active and based is not False:
            ck.ob(active, "Grant.mint_token:origin", active_fact(o, lambda t: t is B),
                  "a token is minted from a token that may be inactive", o)
        if policy and based is not False:
            ok = any(a[0] == "T" and b is True and is_call(a[1], "supports_minting") and a[1].a[1] is B
                     and dict(a[1].a[3]).get("token_class") is C for a, b in f.items())
            ck.ob(policy, "Grant.mint_token:policy", ok, "a token is minted from a token whose policy was not consulted", o)
        if grant:
            ck.ob(grant, "Grant.mint_token:grant", active_fact(o, lambda t: t is SELF),
                  "a token is minted in a grant that may be revoked or expired", o)
        if link:
            it = token_made(o)
            ok = it is not None
            if ok and based is not False:
                ok = any_link(o, it, B)
            ck.ob(link, "Grant.mint_token:link", ok, "a minted token does not record its origin", o)
            stored = any(
                e.kind == "mutate" and e.recv is attr(SELF, "issued_token") and any(has_sub(v, it) for _, v in e.args)
                for e in o.trace
            ) or any(k[0] == "a" and k[1] is SELF and k[2] == "issued_token" for k in o.st.ov)
            ck.ob(link, "Grant.mint_token:issued", stored, "a minted token is not recorded in the grant", o)
    if n < 1:
        raise Broken("mint_token has no successful path")
    return outs


def token_made(o):
    return o.val


def any_link(o, it, B):
    want = attr(B, "value")
    if it.k == "call":
        return any(k == "based_on" and v is want for k, v in it.a[3])
    return kv(o, it, "based_on") is want or o.st.ov.get(("a", it, "based_on")) is want


def monotone(ck, clause, name):
    """stores to the attribute outside constructors"""
    p = ck.p
    n = 0
    for fi in p.funcs.values():
        if fi.module.external:
            continue
        for nd in ast.walk(fi.node):
            tgts = []
            val = None
            if isinstance(nd, ast.Assign):
                tgts, val = nd.targets, nd.value
            elif isinstance(nd, ast.AnnAssign):
                tgts, val = [nd.target], nd.value
            elif isinstance(nd, ast.AugAssign):
                tgts, val = [nd.target], nd
            elif isinstance(nd, ast.Delete):
                tgts, val = nd.targets, nd
            elif isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id == "setattr" \
                    and len(nd.args) == 3 and isinstance(nd.args[1], ast.Constant) and nd.args[1].value == name:
                tgts, val = [ast.Attribute(nd.args[0], name, ast.Store())], nd.args[2]
            flat = []
            for t in tgts:
                flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
            for t in flat:
                if isinstance(t, ast.Attribute) and t.attr == name:
                    if fi.name == "__init__" and isinstance(t.value, ast.Name) and t.value.id == "self":
                        continue
                    n += 1
                    if name == "used":
                        ok = (isinstance(val, ast.AugAssign) and isinstance(val.op, ast.Add) and posconst(val.value)) or (
                            isinstance(val, ast.BinOp) and isinstance(val.op, ast.Add)
                            and (posconst(val.left) or posconst(val.right))
                            and any(isinstance(x, ast.Attribute) and x.attr == name for x in (val.left, val.right)))
                    else:
                        ok = truthy_node(val)
                    ck.ob(clause, "%s: .%s" % (fi.short, name), ok,
                          ".%s is set back here" % name, None, "%s:%d" % (fi.module.path, nd.lineno))
    return n


def truthy_node(v):
    return isinstance(v, ast.Constant) and bool(v.value)


def posconst(v):
    return isinstance(v, ast.Constant) and isinstance(v.value, int) and v.value > 0


# ---------------------------------------------------------------- bindings


def token_requests(ck):
    for cls, key in [(c, "code") for c in ATH] + [(c, "refresh_token") for c in RTH]:
        yield cls, key


@prop("C03")
def client_binding(ck):
    ck.rule("C03.bind", "nothing is minted and no response produced for a code or refresh token unless the client "
            "of the session it belongs to equals the requesting client", 8)
    for cls, key in token_requests(ck):
        def sess_client(t):
            return is_key(t, "client_id", lambda b: is_session(b, key)) or (
                t.k == "item" and is_key(t, "client_id") and mentions(t, lambda s: is_session(s, key)))

        def req_client(t):
            return is_key(t, "client_id", lambda b: b is REQ)

        for o in process(ck, cls):
            for e in events(o, "mint_token"):
                ck.ob("C03.bind", short(cls) + ".process_request:mint",
                      has_eq(e, sess_client, req_client),
                      "token minted before the owner of the presented token was compared with the requesting client", o, e.site)
            if success(o):
                ck.ob("C03.bind", short(cls) + ".process_request:return",
                      has_eq(o, sess_client, req_client),
                      "response produced without comparing the owner of the presented token with the requesting client", o)
    ck.rule("C03.identity", "after client authentication the request carries the authenticated client's identifier", 1)
    parse_identity(ck, "C03.identity")
    ck.rule("C03.pass", "a request refused by the token endpoint's checks is never processed", 2)
    token_dispatch(ck, "C03.pass")


def parse_identity(ck, clause):
    """Endpoint.parse_request: whatever is returned as an accepted request carries the
    client_id established by authentication"""
    for o in ck.run("oidcop.oauth2.token.Token", "parse_request", ["self", "REQUEST", "HTTP"],
                    more_opaque={"client_authentication", "do_post_parse_request", "verify", "from_dict", "from_json", "from_urlencoded"},
                    watch={"do_post_parse_request"}, watch_items=lambda k, b, a, i, s: k == "setitem"):
        for e in events(o, "do_post_parse_request"):
            req = e.arg("request")
            cid = e.arg("client_id")
            if req is None or cid is None:
                ck.ob(clause, "Token.parse_request:args", False, "post-parse step called without request or client", o)
                continue
            auth = has_call(cid, "client_authentication", "verify_client")
            stored = kv(o, req, "client_id")
            if stored is None:
                stored = o.st.ov.get(("i", req, const("client_id")))
            if stored is None:
                for x in o.trace:
                    if x.kind == "setitem" and x.recv is req and is_const(x.arg("key")) and cval(x.arg("key")) == "client_id":
                        stored = x.arg("value")
            f = e.facts
            known = None
            for a, b in f.items():
                if a[0] == "IN" and is_const(a[1]) and cval(a[1]) == "client_id" and has_call(a[2], "client_authentication", "verify_client"):
                    known = b
            same = auth and (stored is cid or any(a[0] == "EQ" and b is True and cid in a[1:] for a, b in f.items()))
            ck.ob(clause, "Token.parse_request:authenticated id", known is False or same,
                  "request processed under a client identifier that is not the authenticated one", o, e.site)


def token_dispatch(ck, clause):
    tok = "oidcop.oauth2.token.Token"
    for o in ck.run(tok, "process_request", ["self", "REQ"], raises=True, more_opaque={"process_request", "new_cookie"},
                    watch={"process_request"}):
        for e in events(o, "process_request"):
            ok = any(a[0] == "ISA" and b is False and a[1] is REQ and re.search("error_cls|ErrorResponse|ResponseMessage", show(a[2])) for a, b in e.facts.items()) \
                or any(a[0] == "IN" and b is False and a[2] is REQ and "error" in show(a[1]) for a, b in e.facts.items())
            ck.ob(clause, "Token.process_request:error passed", ok,
                  "a refused request reaches the grant type handler", o, e.site)
            r = e.recv
            ck.ob(clause, "Token.process_request:handler", r is not None and req_key(r, "grant_type"),
                  "the handler is not selected by the requested grant type", o, e.site)
    n = 0
    for o in ck.run(tok, "_post_parse_request", ["self", "REQ", "CLIENT"], more_opaque={"post_parse_request"},
                    watch={"post_parse_request"}):
        if success(o):
            n += 1
            calls = [e for e in events(o, "post_parse_request") if e.recv is not None and req_key(e.recv, "grant_type")]
            ck.ob(clause, "Token._post_parse_request:checks", bool(calls) and (is_call(o.val, "post_parse_request") or o.val.k == "phi"),
                  "a token request is accepted without the grant type's own checks", o)
    for cls in ("oidcop.oauth2.token.Token", "oidcop.oidc.token.Token"):
        found = False
        fi = ck.method(cls, "__init__")
        for nd in ast.walk(fi.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("append", "insert", "extend") \
                    and "post_parse_request" in ast.dump(nd.func.value) and "_post_parse_request" in ast.dump(nd):
                found = True
            if isinstance(nd, (ast.Assign, ast.AugAssign)) and "post_parse_request" in ast.dump(nd) and "_post_parse_request" in ast.dump(nd.value):
                found = True
        ck.ob(clause, cls.split(".", 1)[1] + ".__init__:hook", found, "the token endpoint does not register its request checks")


@prop("C04")
def redirect_binding(ck):
    ck.rule("C04.bind", "no token is minted for a code whose authorization request named a redirect_uri unless the "
            "token request repeats exactly that redirect_uri", 4)
    for cls in ATH:
        def areq(t):
            return t.k == "attr" and t.a[1] == "authorization_request" and is_grant(t.a[0], "code")

        def ok_facts(o):
            for a, b in facts_of(o).items():
                if a[0] == "IN" and b is False and is_const(a[1]) and cval(a[1]) == "redirect_uri" and areq(a[2]):
                    return True
            return has_eq(o, lambda t: is_key(t, "redirect_uri", areq), lambda t: is_key(t, "redirect_uri", lambda b: b is REQ))

        for o in process(ck, cls):
            for e in events(o, "mint_token"):
                ck.ob("C04.bind", short(cls) + ".process_request:mint", ok_facts(e),
                      "token minted without comparing the redirect_uri with the authorization request's", o, e.site)
            if success(o):
                ck.ob("C04.bind", short(cls) + ".process_request:return", ok_facts(o),
                      "response without comparing the redirect_uri with the authorization request's", o)


@prop("C06")
def refresh_scope(ck):
    ck.rule("C06.subset", "a refresh request naming a scope is accepted only if every requested scope value was granted", 4)
    ck.rule("C06.parse", "a refresh request is accepted only for an active refresh token", 4)
    ck.rule("C06.based_on", "tokens minted on refresh are minted from the presented refresh token in its own grant", 4)
    ck.rule("C06.scope", "tokens minted on refresh carry the checked requested scope or the scope already granted", 4)
    for cls in RTH:
        tok = lambda t: is_tok(t, "refresh_token")

        def granted(t):
            if is_call(t, "find_scope"):
                b = dict(t.a[3]).get("based_on")
                return is_grant(t.a[1], "refresh_token") and b is not None and (
                    tok(b) or (b.k == "attr" and b.a[1] in ("based_on", "value") and tok(b.a[0])))
            return t.k == "attr" and t.a[1] == "scope" and (tok(t.a[0]) or is_grant(t.a[0], "refresh_token"))

        def reqscope(t):
            return t.k == "item" and t.a[0] is REQ and is_const(t.a[1]) and cval(t.a[1]) == "scope"

        for o in post_parse(ck, cls):
            if not success(o):
                continue
            ck.ob("C06.parse", short(cls) + ".post_parse_request:active", active_fact(o, tok),
                  "refresh accepted without the presented token being known active", o)
            ck.ob("C06.parse", short(cls) + ".post_parse_request:type", isa_fact(o, tok, "RefreshToken"),
                  "refresh accepted for something that is not a refresh token", o)
            f = o.facts
            ok = f.get(("IN", const("scope"), REQ)) is False
            ok = ok or any(a[0] == "T" and b is False and reqscope(a[1]) for a, b in f.items())
            pos = [a for a, b in f.items() if a[0] == "IN" and b is True and a[1].k == "elem"
                   and mentions(a[1], reqscope) and mentions(a[2], granted)]
            neg = [a for a, b in f.items() if a[0] == "IN" and b is False and a[1].k == "elem"
                   and mentions(a[1], reqscope) and mentions(a[2], granted)]
            ck.ob("C06.subset", short(cls) + ".post_parse_request", ok or (bool(pos) and not neg),
                  "refresh accepted with a requested scope that was not compared with the granted scope", o)
        for o in process(ck, cls):
            for e in events(o, "mint_token"):
                b, s = e.arg("based_on"), e.arg("scope")
                ck.ob("C06.based_on", short(cls) + ".process_request",
                      b is not None and tok(b) and is_grant(e.recv, "refresh_token"),
                      "token minted from something else than the presented refresh token", o, e.site)
                ck.ob("C06.scope", short(cls) + ".process_request",
                      s is None or (is_const(s) and cval(s) is None)
                      or all(granted(x) or reqscope(x) for x in alts(s)),
                      "token minted with a scope that is neither the granted nor the checked requested one", o, e.site)
    ck.rule("C06.inherit", "the scope of a token is the one given for it, else the one inherited from its origin, else the grant's", 2)
    scope_leaf(ck, "C06.inherit")


def scope_leaf(ck, clause):
    outs = ck.run(GRANT, "find_scope", ["self", "BASED"], opaque={"get_token"}, watch={"find_scope"})
    for o in outs:
        v = o.val
        ok = all(
            (x.k == "attr" and x.a[1] == "scope" and (x.a[0] is SELF or has_sub(x.a[0], sym("BASED"))))
            or (is_call(x, "find_scope") and x.a[1] is SELF and has_sub(x, sym("BASED")))
            for x in alts(v))
        ck.ob(clause, "Grant.find_scope", ok, "scope inherited from something else than the token's origin or the grant", o)
    S, B = sym("SCOPE"), sym("BASED")
    for o in mint_runs(ck):
        if o.kind != "return" or (is_const(o.val) and cval(o.val) is None):
            continue
        it = token_made(o)
        sc = None
        if it.k == "call":
            sc = dict((k, v) for k, v in it.a[3]).get("scope")
        if sc is None:
            sc = kv(o, it, "scope") or o.st.ov.get(("a", it, "scope"))
        none = o.facts.get(("NONE", S))
        b = o.facts.get(("T", B))

        def good(x):
            if x is S:
                return none is not True
            if none is False:
                return False
            if is_call(x, "find_scope"):
                return dict(x.a[3]).get("based_on") is B and b is not False
            return x is attr(SELF, "scope") and b is not True

        ck.ob(clause, "Grant.mint_token:scope", sc is not None and all(good(x) for x in alts(sc)),
              "minted token does not carry the requested or inherited scope", o)


@prop("C07")
def minting_policy(ck):
    ck.rule("C07.policy", "minting from a token requires its minting policy to name the minted class", 1)
    ck.rule("C07.active", "minting from a token requires it to be active", 1)
    ck.rule("C07.grant", "minting requires the grant itself to be active", 1)
    ck.rule("C07.link", "a minted token records its origin and is recorded in the grant", 1)
    mint_leaf(ck, active="C07.active", link="C07.link", policy="C07.policy", grant="C07.grant")
    ck.rule("C07.leaf", "a minting policy allows a class only by naming it; no policy allows nothing", 2)
    C = sym("CLASS")
    for cq in (TOK + "SessionToken", TOK + "AuthorizationCode", TOK + "AccessToken", TOK + "RefreshToken", TOK + "IDToken"):
        for o in ck.run(cq, "supports_minting", ["self", "CLASS"], opaque=set(), truth=True):
            v = o.val
            if is_const(v) and not cval(v):
                ck.ob("C07.leaf", cq.rpartition(".")[2] + ":no", True)
                continue
            ok = any(a[0] == "IN" and b is True and a[1] is C and "supports_minting" in show(a[2]) and "usage_rules" in show(a[2])
                     for a, b in o.facts.items())
            ck.ob("C07.leaf", cq.rpartition(".")[2] + ".supports_minting", ok,
                  "minting allowed although the policy does not name the class", o)
    ck.rule("C07.default", "an access token may mint nothing by default and codes and refresh tokens only token classes", 2)
    policy_defaults(ck, "C07.default")
    ck.rule("C07.window", "active means: usage limit not reached, not revoked and inside the validity window", 4)
    active_leaf(ck, "C07.window")


def policy_defaults(ck, clause):
    mod = ck.p.modules.get("oidcop.session.grant")
    d = None
    for n in mod.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "DEFAULT_USAGE" for t in n.targets):
            try:
                d = ast.literal_eval(n.value)
            except ValueError:
                pass
    if d is None:
        raise Broken("DEFAULT_USAGE is no longer a literal table")
    allowed = {"access_token": set(), "authorization_code": {"access_token", "refresh_token", "id_token"},
               "refresh_token": {"access_token", "refresh_token", "id_token"}}
    for k, v in d.items():
        if k in allowed:
            ck.ob(clause, "DEFAULT_USAGE[%s]" % k, set(v.get("supports_minting", [])) <= allowed[k],
                  "default policy of %s lets it mint %s" % (k, v.get("supports_minting")))
    for cq, k in ((TOK + "AuthorizationCode", "authorization_code"), (TOK + "RefreshToken", "refresh_token"),
                  (TOK + "AccessToken", "access_token")):
        UR = sym("UR")
        for o in ck.run(cq, "__init__", None, binds={"usage_rules": UR}, opaque=set(), depth=10):
            ur = None
            for kk, v in o.st.ov.items():
                if kk[0] == "a" and kk[1] is SELF and kk[2] == "usage_rules":
                    ur = v
            for alt in alts(ur) if ur is not None else ():
                got = kv(o, alt, "supports_minting") or o.st.ov.get(("i", alt, const("supports_minting")))
                if got is None:
                    continue
                vals = set()
                ok = True
                for x in alts(got):
                    for ly in layers(o, x):
                        if ly[0] == "i" and is_const(ly[1]):
                            vals.add(cval(ly[1]))
                        else:
                            ok = False
                    if x.k not in ("alloc", "lit", "tuple"):
                        ok = ok and x is item(UR, const("supports_minting"))
                ck.ob(clause, cq.rpartition(".")[2] + ".set_defaults", ok and vals <= allowed[k],
                      "default policy lets a token mint %s" % sorted(vals), o)


@prop("C37")
def rotation(ck):
    ck.rule("C37.use", "every refresh response registers the use of the presented refresh token", 2)
    ck.rule("C37.revoke", "the presented refresh token is revoked exactly when the client's setting, else the "
            "endpoint's, says so", 4)
    for cls in RTH:
        tok = lambda t: is_tok(t, "refresh_token")
        for o in process(ck, cls):
            if not success(o):
                continue
            ck.ob("C37.use", short(cls) + ".process_request", any(increments(e, tok) for e in o.trace),
                  "refresh response without registering the use of the refresh token", o)
            rev = [e for e in o.trace if e.kind == "setattr" and e.name == "revoked" and tok(e.recv)
                   and is_const(e.arg("value")) and cval(e.arg("value"))]
            f = o.facts

            def cl(t):
                return is_key(t, "revoke_refresh_on_issue") and "cdb" in show(t)

            def ep(t):
                return t.k == "attr" and t.a[1] == "revoke_refresh_on_issue"

            inclient = None
            for a, b in f.items():
                if a[0] == "IN" and is_const(a[1]) and cval(a[1]) == "revoke_refresh_on_issue" and "cdb" in show(a[2]):
                    inclient = b
            tcl = tep = None
            for a, b in f.items():
                if a[0] == "T":
                    if cl(a[1]):
                        tcl = b
                    elif ep(a[1]):
                        tep = b
            if inclient is True:
                want = tcl
            elif inclient is False or "cdb" in "".join(show_atom(a) for a in f if a[0] == "IN" and f[a] is False):
                want = tep
            else:
                want = tcl if tcl is not None else tep
            if want is None:
                ck.ob("C37.revoke", short(cls) + ".process_request:decided", False,
                      "refresh response without deciding whether the refresh token is to be revoked", o)
            elif want:
                ck.ob("C37.revoke", short(cls) + ".process_request:revoked", bool(rev),
                      "refresh token left usable although rotation is configured", o)
            else:
                ck.ob("C37.revoke", short(cls) + ".process_request:kept", not rev,
                      "refresh token revoked although rotation is not configured", o)
    ck.rule("C37.active", "a revoked or exhausted refresh token is not active", 2)
    active_leaf(ck, "C37.active")
    ck.rule("C37.parse", "a refresh request is accepted only for an active refresh token", 2)
    for cls in RTH:
        for o in post_parse(ck, cls):
            if success(o):
                ck.ob("C37.parse", short(cls) + ".post_parse_request", active_fact(o, lambda t: is_tok(t, "refresh_token")),
                      "refresh accepted for an inactive token", o)
