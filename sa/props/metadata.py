"""What the provider tells about itself."""
from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from ..interp import CTX
from . import claims, prop
from .lifetimes import shaped

BIG = dict(cap=400, widen=3000)
EC = "oidcop.endpoint_context.EndpointContext"
CAP, CONF, ISS, SG, EPS = sym("CAP"), sym("CONF"), sym("ISS"), sym("SG"), sym("EPS")


def writes(o, t):
    """(key, value) of everything put into a mapping on this path"""
    for l in layers(o, t):
        if l[0] == "kv":
            yield l[1], l[2]
    for (k, b, key), v in o.st.ov.items():
        if k == "i" and b is t:
            yield key, v


def spreads(o, t):
    return [l[1] for l in layers(o, t) if l[0] == "s"]


def parts(t):
    """a URL made by formatting"""
    return [x for x in t.a[1:]] if t is not None and t.k == "op" and t.a[0] == "fmt" else []


def stripped(o, t, iss):
    """the issuer without a last slash"""
    ends = [b for a, b in o.facts.items() if a[0] == "T" and is_call(a[1], "endswith") and a[1].a[1] is iss]
    if is_call(t, "rstrip") and t.a[1] is iss and t.a[2] and is_const(t.a[2][0]) and cval(t.a[2][0]) == "/":
        return True
    if is_call(t, "removesuffix") and t.a[1] is iss:
        return True
    if t is iss:
        return False in ends
    return t.k == "op" and t.a[0] == "slice" and t.a[1] is iss and True in ends and is_const(t.a[3]) and cval(t.a[3]) == -1


@prop("C44")
def metadata(ck):
    ck.rule("C44.issuer", "the issuer in metadata and discovery is the configured issuer, and the key set URI is under it", 4)
    ck.rule("C44.urls", "every endpoint is announced at the URL made of issuer and the path it is served at", 3)
    ck.rule("C44.capabilities", "what is announced is what is configured, or else what the endpoints support, scopes and claims that are offered", 5)
    ck.rule("C44.algorithms", "announced algorithms are ones the library has; none and weak ones only if configured", 3)
    ck.rule("C44.published", "what is published is that metadata", 2)
    # --- issuer
    n = 0
    own = {"scopes_supported": "get_allowed_scopes", "claims_supported": "scopes_to_claims", "acr_values_supported": "get_acr_values"}
    for o in ck.run(EC, "create_providerinfo", ["self", "CAP"], more_opaque=set(own.values()), **BIG):
        if o.kind != "return":
            continue
        n += 1
        r = o.val
        based = r is CAP or CAP in spreads(o, r)
        ck.ob("C44.capabilities", "create_providerinfo:all", based, "the capabilities are not announced", o)
        d = {}
        for k, v in writes(o, r):
            if not is_const(k):
                if not (k.k == "elem" and v.k == "item" and v.a[0] is CAP):
                    ck.ob("C44.capabilities", "create_providerinfo:other", False, "%s is announced as %s" % (show(k)[:40], show(v)[:40]), o)
                continue
            d[cval(k)] = v
        ck.ob("C44.issuer", "create_providerinfo:issuer", d.get("issuer") is attr(SELF, "issuer"), "the issuer is %s" % show(d.get("issuer") or const(None))[:60], o)
        for k, v in d.items():
            if k in ("issuer", "version"):
                continue
            was = item(CAP, const(k))
            for x in alts(v):
                if x is was:
                    continue
                if k == "jwks_uri":
                    ck.ob("C44.issuer", "create_providerinfo:jwks_uri", x is attr(SELF, "jwks_uri"), "the key set URI is %s" % show(x)[:60], o)
                elif k in own:
                    free = k == "acr_values_supported" or o.facts.get(("IN", const(k), CAP)) is False or v.k == "phi"
                    ck.ob("C44.capabilities", "create_providerinfo:" + k, has_own(o, x, own[k]) and free, "%s is %s" % (k, show(x)[:80]), o)
                else:
                    ck.ob("C44.capabilities", "create_providerinfo:" + str(k), False, "a configured %s is announced as %s" % (k, show(x)[:60]), o)
        ju = attr(SELF, "jwks_uri")
        if o.facts.get(("T", ju)) is True and o.facts.get(("T", attr(SELF, "keyjar"))) is not False:
            ck.ob("C44.issuer", "create_providerinfo:jwks", d.get("jwks_uri") is ju, "the key set URI is not announced", o)
    if not n:
        raise Broken("create_providerinfo gives nothing")
    n = 0
    for o in ck.run(EC, "__init__", ["self", "CONF", None, None, None, None], cap=40, widen=300):
        iss = o.st.ov.get(("a", SELF, "issuer"))
        ju = o.st.ov.get(("a", SELF, "jwks_uri"))
        ci = item(CONF, const("issuer"))
        for x in (alts(iss) if iss is not None else ()):
            n += 1
            ck.ob("C44.issuer", "EndpointContext.__init__:issuer", x is ci or is_const(x) and not cval(x), "the issuer is %s" % show(x)[:60], o)
        for x in (alts(ju) if ju is not None else ()):
            ps = parts(x)
            ok = is_const(x) and not cval(x) or len(ps) >= 2 and (ps[0] is ci or ps[0] is iss or ps[0] is attr(SELF, "issuer") or ci in alts(ps[0]) or is_call(ps[0], "rstrip") and ps[0].a[1] in (ci, iss)) and \
                mentions(ps[-1], lambda s: s.k == "item" and s.a[1] is const("uri_path"))
            ck.ob("C44.issuer", "EndpointContext.__init__:jwks_uri", ok, "the key set URI is %s" % show(x)[:80], o)
    if not n:
        raise Broken("no issuer is set")
    for o in ck.run("oidcop.oidc.discovery.Discovery", "process_request", ["self", "REQ"], **BIG):
        hr = kv(o, o.val, "hrefs")
        xs = [l[1] for l in layers(o, hr)] if hr is not None else []
        ck.ob("C44.issuer", "Discovery.process_request", bool(xs) and all(is_iss(x) for x in xs), "discovery points at %s" % ", ".join(show(x)[:40] for x in xs), o)
        ck.ob("C44.published", "Discovery.process_request:subject", kv(o, o.val, "subject") is item(sym("REQ"), const("resource")), "discovery answers about another resource", o)
    # --- endpoints
    n = 0
    for o in ck.run("oidcop.util.build_endpoints", None, ["CONF", "SG", "ISS"], more_opaque={"importer"}, **BIG):
        if o.kind != "return":
            continue
        for (k, b, key), v in sorted(o.st.ov.items(), key=lambda x: str(x[0][2])):
            if k == "a" and key == "full_path":
                n += 1
                ps = parts(v)
                path = o.st.ov.get(("a", b, "endpoint_path"))
                ok = len(ps) == 3 and stripped(o, ps[0], ISS) and ps[1] is const("/") and path is not None and ps[2] is path and path.k == "item" and path.a[1] is const("path") or \
                    len(ps) == 2 and ps[0] is ISS and path is not None and ps[1] is path and any(a[0] == "T" and b_ is True and is_call(a[1], "endswith") and a[1].a[1] is ISS for a, b_ in o.facts.items())
                ck.ob("C44.urls", "build_endpoints:full_path", ok, "an endpoint is announced at %s" % show(v)[:100], o)
                nm = o.st.ov.get(("a", b, "endpoint_name")) or attr(b, "endpoint_name")
                if o.facts.get(("T", nm)) is True:
                    info = o.st.ov.get(("a", b, "endpoint_info")) or attr(b, "endpoint_info")
                    said = dict(writes(o, info))
                    ck.ob("C44.urls", "build_endpoints:announced", said.get(nm) is v, "an endpoint is not announced where it is: %s" % show(said.get(nm) or const(None))[:60], o)
                reg = [(kk, vv) for kk, vv in writes(o, o.val)]
                ck.ob("C44.urls", "build_endpoints:kept", any(vv is b and kk is attr(b, "name") for kk, vv in reg), "an endpoint is not kept under its name", o)
    if not n:
        raise Broken("no endpoint is given a URL")
    # --- capabilities
    for fn in ("get_capabilities", "do_endpoints"):
        n = 0
        if fn not in {f.node.name for f in ck.p.funcs.values()}:
            continue
        prm = ["CONF", "EPS"] if fn == "get_capabilities" else ["CONF", None]
        for o in ck.run("oidcop.server." + fn, None, prm, more_opaque={"build_endpoints"}, **BIG):
            if o.kind != "return":
                continue
            cap = item(CONF, const("capabilities"))
            for (k, b, key), v in o.st.ov.items():
                if k == "i" and b is cap:
                    n += 1
                    ck.ob("C44.capabilities", fn + ":kept", new_to(o, key, cap) or is_call(v, "get", "setdefault"), "a configured capability (%s) is replaced" % show(key)[:40], o)
                    ck.ob("C44.capabilities", fn + ":value", v.k == "item" and v.a[1] is key and v.a[0].k == "attr" and v.a[0].a[1] == "endpoint_info", "%s is announced as %s" % (show(key)[:40], show(v)[:60]), o)
            if fn == "get_capabilities":
                base = alts(o.val)
                ck.ob("C44.capabilities", fn + ":base", all(x is cap or x.k == "alloc" and (cap in spreads(o, x) or o.facts.get(("NONE", cap)) is True or o.facts.get(("T", cap)) is False or o.facts.get(("IN", const("capabilities"), CONF)) is False) for x in base),
                      "the configured capabilities are not announced", o)
    # --- algorithms: one capability of each kind, announced by default or given
    M = "oidcop.construct."
    kinds = {"signing_alg": ("userinfo_signing_alg_values_supported", "request_object_signing_alg_values_supported", "token_endpoint_auth_signing_alg_values_supported"),
             "encryption_alg": ("id_token_encryption_alg_values_supported", "request_object_encryption_alg_values_supported"),
             "encryption_enc": ("userinfo_encryption_enc_values_supported",), None: ("subject_types_supported",)}
    KW = sym("kwargs")
    for kind, names in sorted(kinds.items(), key=str):
        for key in names:
            n = 0
            for default in (const(None), sym("DEFAULT")):
                def pre(st, default=default, key=key):
                    return shaped(st, "DC", **{key: default})[0]
                k, DC = const(key), mk("alloc", "DC")
                facts = {("NONE", sym("DEFAULT")): False}
                for o in ck.run(M + "construct_endpoint_info", None, [DC], pre=pre, facts=facts, more_opaque={"assign_algorithms"}, raises=True, watch={"remove", "discard"}, **BIG):
                    if o.kind != "return" or o.val is None:
                        continue
                    got = item(KW, k)
                    given = o.facts.get(("IN", k, KW))
                    has = [a[1] for a, b in o.facts.items() if a[0] == "T" and is_assign(a[1], kind)]
                    if kind and any(o.facts.get(("T", h)) is False for h in has):
                        continue            # a library without algorithms
                    v = claims.final(o, o.val, key)[0] if o.val.k == "alloc" else kv(o, o.val, key)
                    n += 1
                    if v is None:
                        ck.ob("C44.capabilities", "construct_endpoint_info:lost", given is False and default is const(None) and kind is None, "%s is not announced" % key, o)
                        continue
                    for x in alts(v):
                        if x is got and given is not False:
                            sup = kind is None or o.facts.get(("T", got)) is False or any(b is True and a[0] == "IN" and a[1].k == "elem" and a[1].a[0] is got and is_assign(a[2], kind) for a, b in o.facts.items()) or \
                                any(b is (a[0] == "T" and a[1].a[0] in ("issuperset", "issubset")) and is_call(a[1], "issuperset", "issubset", "difference") and mentions_call(o, a, "assign_algorithms", kind) for a, b in o.facts.items() if a[0] == "T")
                            ck.ob("C44.algorithms", "construct_endpoint_info:" + key, sup, "algorithms that the library does not have are announced", o)
                            continue
                        ck.ob("C44.capabilities", "construct_endpoint_info:configured", given is not True, "a configured capability is announced as %s" % show(x)[:60], o)
                        if default is not const(None):
                            ck.ob("C44.algorithms", "construct_endpoint_info:default", x is default, "other algorithms than the endpoint has are announced", o)
                            continue
                        own = deep_has(o, x, lambda s: is_assign(s, kind)) or any(isinstance(y, T) and deep_has(o, y, lambda s: is_assign(s, kind)) for a in o.facts for y in a[1:])
                        ck.ob("C44.algorithms", "construct_endpoint_info:all " + key, own, "the algorithms of the library are not what is announced: %s" % show(x)[:60], o)
                        empty = x.k == "alloc" and not layers(o, x)
                        weak = {"signing_alg": "none", "encryption_alg": "RSA1_5"}.get(kind)
                        if weak:
                            gone = any(mentions(e.args, lambda s: s is const(weak)) for e in events(o, "remove", "discard"))
                            no = any(b is False and a[0] == "IN" and a[1] is const(weak) for a, b in o.facts.items())
                            ck.ob("C44.algorithms", "construct_endpoint_info:" + weak, gone or no or empty or without(o, x, kind, weak), "%s is announced without having been configured" % weak, o)
            if not n:
                raise Broken("construct_endpoint_info: nothing for " + key)
    # --- published
    for o in ck.run("oidcop.oidc.provider_config.ProviderConfiguration", "process_request", ["self", "REQ"], **BIG):
        ra = kv(o, o.val, "response_args")
        pi = attr(CTX, "provider_info")
        ck.ob("C44.published", "ProviderConfiguration.process_request", ra is pi or ra is not None and ra.k == "alloc" and spreads(o, ra) == [pi] and not list(writes(o, ra)), "what is published is %s" % show(ra or const(None))[:60], o)


def is_assign(t, kind):
    return is_call(t, "assign_algorithms") and const(kind) in list(t.a[2]) + [x for _, x in t.a[3]]


def without(o, t, kind, weak):
    """what is announced was compared with the weak algorithm"""
    for a, b in o.facts.items():
        if b is not False or a[0] not in ("IN", "EQ"):
            continue
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if isinstance(x, T) and x.k in ("elem", "item") and deep_has(o, x, lambda s: is_assign(s, kind)) and deep_has(o, y, lambda s: s is const(weak)):
                return True
    return False


def mentions_call(o, a, name, arg):
    return any(isinstance(x, T) and deep_has(o, x, lambda s: is_call(s, name) and const(arg) in list(s.a[2]) + [y for _, y in s.a[3]]) for x in a[1:])


def has_own(o, t, name):
    return deep_has(o, t, lambda s: is_call(s, name))


def has_default(o, dc, k):
    return o.facts.get(("NONE", item(dc, k))) is False


def is_elem(k):
    return k.k == "elem" or k.k == "sym"


def new_to(o, key, cap):
    return o.facts.get(("IN", key, cap)) is False


def is_iss(t):
    return t.k == "attr" and t.a[1] == "issuer"
