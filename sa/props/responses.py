"""How answers leave the OP: what an error tells, where a response is put, and that nobody keeps it."""
import ast

from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop
from .session import argn

BIG = dict(cap=400, widen=9000)
REQ, RARGS, ERR, KW = sym("REQ"), sym("RARGS"), sym("ERR"), sym("kwargs")
EP = "oidcop.endpoint.Endpoint"
TOLD = {"error", "error_description", "error_uri", "state"}
NOSTORE = (("Pragma", "no-cache"), ("Cache-Control", "no-store"))
PUBLIC = {"oidcop.oidc.discovery.Discovery": "who the issuer of an account is, the same for everyone"}
TOKENS = {"access_token", "id_token"}


def endpoints(p):
    out = []
    for q, c in sorted(p.classes.items()):
        if not c.module.external and q not in PUBLIC and EP in p.mro(q):
            out.append(q)
    return out


def class_const(p, q, name):
    for x in p.mro(q):
        c = p.get_class(x)
        if c is not None and name in getattr(c, "attrs", {}):
            e = c.attrs[name]
            return e.value if isinstance(e, ast.Constant) else None
    return None


def elements(o, t, seen=()):
    """what is known to be in a sequence"""
    if t is None or t in seen:
        return
    seen = seen + (t,)
    if t.k == "tuple":
        for x in t.a:
            yield x
    elif t.k == "lit" and t.a[0] == "seq":
        for x in t.a[1]:
            yield x
    elif t.k == "alloc":
        for l in layers(o, t):
            if l[0] == "i":
                yield l[1]
            elif l[0] == "s":
                for x in elements(o, l[1], seen):
                    yield x
    elif t.k == "op" and t.a[0] in ("add", "Add", "iadd", "list", "tuple"):
        for x in t.a[1:]:
            if isinstance(x, T):
                for y in elements(o, x, seen):
                    yield y
    for e in o.trace:
        if e.kind == "mutate" and e.recv is t:
            for _, a in e.args:
                if e.name in ("append", "insert"):
                    yield a
                elif e.name == "extend":
                    for x in elements(o, a, seen):
                        yield x


def pair(o, t):
    xs = list(elements(o, t)) if t.k != "const" else []
    if len(xs) == 2 and all(is_const(x) for x in xs):
        return (cval(xs[0]), cval(xs[1]))
    if is_const(t) and isinstance(cval(t), tuple):
        return cval(t)
    return None


def written(o, t):
    """keys known to be in a message or mapping: [(key, value)], and what else it is made of"""
    known, other = [], []
    for l in layers(o, t):
        if l[0] == "kv" and is_const(l[1]):
            known.append((cval(l[1]), l[2]))
        else:
            other.extend(x for x in l[1:] if isinstance(x, T))
    for (k, b, key), v in o.st.ov.items():
        if k == "i" and b is t:
            if is_const(key):
                known.append((cval(key), v))
            else:
                other.append(v)
    return known, other


def placed(ck, name, o, resp, where):
    """is the response where the endpoint says?"""
    rq = [s for s in deep(o, resp) if is_call(s, "request")]
    if where == "url":
        ok = resp.k == "call" and resp.a[0] == "request" and len(rq) == 1
        loc = call_arg_(resp, "location", 0) if ok else None
        ck.ob("C31.place", name + ".do_response:uri", ok and loc is item(KW, const("return_uri")), "a response is put on %s" % show(loc or const(None))[:80], o)
        frag = call_arg_(resp, "fragment_enc", 1) if ok else None
        fe, rt = item(KW, const("fragment_enc")), item(KW, const("return_type"))
        want = o.facts.get(("T", fe)) is True or any(a_[0] == "EQ" and b_ is False and rt in a_[1:] for a_, b_ in o.facts.items()) or has_call(frag or const(None), "fragment_encoding")
        if want:
            ck.ob("C31.place", name + ".do_response:fragment", frag is not None and (frag is fe or has_call(frag, "fragment_encoding") or is_const(frag) and bool(cval(frag))), "what belongs in the fragment is put in the query", o)
    elif where == "body":
        ck.ob("C31.place", name + ".do_response:body", not rq, "a response that belongs in the body is put on a URI", o)


@prop("C31")
def responses(ck):
    ck.rule("C31.error", "an error response tells the error, its description, URI and state, and nothing else", 10)
    ck.rule("C31.nostore", "every response of an endpoint is marked not to be stored or cached", 20)
    ck.rule("C31.place", "a response carries what was constructed for this request, in the body or on the given return URI, as the endpoint says", 10)
    ck.rule("C31.pass", "status and cookies that come with a response are passed on, and its content type replaces any other", 10)
    ck.rule("C31.front", "tokens in an authorization response travel in the fragment; a code alone in the query", 4)
    ck.rule("C31.mode", "a response mode is only used if it does not expose what the response type protects", 4)
    p = ck.p
    wf = lambda kind, name, recv, it, st: kind == "mutate" and name in ("append", "extend", "insert") and "response" not in show(recv)
    done = set()
    for q in endpoints(p):
        f = p.find_method(q, "do_response")
        key = (f.qual, class_const(p, q, "response_placement"), class_const(p, q, "response_format"))
        if key in done:
            continue
        done.add(key)
        name = q.rpartition(".")[2]
        prm = [x for x in f.params]
        binds = {n: v for n, v in (("response_args", RARGS), ("request", REQ), ("error", ERR), ("client_id", sym("CID"))) if n in prm}
        err = ERR if "error" in prm else item(KW, const("error"))
        n = 0
        for o in ck.run(q, "do_response", None, binds=binds, more_opaque={"response_info", "pack"}, watch_fn=wf, **BIG):
            if o.kind != "return":
                continue
            n += 1
            get = lambda k: kv(o, o.val, k) if o.val.k == "alloc" else item(o.val, const(k))
            # --- headers
            h = get("http_headers")
            have = {pair(o, x) for x in elements(o, h)} if h is not None else set()
            if h is not None:
                have |= {x for x in (tuple(cval(y) if is_const(y) else None for y in elements(o, e)) for e in elements(o, h)) if len(x) == 2}
            ck.ob("C31.nostore", name + ".do_response", all(x in have for x in NOSTORE), "a response may be stored: %s" % sorted(str(x) for x in have), o)
            # --- passed on
            if f.qual.startswith(EP):
                for k in ("cookie", "response_code"):
                    if o.facts.get(("IN", const(k), KW)) is True:
                        ck.ob("C31.pass", "%s.do_response:%s" % (name, k), get(k) is item(KW, const(k)), "%s is lost" % k, o)
                    else:
                        v = get(k)
                        ck.ob("C31.pass", "%s.do_response:%s" % (name, k), v is None or is_const(v) and not cval(v) or v is item(KW, const(k)) or is_call(v, "get"), "%s is %s" % (k, show(v or const(None))[:60]), o)
            resp = get("response")
            # --- errors
            if o.facts.get(("T", err)) is True:
                body = [s for s in deep(o, resp) if s.k == "alloc" and layers(o, s)] if resp is not None else []
                ck.ob("C31.error", name + ".do_response:args", resp is not None and not deep_has(o, resp, lambda s: s is RARGS or is_call(s, "response_info")) and not has_sub(resp, item(KW, const("response_msg"))),
                      "an error response is made from the response arguments", o)
                for b in body:
                    known, other = written(o, b)
                    for k, v in known:
                        ok = k in TOLD and (v is err if k == "error" else has_sub(v, item(KW, const(k))) or is_const(v) and not cval(v) or v.k == "op" and v.a[0] == "deleted")
                        ck.ob("C31.error", "%s.do_response:%s" % (name, k), ok, "an error response tells %s = %s" % (k, show(v)[:60]), o)
                    ck.ob("C31.error", name + ".do_response:rest", not other, "an error response is made of %s" % show(other[0])[:80] if other else "", o)
                if is_const(resp) and cval(resp) is None:
                    pass  # the caller said what type the content is and gave none
                else:
                    if f.qual.startswith(EP):
                        placed(ck, name, o, resp, key[1])
                    ck.ob("C31.error", name + ".do_response:error", any(k == "error" and v is err for b in body for k, v in written(o, b)[0]), "an error response does not say that it is one", o)
                continue
            if not f.qual.startswith(EP):
                continue
            # --- prepared
            if o.facts.get(("IN", const("response_msg"), KW)) is True:
                ck.ob("C31.place", name + ".do_response:msg", resp is item(KW, const("response_msg")), "a prepared response is replaced by %s" % show(resp or const(None))[:80], o)
                rp = get("response_placement")
                asked = item(KW, const("response_placement"))
                if o.facts.get(("T", asked)) is True:
                    ck.ob("C31.place", name + ".do_response:placement", rp is asked, "a prepared response is put somewhere else", o)
                continue
            # --- constructed
            if resp is None or is_const(resp) and cval(resp) is None:
                ck.ob("C31.place", name + ".do_response:none", o.facts.get(("NONE", item(KW, const("content_type")))) is False, "the response is lost", o)
                continue
            infos = [s for s in deep(o, resp) if is_call(s, "response_info")]
            ok = len(set(infos)) == 1
            if ok:
                c = infos[0]
                a = dict(c.a[3])
                xs = list(c.a[2])
                ra = a.get("response_args", xs[0] if xs else None)
                ok = (ra is RARGS or o.facts.get(("NONE", RARGS)) is True or ra is not None and ra.k == "alloc" and not layers(o, ra) and o.facts.get(("T", RARGS)) is False) and \
                    a.get("request", xs[1] if len(xs) > 1 else None) is REQ
            ck.ob("C31.place", name + ".do_response:constructed", ok, "the response is %s" % show(resp)[:100], o)
            placed(ck, name, o, resp, key[1])
        if not n:
            raise Broken("%s.do_response gives nothing" % name)
    for o in ck.run("oidcop.endpoint.fragment_encoding", None, ["RT"], truth=True, **BIG):
        rt = sym("RT")
        low = is_const(o.val) and not cval(o.val)
        code = any(a[0] == "EQ" and b is True and rt in a[1:] and any(codes(o, x) for x in a[1:]) for a, b in o.facts.items()) or \
            any(a[0] == "VAL" and a[1] is rt and cval(b) in (["code"], ("code",)) for a, b in o.facts.items() if isinstance(b, T) and is_const(b))
        cond = o.val.k in ("cond", "not")
        ck.ob("C31.front", "fragment_encoding", code if low else is_const(o.val) and bool(cval(o.val)) or cond, "a response type with tokens goes in the query", o)
    # --- headers of the content
    H, CT = sym("H"), sym("CT")
    for o in ck.run("oidcop.endpoint.set_content_type", None, ["H", "CT"], **BIG):
        if o.val is H:
            ok = any(a[0] == "IN" and b is True and a[2] is H and CT in list(elements(o, a[1])) for a, b in o.facts.items())
        else:
            ok = any(CT in list(elements(o, x)) for x in elements(o, o.val))
        ck.ob("C31.pass", "set_content_type", ok, "the content type is not set", o)
    # --- which part of the URI
    n = 0
    for cls in ("oidcop.oauth2.authorization.Authorization", "oidcop.oidc.authorization.Authorization"):
        nm = ".".join(cls.split(".")[1:2]) + ".Authorization"
        for o in ck.run(cls, "create_authn_response", ["self", "REQ", "SID"], more_opaque={"filter_scopes", "authentication_error_response"}, **BIG):
            if o.kind != "return" or one_of_two(o):
                continue
            ra, fe = kv(o, o.val, "response_args"), kv(o, o.val, "fragment_enc")
            has = {k for k, v in written(o, ra)[0]} if ra is not None and ra.k == "alloc" else set()
            if has & TOKENS:
                n += 1
                ck.ob("C31.front", nm + ".create_authn_response:tokens", fe is not None and is_const(fe) and cval(fe) is True, "tokens are put in the query (fragment: %s)" % (show(fe) if fe is not None else None), o)
            elif "code" in has and only_code(o):
                n += 1
                ck.ob("C31.front", nm + ".create_authn_response:code", fe is not None and is_const(fe) and cval(fe) is False, "a code is put in the fragment", o)
        # what was decided is what response_mode and the response get
        for o in ck.run(cls, "post_authentication", ["self", "REQ", "SID"], more_opaque={"create_authn_response", "response_mode", "get_uri", "error_response"}, watch={"response_mode", "create_authn_response"}, **BIG):
            if o.kind != "return":
                continue
            for e in events(o, "create_authn_response"):
                t = e.res if e.res is not None else None
                for (k, b, key), v in o.st.ov.items():
                    if k == "i" and is_call(b, "create_authn_response") and key is const("fragment_enc"):
                        ck.ob("C31.mode", nm + ".post_authentication:kept", is_const(v) and cval(v) is True, "where the response belongs is changed to %s" % show(v), o)
            for e in events(o, "response_mode"):
                d = dict(e.args)
                src = d.get("fragment_enc", d.get(None))
                ok = src is not None and mentions(src, lambda s: is_call(s, "create_authn_response"))
                ck.ob("C31.mode", nm + ".post_authentication:mode", ok, "the response mode is not held against where the response belongs", o, e.site)
        FE, KWA = sym("FE"), sym("kwargs")
        mode = item(REQ, const("response_mode"))
        for o in ck.run(cls, "response_mode", ["self", "REQ", "RARGS", "RURI", "FE"], raises=True, more_opaque={"inputs"}, **BIG):
            m = o.facts.get(("VAL", mode))
            m = cval(m) if m is not None and is_const(m) else None
            if o.kind == "raise":
                continue
            ck.ob("C31.mode", nm + ".response_mode:known", m in ("query", "fragment", "form_post"), "a response mode that is not known is accepted", o)
            g = lambda k: o.st.ov.get(("i", o.val, const(k))) or kv(o, o.val, k) or o.st.ov.get(("i", KWA, const(k)))
            if m == "query":
                no = o.facts.get(("EQ", FE, const(True))) is False or o.facts.get(("T", FE)) is False or o.facts.get(("VAL", FE)) in (const(False), const(None)) or o.facts.get(("NONE", FE)) is True \
                    or any(a[0] == "EQ" and b is False and FE in a[1:] and const(True) in a[1:] for a, b in o.facts.items())
                ck.ob("C31.mode", nm + ".response_mode:query", no, "tokens are put in the query because the request says so", o)
            if m == "fragment":
                v = g("fragment_enc")
                ck.ob("C31.mode", nm + ".response_mode:fragment", v is not None and is_const(v) and bool(cval(v)), "what should be in the fragment is not", o)
            if m in ("query", "fragment"):
                # an error that says itself where it goes (C14.mode) is unpacked here
                own = o.facts.get(("IN", const("error"), RARGS)) is True and (
                    g("return_uri") is sym("RURI") or o.facts.get(("T", sym("RURI"))) is False and is_key(g("return_uri") or const(None), "return_uri", lambda b: True))
                ck.ob("C31.mode", nm + ".response_mode:same", (own or g("response_args") is RARGS and g("return_uri") is sym("RURI")) and g("response_msg") is None, "another response, or to somewhere else", o)
            if m == "form_post":
                ck.ob("C31.mode", nm + ".response_mode:form", g("response_msg") is not None and g("response_placement") is const("body"), "a form is not put in the body", o)
                ck.ob("C31.mode", nm + ".response_mode:form only", g("response_args") is None and g("fragment_enc") is None, "what is posted is also put on the URI", o)
    if n < 4:
        raise Broken("create_authn_response: %d answers" % n)


def codes(o, t):
    """["code"]"""
    xs = list(elements(o, t))
    return len(xs) == 1 and xs[0] is const("code") or is_const(t) and cval(t) in (["code"], ("code",), "code")


def only_code(o):
    """the path is one for the response type code and nothing more"""
    for a, b in o.facts.items():
        if a[0] == "IN" and b is True and is_const(a[1]) and cval(a[1]) in ("token", "id_token"):
            return False
    return any(a[0] in ("EQ", "LT") and b is True and mentions_len(a) for a, b in o.facts.items())


def one_of_two(o):
    """one thing that is said to be two: no such path"""
    for a, b in o.facts.items():
        n = a[1] if a[0] == "VAL" and isinstance(a[1], T) else None
        if n is not None and n.k == "op" and n.a[0] == "len" and (b is const(1) or b == 1):
            x = n.a[1]
            if len({c[1] for c, v in o.facts.items() if c[0] == "IN" and v is True and c[2] is x and is_const(c[1])}) > 1:
                return True
    return False


def mentions_len(a):
    return any(isinstance(x, T) and mentions(x, lambda s: s.k == "op" and s.a[0] == "len") for x in a[1:])


def call_arg_(t, name, i):
    d = dict(t.a[3])
    return d[name] if name in d else t.a[2][i] if i < len(t.a[2]) else None
