"""HTML the OP makes."""
import ast
import re

from ..core import Broken
from ..frame import *  # noqa
from ..frame import SELF
from . import prop

BIG = dict(cap=400, widen=3000)
TAG = re.compile(r"<\s*/?\s*[a-zA-Z!][^<>]*")
ESCAPE = {"html.escape", "markupsafe.escape"}
URLENC = {"urllib.parse.urlencode", "urllib.parse.quote", "urllib.parse.quote_plus"}
SCRIPT = {"javascript", "data", "vbscript"}
A2 = "oidcop.oauth2.authorization.Authorization"
REG = "oidcop.oidc.registration.Registration"
KEYS = {"http_response", "response_msg"}


def html_consts(node):
    doc = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
            doc.add(id(n.body[0].value))
    return [n for n in ast.walk(node) if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc and TAG.search(n.value)]


def dotted(mod, node):
    """the dotted name an expression stands for in a module"""
    if isinstance(node, ast.Name):
        return mod.imports.get(node.id)
    if isinstance(node, ast.Attribute):
        b = dotted(mod, node.value)
        return b + "." + node.attr if b else None
    return None


def sources(p):
    """functions that make HTML: those with a literal with a tag, or that use a module level one"""
    glob = {}
    for m in p.modules.values():
        if not m.external:
            for k, e in m.globals.items():
                if e is not None and html_consts(e):
                    glob[m.name + "." + k] = e
    out, keyed = {}, {}
    for f in p.funcs.values():
        if f.module.external:
            continue
        if html_consts(f.node):
            out[f.qual] = f
        for n in ast.walk(f.node):
            q = None
            if isinstance(n, ast.Name):
                q = f.module.imports.get(n.id) or f.module.name + "." + n.id
            elif isinstance(n, ast.Attribute):
                q = dotted(f.module, n)
            if q in glob:
                out[f.qual] = f
            if isinstance(n, ast.Constant) and n.value in KEYS or isinstance(n, ast.keyword) and n.arg in KEYS:
                keyed[f.qual] = f
            g = q and p.modules.get(q.rpartition(".")[0])
            e = g and g.globals.get(q.rpartition(".")[2])
            if isinstance(e, ast.Constant) and e.value in KEYS:
                keyed[f.qual] = f
    return out, keyed, glob


def encoders(p):
    """what the names of the escaping functions stand for in the source"""
    good, bad = set(), set()
    for m in p.modules.values():
        if m.external:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                if nm in ("escape", "urlencode", "quote", "quote_plus"):
                    d = dotted(m, n.func)
                    (good if d in ESCAPE | URLENC else bad).add(nm)
    return good - bad


def safe(o, t, enc, depth=0):
    """t can be put in HTML text or in a quoted attribute value: True, or the part that can not"""
    if depth > 12:
        return t
    if is_const(t):
        return True
    if t.k == "phi":
        for x in t.a:
            r = safe(o, x, enc, depth + 1)
            if r is not True:
                return r
        return True
    if t.k == "op":
        if t.a[0] in ("int", "len"):
            return True
        if t.a[0] in ("fmt", "add", "str", "join", "mod"):
            for x in t.a[1:]:
                if isinstance(x, T):
                    r = safe(o, x, enc, depth + 1)
                    if r is not True:
                        return r
            return True
        return t
    if t.k == "call":
        if t.a[0] in ("escape", "urlencode", "quote", "quote_plus") and t.a[0] in enc:
            q = dict(t.a[3]).get("quote") if t.a[0] == "escape" else None
            if q is None and t.a[0] == "escape" and len(t.a[2]) > 1:
                q = t.a[2][1]
            return True if q is None or is_const(q) and cval(q) else t
        if t.a[0] in ("int", "len"):
            return True
        if t.a[0] in ("str", "strip", "join") and (t.a[2] or t.a[1] is not None):
            for x in ([t.a[1]] if t.a[1] is not None else []) + list(t.a[2]):
                r = safe(o, x, enc, depth + 1)
                if r is not True:
                    return r
            return True
        return t
    if t.k in ("alloc", "tuple"):
        items = list(t.a) if t.k == "tuple" else [x for l in layers(o, t) for x in l[1:] if isinstance(x, T)]
        for x in items:
            r = safe(o, x, enc, depth + 1)
            if r is not True:
                return r
        return True
    return t


def position(txt):
    """-> ("text" | "tag" | "value", name of the attribute in whose quoted value the text ends)"""
    intag, quote, name = False, None, ""
    word = ""
    for c in txt:
        if quote:
            if c == quote:
                quote = None
        elif intag:
            if c in "\"'":
                quote, name = c, word.strip(" =\n\t")
                word = ""
            elif c == ">":
                intag = False
            elif c in " \n\t" and not word.endswith("="):
                word = ""
            else:
                word += c
        elif c == "<":
            intag, word = True, ""
    if quote:
        return "value", name
    return ("tag" if intag else "text"), None


def context(parts):
    """-> the first part that stands where escaping does not help"""
    txt = ""
    for x in parts:
        if isinstance(x, T) and not is_const(x):
            low = txt.lower()
            if low.rfind("<script") > low.rfind("</script") or low.rfind("<style") > low.rfind("</style"):
                return x
            where, quoted = position(txt)
            if where == "tag" or quoted and re.match(r"on", quoted, re.I):
                return x
            txt += "x"
        else:
            txt += str(cval(x)) if isinstance(x, T) else str(x)
    return None


def is_html(t):
    return t.k == "op" and t.a[0] in ("fmt", "add", "mod") and any(
        isinstance(x, T) and is_const(x) and isinstance(cval(x), str) and TAG.search(cval(x)) for x in t.a[1:])


def reachable(o):
    for t in [o.val] if o.val is not None else []:
        yield t
    for v in o.st.ov.values():
        if isinstance(v, T):
            yield v
    for ob in o.st.heap.values():
        for l in ob.layers if hasattr(ob, "layers") else ():
            for x in l[1:]:
                if isinstance(x, T):
                    yield x
    for e in o.trace:
        for _, x in e.args:
            if isinstance(x, T):
                yield x


@prop("C30")
def pages(ck):
    ck.rule("C30.escape", "what is put in a HTML page or form is escaped, and stands where escaping helps", 8)
    ck.rule("C30.page", "what the OP answers with as a page holds no text that is not escaped", 1)
    ck.rule("C30.templates", "templates are rendered with escaping", 1)
    ck.rule("C30.uri", "no URL a client registers for use on a page of the OP is a script", 6)
    p = ck.p
    enc = encoders(p)
    html, keyed, glob = sources(p)
    if not html:
        raise Broken("no function makes HTML")
    for q, f in sorted(html.items()):
        cls = f.cls.qual if f.cls is not None and hasattr(f.cls, "qual") else f.cls
        seen = 0
        for o in run(ck, f):
            for t in reachable(o):
                for s in subterms(t):
                    if not is_html(s):
                        continue
                    seen += 1
                    lab = q.partition(".")[2]
                    r = safe(o, s, enc)
                    ck.ob("C30.escape", lab, r is True, "%s is put in HTML as it is" % ("" if r is True else show(r)[:100]), o)
                    c = context(s.a[1:])
                    ck.ob("C30.escape", lab + ":where", c is None, "%s is put where escaping does not help" % ("" if c is None else show(c)[:100]), o)
        if not seen:
            ck.ob("C30.escape", q.partition(".")[2] + ":constant", True)
    for q, f in sorted(keyed.items()):
        for o in run(ck, f, raises=True, inline=small):
            if o.kind == "raise":
                continue
            for k in KEYS:
                v = kv(o, o.val, k) if o.val.k == "alloc" else o.st.ov.get(("i", o.val, const(k)))
                if v is None or v.k != "op":
                    continue
                r = safe(o, v, enc)
                ck.ob("C30.page", q.partition(".")[2] + ":" + k, r is True, "%s is put on a page as it is" % ("" if r is True else show(r)[:100]), o)
    templates(ck)
    uris(ck)


def small(fi):
    """helpers are followed, the work of an endpoint is not"""
    return sum(isinstance(n, ast.stmt) for n in ast.walk(fi.node)) <= 15


def run(ck, f, raises=False, **kw):
    kw = {**BIG, **kw}
    ps = [None if n == "self" else n.upper() for n in f.params]
    if f.cls is not None:
        c = f.cls if isinstance(f.cls, str) else f.cls.qual
        return ck.run(c, f.name, ps, raises=raises, watch_fn=lambda k, n, r, it, st: k == "call", **kw)
    return ck.run(f.qual, None, ps, raises=raises, watch_fn=lambda k, n, r, it, st: k == "call", **kw)


def templates(ck):
    n = 0
    for m in ck.p.modules.values():
        if m.external:
            continue
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.Call):
                continue
            d = dotted(m, c.func) or ""
            nm = d.rpartition(".")[2]
            if d.startswith("jinja2") and nm in ("Environment", "Template", "SandboxedEnvironment"):
                n += 1
                a = next((k.value for k in c.keywords if k.arg == "autoescape"), None)
                ok = isinstance(a, ast.Constant) and a.value is True
                if a is not None and not ok:
                    x = a
                    if isinstance(x, ast.Name) and x.id in m.globals:
                        x = m.globals[x.id]
                    ok = isinstance(x, ast.Constant) and x.value is True or isinstance(x, ast.Call) and any(
                        k.arg in ("default", "default_for_string") and isinstance(k.value, ast.Constant) and k.value.value is True for k in x.keywords) or (
                        isinstance(x, ast.Call) and any(isinstance(y, ast.Constant) and isinstance(y.value, str) and y.value.startswith("jinja") for y in ast.walk(x)))
                ck.ob("C30.templates", "%s:%s" % (m.name, nm), ok, "templates are rendered without escaping (%s line %d)" % (m.path, c.lineno))
            if nm in ("Markup",) and d.startswith(("markupsafe", "jinja2", "flask")):
                ck.ob("C30.templates", "%s:Markup" % m.name, not c.args or isinstance(c.args[0], ast.Constant), "text is marked as safe HTML")
    if not n:
        raise Broken("no template environment")


def not_script(o, uri):
    """the path knows that a URL is no script"""
    def scheme(t):
        return t.k == "attr" and t.a[1] == "scheme" and is_call(t.a[0], "urlparse", "urlsplit") and uri(t.a[0].a[2][0]) or (
            t.k == "op" and t.a[0] == "lower" and scheme(t.a[1])) or is_call(t, "lower") and t.a[1] is not None and scheme(t.a[1])
    no = set()
    for a, b in o.facts.items():
        if a[0] == "VAL" and scheme(a[1]):
            x = b
            x = cval(x) if isinstance(x, T) else x
            return x not in SCRIPT
        if a[0] == "EQ":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if isinstance(x, T) and scheme(x) and isinstance(y, T) and is_const(y):
                    if b is True:
                        return cval(y) not in SCRIPT
                    no.add(cval(y))
        if a[0] == "IN" and isinstance(a[1], T) and scheme(a[1]):
            els = members(o, a[2])
            if els is None:
                continue
            if b is True:
                return not (els & SCRIPT)
            no |= els
    return SCRIPT <= no


def members(o, c):
    if c.k in ("tuple", "lit"):
        xs = list(c.a[1] if c.k == "lit" else c.a)
    elif c.k == "alloc":
        ls = layers(o, c)
        if any(l[0] != "i" for l in ls):
            return None
        xs = [l[1] for l in ls]
    elif is_const(c) and isinstance(cval(c), (tuple, list, set, frozenset)):
        return set(cval(c))
    else:
        return None
    return {cval(x) for x in xs} if all(is_const(x) for x in xs) else None


def uris(ck):
    REQ = sym("REQ")
    n = 0
    for o in ck.run(REG, "verify_redirect_uris", ["REQ"], loop=2, **BIG):
        if o.kind != "return":
            continue
        for e in elems(o, o.val):
            src = [s for s in subterms(e) if s.k == "elem" or s.k == "item" and s.a[0] is item(REQ, const("redirect_uris"))]
            if not src:
                continue
            n += 1
            u = src[0]
            ck.ob("C30.uri", "redirect_uris", not_script(o, lambda t: t is u or has_sub(t, u)), "a script is accepted as redirect URI", o)
    if not n:
        raise Broken("verify_redirect_uris accepts nothing")


    FC = "frontchannel_logout_uri"
    OTHER = ["redirect_uris", "post_logout_redirect_uri", "request_uris", "sector_identifier_uri", "policy_uri", "logo_uri", "tos_uri",
             "id_token_signed_response_alg", "userinfo_signed_response_alg", "jwks_uri", "jwks"]
    fs = {("IN", const(x), REQ): x == FC for x in OTHER + [FC]}
    v = item(REQ, const(FC))
    fs[("T", v)] = True
    n = 0
    for o in ck.run(REG, "do_client_registration", ["self", "REQ", "CID", "IGN"], facts=fs,
                    more_opaque={"verify_redirect_uris", "_verify_sector_identifier", "load_keys", "split_uri"}, **BIG):
        if o.kind != "return" or is_error_val(o, o.val):
            continue
        n += 1
        ck.ob("C30.uri", FC, not_script(o, lambda t: has_sub(t, v)), "a script is accepted as %s" % FC, o)
    if not n:
        raise Broken("do_client_registration accepts no %s" % FC)


def elems(o, v):
    if v.k == "alloc":
        return [x for l in layers(o, v) for x in l[1:] if isinstance(x, T)]
    return []
