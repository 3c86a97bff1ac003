import os
import runpy

_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a_tokens.py"))
TOK = _a["TOK"]
S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("C03-owner-is-part-of-name", "C03",
  [("oidc/token.py", """        _session_info = _mngr.get_session_info_by_token(token_value, grant=True)
        if _session_info["client_id"] != req["client_id"]:
            logger.debug("{} owner of token".format(_session_info["client_id"]))
            logger.warning("{} using""", """        _session_info = _mngr.get_session_info_by_token(token_value, grant=True)
        if _session_info["client_id"] not in req["client_id"]:
            logger.debug("{} owner of token".format(_session_info["client_id"]))
            logger.warning("{} using""")],
  "a client whose identifier contains that of another presents the other's refresh token",
  "the refresh token of client_1 is usable by client_10",
  TOK + '''
s = server()
ctx = s.endpoint_context
ctx.cdb["client_10"] = client()
r = auth_code(s, scope=["openid", "offline_access"], prompt="consent")
tr = token_request(s, r["response_args"]["code"])
assert tr.get("refresh_token"), tr
x = refresh_request(s, tr["refresh_token"], cid="client_10")
assert "access_token" not in x, "another client's refresh token was accepted"
assert "access_token" in refresh_request(s, tr["refresh_token"])
''')

s("C08-no-class-any-class", "C08",
  [("token/jwt_token.py", """        if _class not in [self.token_class, self.alt_token_name]:
            raise WrongTokenClass(_payload["token_class"])
        else:
            _payload["token_class"] = self.token_class
""", """        if _class and _class not in [self.token_class, self.alt_token_name]:
            raise WrongTokenClass(_class)
        else:
            _payload["token_class"] = self.token_class
""")],
  "a JWT the OP signed for another purpose with the algorithm of access tokens, such as a logout token",
  "whatever the OP signs with that algorithm and carries a session id is taken for an access token",
  '''
from op import *
from cryptojwt.jwt import JWT
s = server(jwt=True)
ctx = s.endpoint_context
sid = session(s); granted(s, sid)
th = ctx.session_manager.token_handler
t = mint(s, sid, "access_token")
assert th["access_token"].info(t.value)["sid"]
# what the OP sends to clients when users log out
lt = JWT(ctx.keyjar, iss=ctx.issuer, lifetime=86400, sign_alg="ES256").pack(payload={"sid": sid, "events": {}}, recv="client_1")
try:
    info = th["access_token"].info(lt)
except Exception:
    info = None
assert not info, "a logout token is an access token"
''')

s("C19-replay-memory-too-short", "C19",
  [("client_authn.py", """            _key = "{}:{}".format(ca_jwt["iss"], _jti)
            if _key in _context.jti_db:
                raise MultipleUsage("Have seen this token once before")
            else:
                _context.jti_db[_key] = utc_time_sans_frac()

        request[verified_claim_name("client_assertion")] = ca_jwt
""", """            _key = "{}:{}".format(ca_jwt["iss"], _jti)
            _now = utc_time_sans_frac()
            _seen = _context.jti_db.get(_key)
            if _seen is not None and _now - _seen < 300:
                raise MultipleUsage("Have seen this token once before")
            else:
                _context.jti_db[_key] = _now

        request[verified_claim_name("client_assertion")] = ca_jwt
""")],
  "the same assertion, valid for an hour, presented again after more than five minutes",
  "a client assertion can be replayed as long as it lives",
  '''
from op import *
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar
import oidcop.client_authn as ca
s = server()
ctx = s.endpoint_context
ep = s.server_get("endpoint", "token")
kj = KeyJar(); kj.add_symmetric("", ctx.cdb["client_1"]["client_secret"], ["sig"])
kj.import_jwks(ctx.keyjar.export_jwks(), ctx.issuer)
j = JWT(kj, iss="client_1", sign_alg="HS256", lifetime=3600); j.with_jti = True
a = j.pack({"aud": [ep.full_path], "sub": "client_1"})
def auth():
    try:
        r = ep.client_authentication(ep.request_cls(client_assertion=a, client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer", grant_type="authorization_code"), {}, endpoint=ep)
    except Exception as e:
        return None
    return r.get("client_id")
assert auth() == "client_1"
assert auth() != "client_1"
# time passes
import time
base = ca.utc_time_sans_frac
ca.utc_time_sans_frac = lambda: base() + 900
assert auth() != "client_1", "replayed after a quarter of an hour"
''')

s("C25-only-clients-that-are-told", "C25",
  [("oidc/session.py", """        self.clean_sessions(_rel_sid)

        res = {}
""", """        self.clean_sessions(
            [
                _mngr.encrypted_session_id(_user_id, _cid)
                for _cid in list(bc_logouts) + list(fc_iframes)
            ]
            or _rel_sid
        )

        res = {}
""")],
  "a user with a session at a client with a logout URI and at one without logs out everywhere",
  "the session at the client that can not be told goes on",
  '''
from op import *
s = server()
ctx = s.endpoint_context
ctx.cdb["client_2"]["backchannel_logout_uri"] = "https://two.example/bc"
ctx.cdb["client_2"]["client_id"] = "client_2"
a = session(s); granted(s, a)
b = session(s, areq(client_id="client_2")); granted(s, b)
idt = ctx.session_manager[b]
mint(s, b, "id_token")
ep = s.server_get("endpoint", "session")
ep.logout_all_clients(b)
m = ctx.session_manager
assert m[b].revoked or m.client_session_is_revoked(b)
assert m.client_session_is_revoked(a), "the other client's session goes on"
''')

s("C31-form-post-cached", "C31",
  [("endpoint.py", """        http_headers.extend(OAUTH2_NOCACHE_HEADERS)

        _resp.update({"response": resp, "http_headers": http_headers})
""", """        if do_placement:
            http_headers.extend(OAUTH2_NOCACHE_HEADERS)

        _resp.update({"response": resp, "http_headers": http_headers})
""")],
  "an authorization response by form_post",
  "a page with the code and tokens in it may be cached",
  '''
from op import *
s = server()
ep = s.server_get("endpoint", "authorization")
pr = ep.parse_request(areq(response_mode="form_post").to_dict())
r = ep.process_request(pr)
d = ep.do_response(request=pr, **r)
h = [(k.lower(), v.lower()) for k, v in d["http_headers"]]
assert "<form" in d["response"]
assert ("cache-control", "no-store") in h, h
''')

s("C43-ephemeral-is-sequential", "C43",
  [("session/manager.py", "    return uuid.uuid4().hex\n", "    return uuid.uuid1().hex\n")],
  "two ephemeral subject identifiers of different users compared",
  "an ephemeral identifier tells which host made it and when, and can be guessed from another one",
  '''
from op import *
from oidcop.session import manager
l = [manager.ephemeral_id("diana", user_salt="s") for _ in range(6)]
same = [i for i in range(min(map(len, l))) if len({x[i] for x in l}) == 1]
assert len(set(l)) == 6 and len(same) < 8, "most of the identifier is the same every time"
''')

s("C30-escaping-by-extension", "C30",
  [("endpoint_context.py", "from jinja2 import FileSystemLoader\n", "from jinja2 import FileSystemLoader\nfrom jinja2 import select_autoescape\n"),
   ("endpoint_context.py", "                    _loader = Environment(loader=FileSystemLoader(_template_dir), autoescape=True)\n",
    '''                    _loader = Environment(
                        loader=FileSystemLoader(_template_dir), autoescape=select_autoescape()
                    )
''')],
  "a template that is not named .html, as the default of the password page, and a value with markup in it",
  "what users and clients provide is put unescaped in pages",
  '''
from op import *
import os
os.makedirs("template", exist_ok=True)
with open("template/user_pass.jinja2", "w") as f:
    f.write("<p>{{ login_hint }}</p>")
s = server()
page = s.endpoint_context.template_handler.render("user_pass.jinja2", login_hint="<script>alert(1)</script>")
assert "<script>" not in page, page
''')

s("C44-one-known-algorithm", "C44",
  [("construct.py", "            if _permitted and not _permitted.issuperset(set(_proposal)):\n", "            if _permitted and _permitted.isdisjoint(_proposal):\n")],
  "an algorithm the library does not have configured next to one that it has",
  "the metadata announces algorithms that do not exist",
  '''
from op import *
from oidcop.construct import construct_endpoint_info
key = "token_endpoint_auth_signing_alg_values_supported"
assert construct_endpoint_info({key: None}, **{key: ["ES256"]})[key] == ["ES256"]
try:
    r = construct_endpoint_info({key: None}, **{key: ["ES256", "XX99"]})
except ValueError:
    r = None
assert r is None, r
''')

s("C21-same-request-same-uri", "C21",
  [("oauth2/pushed_authorization.py", '''        _urn = "urn:uuid:{}".format(uuid.uuid4())
''', '''        _urn = "urn:uuid:{}".format(uuid.uuid5(uuid.NAMESPACE_URL, request.to_json()))
''')],
  "anyone that knows what was pushed, or two identical requests",
  "the request_uri can be computed by others, and two pushes share one URI, so that one of them is lost when it is used",
  '''
from op import *
from oidcop.oauth2.pushed_authorization import PushedAuthorization
s = server()
ep = PushedAuthorization(s.server_get)
a = ep.process_request(areq())["http_response"]["request_uri"]
b = ep.process_request(areq())["http_response"]["request_uri"]
assert a != b, "the URI is a function of the request"
''')

