S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


TOK = '''
from op import *

def token_request(s, code, cid="client_1", **kw):
    ep = s.server_get("endpoint", "token")
    d = dict(grant_type="authorization_code", code=code, client_id=cid, redirect_uri="https://rp.example/cb",
             client_secret="hemligtsecret0123456789")
    d.update(kw)
    pr = ep.parse_request(d)
    if "error" in pr:
        return pr.to_dict()
    r = ep.process_request(pr)
    return r.get("response_args", r.to_dict() if hasattr(r, "to_dict") else r)

def refresh_request(s, rt, cid="client_1", **kw):
    ep = s.server_get("endpoint", "token")
    d = dict(grant_type="refresh_token", refresh_token=rt, client_id=cid, client_secret="hemligtsecret0123456789")
    d.update(kw)
    pr = ep.parse_request(d)
    if "error" in pr:
        return pr.to_dict()
    r = ep.process_request(pr)
    return r.get("response_args", r.to_dict() if hasattr(r, "to_dict") else r)
'''

s("C01-used-only-with-openid", "C01",
  [("oidc/token.py", "                _response[\"id_token\"] = _idtoken.value\n\n        _based_on.register_usage()\n",
    "                _response[\"id_token\"] = _idtoken.value\n                _based_on.register_usage()\n"),],
  "a code bought with a scope that lacks openid at the OIDC token endpoint, presented twice",
  "codes of authorization requests without the openid scope can be redeemed again and again",
  TOK + '''
s = server()
sid = session(s, areq(scope=["profile"])); granted(s, sid, ["profile"])
code = mint(s, sid, "authorization_code").value
a = token_request(s, code)
assert "access_token" in a, a
b = token_request(s, code)
assert "access_token" not in b, "code redeemed twice: %r" % b
''')

s("C02-grandchildren-survive", "C02",
  [("session/grant.py", """            elif based_on and t.based_on == based_on:
                t.revoked = True
                if recursive:
                    self.revoke_token(based_on=t.value)
""", """            elif based_on and t.based_on == based_on:
                if recursive and not t.revoked:
                    self.revoke_token(based_on=t.value)
                t.revoked = True
""")],
  "the refresh token bought with the code was revoked (rotated) before the code is replayed",
  "what was minted from an already revoked refresh token keeps working after the replay of the code",
  TOK + '''
s = server()
s.endpoint_context.cdb["client_1"]["revoke_refresh_on_issue"] = True
code = auth_code(s, scope=["openid", "offline_access"], prompt="consent")["response_args"]["code"]
a = token_request(s, code)
b = refresh_request(s, a["refresh_token"])
assert "access_token" in b, b
sm = s.endpoint_context.session_manager
g = sm.get_session_info_by_token(b["access_token"], grant=True)["grant"]
t = g.get_token(b["access_token"])
assert t.is_active()
c = token_request(s, code)
assert "error" in c, c
assert not t.is_active(), "token bought with the replayed code is still active"
''')

s("C06-refresh-scope-of-grant", "C06",
  [("oidc/token.py", """            req_scopes = set(request["scope"])
            scopes = set(grant.find_scope(token.based_on))
            if not req_scopes.issubset(scopes):
""", """            req_scopes = set(request["scope"])
            scopes = set(grant.find_scope(token.based_on))
            scopes.update(grant.authorization_request.get("scope", []))
            if not req_scopes.issubset(scopes):
""")],
  "the user granted less than the authorization request asked for",
  "a refresh can obtain scope values that were asked for but not granted",
  TOK + '''
s = server()
sid = session(s, areq(scope=["openid", "offline_access", "email"]))
granted(s, sid, ["openid", "offline_access"])
code = mint(s, sid, "authorization_code").value
a = token_request(s, code)
b = refresh_request(s, a["refresh_token"], scope=["openid", "email"])
assert "access_token" not in b, "scope widened: %r" % b
b = refresh_request(s, a["refresh_token"], scope=["openid"])
assert "access_token" in b, b
''')

s("C07-minting-inactive-origin", "C07",
  [("session/grant.py", """            if not based_on.is_active():
                raise MintingNotAllowed("Token inactive")
            _base_on_ref = based_on.value
""", """            if "max_usage" in based_on.usage_rules and not based_on.is_active():
                raise MintingNotAllowed("Token inactive")
            _base_on_ref = based_on.value
""")][:1],
  "a token is minted from a revoked refresh token, which has no usage limit",
  "revoked tokens without a usage limit can still mint",
  TOK + '''
from oidcop.session import MintingNotAllowed
s = server()
sid = session(s); granted(s, sid)
code = mint(s, sid, "authorization_code")
rt = mint(s, sid, "refresh_token", based_on=code)
rt.revoke()
try:
    t = mint(s, sid, "access_token", based_on=rt)
except MintingNotAllowed:
    t = None
assert t is None, "minted from a revoked refresh token"
''')

s("C04-redirect-only-if-present", "C04",
  [("oauth2/token.py", """        if "redirect_uri" in _authn_req:
            if req["redirect_uri"] != _authn_req["redirect_uri"]:
""", """        if "redirect_uri" in _authn_req:
            if req.get("redirect_uri") and req["redirect_uri"] != _authn_req["redirect_uri"]:
""")],
  "the OAuth2 token endpoint and a token request that leaves redirect_uri out",
  "the redirect_uri need not be repeated",
  TOK + '''
def o2(c):
    c["endpoint"]["token"]["class"] = "oidcop.oauth2.token.Token"
s = server(edit=o2)
code = auth_code(s)["response_args"]["code"]
ep = s.server_get("endpoint", "token")
pr = ep.parse_request(dict(grant_type="authorization_code", code=code, client_id="client_1", client_secret="hemligtsecret0123456789"))
try:
    r = ep.process_request(pr)
except KeyError:
    r = {}
assert "access_token" not in r.get("response_args", r), "redeemed without redirect_uri"
''')
