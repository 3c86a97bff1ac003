import os
import runpy

_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a_tokens.py"))
TOK = _a["TOK"]
S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


s("C17-client-id-of-body", "C17",
  [("endpoint.py", """            req["client_id"] = auth_info["client_id"]
            _client_id = auth_info["client_id"]
""", """            _client_id = auth_info["client_id"]
            if "client_id" not in req:
                req["client_id"] = _client_id
""")],
  "a request authenticated as one client by the Authorization header that carries the client_id of another in its body",
  "the request is processed for the client its body names, e.g. another client's code is redeemed",
  TOK + '''
import base64
s = server()
code = auth_code(s)["response_args"]["code"]
s.endpoint_context.cdb["client_2"]["client_secret"] = "another_secret_0123456789"
ep = s.server_get("endpoint", "token")
hdr = "Basic " + base64.b64encode(b"client_2:another_secret_0123456789").decode()
d = dict(grant_type="authorization_code", code=code, client_id="client_1", redirect_uri="https://rp.example/cb")
pr = ep.parse_request(d, {"headers": {"authorization": hdr}})
r = pr if "error" in pr else ep.process_request(pr)
assert "access_token" not in (r.get("response_args") or r), "client_2 redeemed the code of client_1: %r" % r
''')

s("C05-method-of-token-request", "C05",
  [("oidc/add_on/pkce.py", """        _method = _authn_req["code_challenge_method"]

""", """        _method = request.get("code_challenge_method", _authn_req["code_challenge_method"])

""")],
  "a token request that carries code_challenge_method=plain and the (public) challenge as its verifier",
  "whoever saw the authorization request can redeem the code without the verifier",
  TOK + '''
import hashlib
from base64 import urlsafe_b64encode
def pk(c):
    c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": True}}}
s = server(edit=pk)
ver = "v" * 50
ch = urlsafe_b64encode(hashlib.sha256(ver.encode()).digest()).decode().rstrip("=")
code = auth_code(s, code_challenge=ch, code_challenge_method="S256")["response_args"]["code"]
a = token_request(s, code, code_verifier=ch, code_challenge_method="plain")
assert "access_token" not in a, "redeemed without the verifier: %r" % a
a = token_request(s, code, code_verifier=ver)
assert "access_token" in a, a
''')

s("C09-offline-access-outlives-login", "C09",
  [("oidc/userinfo.py", """            allowed = False

            # This has to be made more fine grained.
            # if "offline_access" in session["authn_req"]["scope"]:
            #     pass
""", """            # offline access does not depend on the login
            allowed = "offline_access" in _grant.scope
""")],
  "a grant with offline_access whose authentication has expired",
  "userinfo goes on answering after the authentication has expired",
  TOK + '''
s = server()
sid = session(s, areq(scope=["openid", "offline_access"])); granted(s, sid, ["openid", "offline_access"])
at = mint(s, sid, "access_token").value
g = s.endpoint_context.session_manager.get_grant(sid)
g.authentication_event["valid_until"] = 1000
ep = s.server_get("endpoint", "userinfo")
pr = ep.parse_request({}, {"headers": {"authorization": "Bearer " + at}})
r = ep.process_request(pr)
assert "sub" not in r.get("response_args", {}), "answered with an expired authentication: %r" % r
''')

s("C10-scope-of-the-grant", "C10",
  [("oauth2/introspection.py", """        scope = token.scope
        if not scope:
            if token.based_on:
                scope = grant.find_scope(token.based_on)
            else:
                scope = grant.scope
""", """        if token.based_on:
            scope = grant.find_scope(token.based_on)
        else:
            scope = token.scope or grant.scope
""")],
  "an access token got by a refresh that asked for less scope",
  "introspection reports more scope than the token has",
  TOK + '''
s = server()
code = auth_code(s, scope=["openid", "offline_access", "email"], prompt="consent")["response_args"]["code"]
a = token_request(s, code)
b = refresh_request(s, a["refresh_token"], scope=["openid"])
ep = s.server_get("endpoint", "introspection")
pr = ep.parse_request(dict(token=b["access_token"], client_id="client_1", client_secret="hemligtsecret0123456789"))
r = ep.process_request(pr)["response_args"]
assert r["active"] is True
assert r["scope"] == "openid" or r["scope"] == ["openid"], "says %r" % r["scope"]
''')

s("C11-essential-matches-anything", "C11",
  [("session/claims.py", """    if matched is False:
        if list(claimspec.keys()) == ["essential"]:
            return True
""", """    if matched is False:
        if claimspec.get("essential"):
            return True
""")],
  "a claims request with essential=true and a value the user does not have",
  "claims are released although their value is not what was asked for",
  '''
from op import *
from oidcop.session.claims import claims_match
s = server()
ci = s.endpoint_context.claims_interface
r = ci.get_user_claims("diana", {"email": {"essential": True, "value": "someone@else.org"}, "name": {"essential": True}})
assert "email" not in r, "released %r" % r
assert r.get("name") == "Diana Krall"
''')

s("C12-no-at-hash-in-full-hybrid", "C12",
  [("oauth2/authorization.py", """                if {"code", "id_token", "token"}.issubset(rtype):
                    kwargs = {"code": _code.value, "access_token": _access_token.value}
                elif {"code", "id_token"}.issubset(rtype):
                    kwargs = {"code": _code.value}
                elif {"id_token", "token"}.issubset(rtype):
                    kwargs = {"access_token": _access_token.value}
""", """                if {"code", "id_token"}.issubset(rtype):
                    kwargs = {"code": _code.value}
                elif {"id_token", "token"}.issubset(rtype):
                    kwargs = {"access_token": _access_token.value}
""")],
  "response_type 'code id_token token'",
  "the ID Token is not bound to the access token it comes with",
  '''
from op import *
from cryptojwt.jws.jws import factory
s = server()
r = auth_code(s, response_type="code id_token token")["response_args"]
p = factory(r["id_token"]).jwt.payload()
assert "c_hash" in p
assert "at_hash" in p, "no at_hash: %r" % sorted(p)
''')

s("C13-case-insensitive", "C13",
  [("oauth2/authorization.py", """            if _base == regbase:
                # every registered query component must exist in the uri
""", """            if _base.lower() == regbase.lower():
                # every registered query component must exist in the uri
""")],
  "a redirect URI that differs from the registered one in the case of its path",
  "unregistered redirect URIs are accepted",
  '''
from op import *
s = server()
ep = s.server_get("endpoint", "authorization")
pr = ep.parse_request(areq(redirect_uri="https://rp.example/CB").to_dict())
assert "error" in pr, "accepted %r" % pr.to_dict()
pr = ep.parse_request(areq().to_dict())
assert "error" not in pr
''')

s("C14-no-state-for-none", "C14",
  [("oauth2/authorization.py", """        aresp = self.response_cls()
        if request.get("state"):
            aresp["state"] = request["state"]

        if "response_type" in request and request["response_type"] == ["none"]:
            fragment_enc = False
        else:
            _context = self.server_get("endpoint_context")
""", """        aresp = self.response_cls()

        if "response_type" in request and request["response_type"] == ["none"]:
            fragment_enc = False
        else:
            if request.get("state"):
                aresp["state"] = request["state"]

            _context = self.server_get("endpoint_context")
""")],
  "response_type=none",
  "the response lacks the state of the request",
  '''
from op import *
s = server()
s.endpoint_context.cdb["client_1"]["response_types"].append("none")
r = auth_code(s, response_type="none")["response_args"]
assert r.get("state") == "STATE", "no state: %r" % r
''')

s("C16-repeated-request-after-expiry", "C16",
  [("oauth2/authorization.py", """        if _session_id:
            authn_event = _mngr.get_authentication_event(session_id=_session_id)
            if authn_event.is_valid() is False:  # if not valid, do new login
""", """        if _session_id:
            authn_event = _mngr.get_authentication_event(session_id=_session_id)
            if authn_event.is_valid() is False and request.get("prompt"):
""")],
  "the very same authorization request again, with the session cookie, after the authentication event expired",
  "a code is issued without current authentication",
  '''
from op import *
import json
s = server()
ctx = s.endpoint_context
ep = s.server_get("endpoint", "authorization")
pr = ep.parse_request(areq().to_dict())
r1 = ep.process_request(pr)
ck = r1["cookie"][0]
g = ctx.session_manager.get_session_info_by_token(r1["response_args"]["code"], grant=True)["grant"]
pr = ep.parse_request(areq().to_dict())
r = ep.process_request(pr, http_info={"cookie": [ck]})
assert "code" in r.get("response_args", {}), r
g.authentication_event["valid_until"] = 1000
pr = ep.parse_request(areq().to_dict())
r = ep.process_request(pr, http_info={"cookie": [ck]})
assert "code" not in r.get("response_args", {}), "code without current authentication"
''')

s("C18-public-client-with-empty-secret", "C18",
  [("client_authn.py", """            self.server_get("endpoint_context").cdb[request["client_id"]]["client_secret"]
            == request["client_secret"]
""", """            self.server_get("endpoint_context").cdb[request["client_id"]].get("client_secret", "")
            == request["client_secret"]
""")],
  "a client without a secret and a request with an empty client_secret",
  "anybody authenticates as a client that has no secret",
  TOK + '''
s = server()
del s.endpoint_context.cdb["client_1"]["client_secret"]
from oidcop.client_authn import ClientSecretPost
try:
    a = ClientSecretPost(s.server_get).verify({"client_id": "client_1", "client_secret": ""})
except Exception as err:
    a = None
assert not a, "authenticated with an empty secret: %r" % a
''')

s("C20-htu-prefix", "C20",
  [("oauth2/add_on/dpop.py", """    if _dpop["htu"] != _http_info["url"]:
""", """    # The query and fragment parts are not part of what is proven
    if not _http_info["url"].startswith(_dpop["htu"]):
""")],
  "a proof made for a shorter URL, e.g. the root of the OP",
  "proofs made for other URLs count",
  '''
from op import *
from cryptojwt.jwk.ec import new_ec_key
from oidcop.oauth2.add_on import dpop
s = server()
s.endpoint_context.provider_info["dpop_signing_alg_values_supported"] = ["ES256"]
key = new_ec_key(crv="P-256")
def proof(url):
    p = dpop.DPoPProof(typ="dpop+jwt", alg="ES256", jwk=key.serialize(), jti="1", htm="POST", htu=url, iat=1600000000)
    p.key = key
    return p.create_header()
def req(url):
    r = {}
    try:
        dpop.post_parse_request(r, "client_1", s.endpoint_context,
                                http_info={"headers": {"dpop": proof(url)}, "url": "https://example.com/token", "method": "POST"})
    except ValueError:
        pass
    return r
assert "dpop_jkt" in req("https://example.com/token")
assert "dpop_jkt" not in req("https://example.com/"), "proof for another URL counts"
''')

s("C22-supported-although-not-registered", "C22",
  [("oauth2/authorization.py", """        _allowed = _cinfo.get(_reg)
        if _allowed is None:
            _allowed = _pinfo.get(_sup)
""", """        _allowed = _cinfo.get(_reg)
        if _allowed is None or alg not in _allowed:
            _allowed = _pinfo.get(_sup)
""")],
  "a client that registered a request object algorithm and a request object protected by another the OP supports",
  "request objects are accepted with algorithms the client did not register",
  '''
from op import *
from oidcop.oauth2.authorization import AllowedAlgorithms, ALG_PARAMS
s = server()
ctx = s.endpoint_context
ctx.provider_info["request_object_signing_alg_values_supported"] = ["RS256", "HS256", "none"]
ctx.cdb["client_1"]["request_object_signing_alg"] = "RS256"
a = AllowedAlgorithms(ALG_PARAMS)
a("client_1", ctx, "RS256", "sign")
try:
    a("client_1", ctx, "none", "sign"); ok = True
except ValueError:
    ok = False
assert not ok, "alg none accepted from a client that registered RS256"
''')

s("C23-cookie-name-prefix", "C23",
  [("cookie_handler.py", """            if "name" in _cookie and _cookie["name"] == name:
""", """            # chunked cookies have a number added to their name
            if "name" in _cookie and _cookie["name"].startswith(name):
""")],
  "the default cookie names: the session cookie's name is a prefix of the others'",
  "a registration or session management cookie is believed when the session cookie is asked for",
  '''
from op import *
s = server()
h = s.endpoint_context.cookie_handler
c = h.make_cookie_content(name=h.name["register"], value="{}")
assert h.parse_cookie(h.name["register"], [c])
assert not h.parse_cookie(h.name["session"], [c]), "the register cookie counts as a session cookie"
''')

s("C24-hint-of-another-user", "C24",
  [("oidc/session.py", """            if _id_token["sub"] != _session_info["grant"].sub:
                raise ValueError("Sub doesn't match")
""", """            # With a session ID there is no need for the subject
            if "sid" not in _id_token and _id_token["sub"] != _session_info["grant"].sub:
                raise ValueError("Sub doesn't match")
""")],
  "an id_token_hint that holds a session identifier, of another user of the same client",
  "an id_token_hint counts that was not issued for the session's subject",
  '''
from op import *
from oidcmsg.oidc import verified_claim_name
s = server()
ctx = s.endpoint_context
ctx.cdb["client_1"]["post_logout_redirect_uris"] = [("https://rp.example/bye", None)]
ep = s.server_get("endpoint", "session")
sid = session(s, user="diana"); granted(s, sid)
oth = session(s, user="babs"); granted(s, oth)
idt = {"iss": ctx.issuer, "aud": ["client_1"], "sub": ctx.session_manager.get_grant(oth).sub, "sid": oth}
ck = ctx.new_cookie(name=ctx.cookie_handler.name["session"], sid=sid)
req = {"id_token_hint": "x", verified_claim_name("id_token_hint"): idt, "post_logout_redirect_uri": "https://rp.example/bye"}
try:
    r = ep.process_request(req, http_info={"cookie": [ck]})
except ValueError:
    r = None
assert r is None, "accepted the hint of another user"
idt["sub"] = ctx.session_manager.get_grant(sid).sub
assert ep.process_request(req, http_info={"cookie": [ck]})
''')

s("C26-http-for-hybrid-clients", "C26",
  [("oidc/registration.py", """            if registration_request.get("response_types") == ["code"]:
                must_https = False
""", """            if "code" in registration_request.get("response_types", []):
                must_https = False
""")],
  "a web client that registers 'code' along with other response types and a http redirect URI",
  "ID Tokens and access tokens can be sent to http URIs",
  '''
from op import *
from oidcop.oidc.registration import Registration, InvalidRedirectURIError
def ok(**kw):
    try:
        return bool(Registration.verify_redirect_uris(dict(redirect_uris=["http://rp.example/cb"], **kw)))
    except InvalidRedirectURIError:
        return False
assert ok(response_types=["code"])
assert not ok(response_types=["id_token"])
assert not ok(response_types=["code", "id_token"]), "http accepted for an implicit client"
''')

s("C27-client-id-collision", "C27",
  [("oidc/registration.py", """    while client_id in reserved:
        client_id = rndstr(16)
""", """    if client_id in reserved:
        client_id = rndstr(16)
""")],
  "a random client_id that collides twice in a row",
  "a registration can take over the client_id of another client",
  '''
import oidcop.oidc.registration as r
v = iter(["aaa", "bbb", "ccc"])
r.rndstr = lambda n=16: next(v)
c = r.random_client_id(reserved=["aaa", "bbb"])
assert c not in ("aaa", "bbb"), "client_id of another client: %s" % c
''')

s("C32-revoked-user-session-replaced", "C32",
  [("session/manager.py", """            _usi = self.get([user_id])
        except KeyError:
            _usi = UserSessionInfo(user_id=user_id)
            self.set([user_id], _usi)
""", """            _usi = self.get([user_id])
        except KeyError:
            _usi = None
        if _usi is None or _usi.is_revoked():
            _usi = UserSessionInfo(user_id=user_id)
            self.set([user_id], _usi)
""")],
  "a login of a user whose user session record is revoked",
  "the record of the user is replaced, the sessions with other clients can no longer be found",
  '''
from op import *
s = server()
m = s.endpoint_context.session_manager
a = session(s, areq(client_id="client_2"))
m.get(["diana"]).revoke()
b = session(s)
assert m.get_grant(b)
try:
    g = m.get_grant(a)
except (KeyError, ValueError):
    g = None
assert g, "the session with client_2 is gone"
''')

s("C34-unsealed-session-id", "C34",
  [("session/database.py", """        except cryptography.fernet.InvalidToken as err:
            logger.error(f"cryptography.fernet.InvalidToken: {key}")
            raise ValueError(err)
""", """        except cryptography.fernet.InvalidToken as err:
            logger.error(f"cryptography.fernet.InvalidToken: {key}")
            # From before session identifiers were encrypted
            _path = base64.b64decode(key).decode("utf-8", "replace").split(DIVIDER)
            if len(_path) != 3:
                raise ValueError(err)
            return _path
""")],
  "a session identifier that is the base64 encoding of a plain path",
  "anyone who knows or guesses user, client and grant can make session identifiers",
  '''
from op import *
import base64
s = server()
m = s.endpoint_context.session_manager
sid = session(s)
path = m.decrypt_session_id(sid)
fake = base64.b64encode(m.session_key(*path).encode()).decode()
try:
    r = m.decrypt_session_id(fake)
except ValueError:
    r = None
assert r is None, "a session identifier nobody sealed: %r" % r
''')

s("C35-based-on-forgotten", "C35",
  [("session/token.py", """            "based_on": "",
            "claims": {},
""", """            "claims": {},
""")],
  "a dump and load between the redemption of a code and its replay",
  "after a restart tokens no longer know what they were minted from",
  TOK + '''
s = server()
sid = session(s); granted(s, sid)
code = mint(s, sid, "authorization_code")
at = mint(s, sid, "access_token", based_on=code)
m = s.endpoint_context.session_manager
d = m.dump()
m.flush()
m.load(d)
t = m.get_grant(sid).get_token(at.value)
assert t.based_on == code.value, "based_on is %r" % t.based_on
''')

s("C36-case-folded-user", "C36",
  [("user_authn/user.py", """        if username in self.user_db and self.user_db[username] == kwargs["password"]:
            return username
""", """        _user = username.lower()
        if _user in self.user_db and self.user_db[_user] == kwargs["password"]:
            return username
""")],
  "a user name typed in another case than that of a registered user",
  "one gets to be a user whose password was not presented",
  '''
from op import *
from oidcop.user_authn.user import UserPassJinja2
from oidcop.exception import FailedAuthentication
s = server()
u = UserPassJinja2(db={"class": dict, "kwargs": {"diana": "krall", "DIANA": "other"}}, template_handler=None, server_get=s.server_get)
u.user_db = {"diana": "krall", "DIANA": "other"}
assert u.verify(username="diana", password="krall") == "diana"
try:
    r = u.verify(username="DIANA", password="krall")
except FailedAuthentication:
    r = None
assert r is None, "logged in as %r with the password of diana" % r
''')

s("C37-client-cannot-opt-out", "C37",
  [("oidc/token.py", """            and "revoke_refresh_on_issue" in _context.cdb[req["client_id"]]
""", """            and _context.cdb[req["client_id"]].get("revoke_refresh_on_issue")
""")],
  "a client whose revoke_refresh_on_issue is false at an endpoint where it is true",
  "refresh tokens of clients that are not to rotate them are revoked",
  TOK + '''
s = server(edit=lambda c: c["endpoint"]["token"]["kwargs"].update({"revoke_refresh_on_issue": True}))
s.endpoint_context.cdb["client_1"]["revoke_refresh_on_issue"] = False
code = auth_code(s, scope=["openid", "offline_access"], prompt="consent")["response_args"]["code"]
a = token_request(s, code)
b = refresh_request(s, a["refresh_token"])
assert "access_token" in b
c = refresh_request(s, a["refresh_token"])
assert "access_token" in c, "revoked against the client's setting: %r" % c
''')

s("C38-unknown-classes-lost", "C38",
  [("authz/__init__.py", """                for _token_type, _rule in _per_client.items():
                    if _token_type not in _usage_rules:
                        _usage_rules[_token_type] = _rule
""", """                for _token_type in _per_client:
                    if _token_type not in _usage_rules:
                        logger.info(f"No usage rules configured for {_token_type}")
""")],
  "a client with rules for a token class the OP has no rules for",
  "the client's own usage rules are ignored, e.g. its access tokens live for ever",
  '''
from op import *
def ed(c):
    c["authz"]["kwargs"]["grant_config"]["usage_rules"].pop("refresh_token")
s = server(edit=ed)
s.endpoint_context.cdb["client_1"]["token_usage_rules"] = {"refresh_token": {"expires_in": 60, "supports_minting": ["access_token"]}}
r = s.endpoint_context.authz.usage_rules("client_1")
assert r.get("refresh_token", {}).get("expires_in") == 60, "rules: %r" % r
''')

s("C39-empty-list-of-scopes", "C39",
  [("scopes.py", """                if "allowed_scopes" in client:
""", """                if client.get("allowed_scopes"):
""")],
  "a client that is allowed no scopes at all (an empty list)",
  "such a client is allowed every scope of the OP",
  '''
from op import *
s = server()
s.endpoint_context.cdb["client_1"]["allowed_scopes"] = []
r = s.endpoint_context.scopes_handler.filter_scopes(["openid", "email"], "client_1")
assert r == [], "allowed: %r" % r
''')

s("C40-signed-but-not-addressed", "C40",
  [("oidc/userinfo.py", """            resp = _jwt.pack(response_args, recv=client_id)
""", """            resp = _jwt.pack(response_args, recv=client_id if encrypt else "")
""")],
  "a client that registered signed but not encrypted user information",
  "signed user information is not addressed to the client",
  '''
from op import *
from cryptojwt.jws.jws import factory
s = server()
s.endpoint_context.cdb["client_1"]["userinfo_signed_response_alg"] = "ES256"
r = s.server_get("endpoint", "userinfo").do_response({"sub": "x"}, client_id="client_1")
p = factory(r["response"]).jwt.payload()
assert p.get("aud") == ["client_1"], "aud %r" % p.get("aud")
''')

s("C42-subject-type-of-the-request", "C42",
  [("session/manager.py", """            sub=self.sub_func[sub_type](
""", """            sub=self.sub_func[auth_req.get("subject_type", sub_type)](
""")],
  "an authorization request with a subject_type parameter",
  "a client registered for pairwise identifiers gets the public one",
  '''
from op import *
s = server()
m = s.endpoint_context.session_manager
s.endpoint_context.cdb["client_1"]["subject_type"] = "pairwise"
a = auth_code(s)["response_args"]["code"]
b = auth_code(s, subject_type="public")["response_args"]["code"]
sa, sb = [m.get_session_info_by_token(x, grant=True)["grant"].sub for x in (a, b)]
assert sa == sb, "another kind of subject identifier on request"
''')

s("C33-client-record-always-removed", "C33",
  [("session/database.py", """            if len(_client_info.subordinate) == 0:
                self.db.__delitem__(skey_uid_client)
                _user_info.subordinate.remove(_client_id)
            else:
                self.db[skey_uid_client] = _client_info
""", """            if grant_id is None or len(_client_info.subordinate) <= 1:
                self.db.__delitem__(skey_uid_client)
                _user_info.subordinate.remove(_client_id)
            else:
                self.db[skey_uid_client] = _client_info
""")],
  "removing one of exactly two grants of a client session",
  "the record of the client session goes although it has another grant",
  '''
from op import *
s = server()
m = s.endpoint_context.session_manager
a = session(s); b = session(s)
m.remove_session(a)
try:
    g = m.get_grant(b)
except (KeyError, ValueError):
    g = None
assert g, "the other grant is gone too"
''')

s("C28-token-checked-only-if-registered", "C28",
  [("oidc/read_registration.py", """            if (
                request["client_id"]
                == self.server_get("endpoint_context").registration_access_token[token]
            ):
                return request["client_id"]
""", """            _owner = self.server_get("endpoint_context").registration_access_token.get(token)
            if _owner is None or request["client_id"] == _owner:
                return request["client_id"]
""")],
  "a made up registration access token",
  "anyone reads any client's registration with a token the OP never issued",
  '''
from op import *
from oidcop.exception import *
s = server(edit=lambda c: c["endpoint"].update({"registration_read": {"path": "reg_read", "class": "oidcop.oidc.read_registration.RegistrationRead", "kwargs": {"client_authn_method": ["bearer_header"]}}}))
ep = s.server_get("endpoint", "registration_read")
s.endpoint_context.registration_access_token["right"] = "client_1"
def get(tok):
    try:
        pr = ep.parse_request("client_id=client_1", {"headers": {"authorization": "Bearer " + tok}})
        if "error" in pr:
            return None
        return ep.process_request(pr)
    except Exception as err:
        return None
assert get("right")
assert not get("wrong"), "read with a made up token"
''')

