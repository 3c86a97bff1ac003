"""a complete OpenID provider in a scratch directory"""
import os
import shutil
import tempfile
import atexit
import logging

_d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, _d, True)
os.chdir(_d)
logging.disable(logging.CRITICAL)

from cryptojwt.key_jar import build_keyjar
from oidcmsg.oidc import AuthorizationRequest
from oidcop.authn_event import create_authn_event
from oidcop.configure import OPConfiguration
from oidcop.server import Server

KD = [{"type": "RSA", "key": "", "use": ["sig", "enc"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
CAP = {
    "response_types_supported": ["code", "token", "id_token", "code token", "code id_token", "id_token token",
                                 "code id_token token", "none"],
    "subject_types_supported": ["public", "pairwise", "ephemeral"],
    "grant_types_supported": ["authorization_code", "implicit", "refresh_token",
                              "urn:ietf:params:oauth:grant-type:jwt-bearer"],
    "claims_parameter_supported": True,
    "request_parameter_supported": True,
    "request_uri_parameter_supported": True,
}
JWT_TOKEN = {"class": "oidcop.token.jwt_token.JWTToken",
             "kwargs": {"lifetime": 3600, "aud": ["https://example.org/appl"], "add_claims_by_scope": True}}
USERS = {
    "diana": {"name": "Diana Krall", "given_name": "Diana", "family_name": "Krall", "email": "diana@example.org",
              "email_verified": False, "phone_number": "+46 90 7865000"},
    "babs": {"name": "Barbara J Jensen", "email": "babs@example.com"},
}


def conf(jwt=False, **kw):
    c = {
        "issuer": "https://example.com/",
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": dict(CAP),
        "keys": {"uri_path": "jwks.json", "key_defs": KD},
        "token_handler_args": {
            "jwks_def": {"private_path": "private/token_jwks.json", "read_only": False,
                         "key_defs": [{"type": "oct", "bytes": 24, "use": ["enc"], "kid": k}
                                      for k in ("code", "refresh", "token")]},
            "code": {"kwargs": {"lifetime": 600}},
            "token": JWT_TOKEN if jwt else {"kwargs": {"lifetime": 3600}},
            "refresh": {"kwargs": {"lifetime": 3600}},
            "id_token": {"class": "oidcop.token.id_token.IDToken", "kwargs": {}},
        },
        "endpoint": {
            "registration": {"path": "registration", "class": "oidcop.oidc.registration.Registration", "kwargs": {}},
            "registration_api": {"path": "registration_api", "class": "oidcop.oidc.read_registration.RegistrationRead",
                                 "kwargs": {"client_authn_method": ["bearer_header"]}},
            "authorization": {"path": "authorization", "class": "oidcop.oidc.authorization.Authorization", "kwargs": {}},
            "token": {"path": "token", "class": "oidcop.oidc.token.Token",
                      "kwargs": {"client_authn_method": ["client_secret_basic", "client_secret_post",
                                                         "client_secret_jwt", "private_key_jwt"]}},
            "userinfo": {"path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo",
                         "kwargs": {"client_authn_method": ["bearer_header", "bearer_body"]}},
            "introspection": {"path": "introspection", "class": "oidcop.oauth2.introspection.Introspection",
                              "kwargs": {"client_authn_method": ["client_secret_post"],
                                         "enable_claims_per_client": True}},
            "session": {"path": "end_session", "class": "oidcop.oidc.session.Session",
                        "kwargs": {"post_logout_uri_path": "post_logout", "signing_alg": "ES256",
                                   "logout_verify_url": "https://example.com/verify_logout",
                                   "client_authn_method": None}},
        },
        "authentication": {"anon": {"acr": "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword",
                                    "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}},
        "userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": USERS}},
        "template_dir": "template",
        "authz": {"class": "oidcop.authz.AuthzHandling",
                  "kwargs": {"grant_config": {"usage_rules": {
                      "authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"],
                                             "max_usage": 1},
                      "access_token": {},
                      "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"]}},
                      "expires_in": 43200}}},
        "claims_interface": {"class": "oidcop.session.claims.ClaimsInterface", "kwargs": {}},
        "session_params": {"encrypter": {"kwargs": {"keys": {"key_defs": [
            {"type": "OCT", "use": ["enc"], "kid": "password"}, {"type": "OCT", "use": ["enc"], "kid": "salt"}]}}}},
        "cookie_handler": {"class": "oidcop.cookie_handler.CookieHandler",
                           "kwargs": {"sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch",
                                      "name": {"session": "oidc_op", "register": "oidc_op_reg",
                                               "session_management": "oidc_op_sman"}}},
    }
    c.update(kw)
    return c


def client(**kw):
    d = {"client_secret": "hemligtsecret0123456789", "redirect_uris": [("https://rp.example/cb", None)],
         "client_salt": "salted", "token_endpoint_auth_method": "client_secret_post",
         "response_types": ["code", "token", "code id_token", "id_token", "code id_token token"],
         "allowed_scopes": ["openid", "profile", "email", "address", "phone", "offline_access"]}
    d.update(kw)
    return d


def server(jwt=False, edit=None, **kw):
    c = conf(jwt, **kw)
    if edit:
        edit(c)
    s = Server(OPConfiguration(conf=c, base_path=_d), cwd=_d, keyjar=build_keyjar(KD))
    ctx = s.endpoint_context
    ctx.keyjar.import_jwks(ctx.keyjar.export_jwks(private=True), ctx.issuer)
    for cid in ("client_1", "client_2"):
        ctx.cdb[cid] = client()
        ctx.keyjar.add_symmetric(cid, ctx.cdb[cid]["client_secret"], ["sig"])
    return s


def areq(**kw):
    d = dict(client_id="client_1", redirect_uri="https://rp.example/cb", scope=["openid"], state="STATE",
             nonce="NONCE", response_type="code")
    d.update(kw)
    return AuthorizationRequest(**d)


def session(s, req=None, user="diana", sub_type="public", **ae):
    req = req or areq()
    ctx = s.endpoint_context
    a = create_authn_event(user, **ae)
    return ctx.session_manager.create_session(a, req, user, client_id=req["client_id"], sub_type=sub_type)


def granted(s, sid, scope=("openid",)):
    g = s.endpoint_context.authz(sid, areq(scope=list(scope)))
    return g


def mint(s, sid, cls, based_on=None, **kw):
    sm = s.endpoint_context.session_manager
    g = sm.get_grant(sid)
    return g.mint_token(session_id=sid, endpoint_context=s.endpoint_context, token_class=cls,
                        token_handler=sm.token_handler[cls], based_on=based_on, **kw)


def auth_code(s, user="diana", **kw):
    """through the authorization endpoint"""
    ep = s.server_get("endpoint", "authorization")
    pr = ep.parse_request(areq(**kw).to_dict())
    return ep.process_request(pr)
