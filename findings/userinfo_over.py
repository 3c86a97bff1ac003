"""a user database entry overrides protocol members of introspection answers and JWT access tokens"""
from op import *
import json, base64
USERS["diana"]["sub"] = "dbsub"; USERS["diana"]["client_id"] = "evil"; USERS["diana"]["scope"] = "admin"; USERS["diana"]["iss"]="x"; USERS["diana"]["sid"]="x"
USERS["diana"]["token_class"] = "refresh_token"; USERS["diana"]["nbf"] = 5
for jwt in (False, True):
    s = server(jwt)
    sid = session(s, areq(claims={"introspection": {"sub": None, "client_id": None, "scope": None}}))
    g = granted(s, sid)
    g.claims = {"introspection": {"sub": None, "client_id": None, "scope": None, "iss": None}, "access_token": {"sub": None, "client_id": None, "scope": None, "sid": None, "token_class": None}}
    g.authorization_request = areq(claims={"access_token": g.claims["access_token"]})
    at = mint(s, sid, "access_token", based_on=mint(s, sid, "authorization_code"))
    ep = s.server_get("endpoint", "introspection")
    r = ep.process_request(ep.parse_request({"token": at.value, "client_id": "client_1", "client_secret": "hemligtsecret0123456789"}))
    print(jwt, r["response_args"].to_dict())
    if jwt:
        p = at.value.split(".")[1]
        print(json.loads(base64.urlsafe_b64decode(p + "===")))
