"""An opaque token past the lifetime sealed in it is refused; unknown and expired tokens give error responses; -1 means no expiry."""
from op import *
import oidcop.session.token as ST
import oidcop.token as T
REQ = {"grant_type": "authorization_code", "redirect_uri": "https://rp.example/cb", "client_id": "client_1", "client_secret": "hemligtsecret0123456789"}
s = server()
code = auth_code(s)["response_args"]["code"]
real = T.utc_time_sans_frac
T.utc_time_sans_frac = ST.utc_time_sans_frac = lambda: real() + 3000
r = s.server_get("endpoint", "token").parse_request(dict(REQ, code=code))
T.utc_time_sans_frac = ST.utc_time_sans_frac = real
assert r.get("error") == "invalid_grant", r


def ed(c):
    c["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"] = {"supports_minting": ["access_token", "refresh_token"], "expires_in": -1}


s = server(edit=ed)
tok = s.server_get("endpoint", "token")
code = auth_code(s, scope=["openid", "offline_access"], prompt=["consent"])["response_args"]["code"]
res = tok.process_request(tok.parse_request(dict(REQ, code=code)))["response_args"]
q = dict(REQ, grant_type="refresh_token", refresh_token=res["refresh_token"])
assert "error" not in tok.parse_request(q)
q["refresh_token"] = "unknown"
assert tok.parse_request(q).get("error") == "invalid_grant"
