"""rules of one grant leak into DEFAULT_USAGE and into the client's configuration"""
from op import *
from oidcop.session.grant import get_usage_rules, DEFAULT_USAGE, Grant
s = server(edit=lambda c: c["authz"]["kwargs"].update(grant_config={"usage_rules": {}}))
cl = s.endpoint_context.cdb["client_1"]
g = Grant(usage_rules={"access_token": {"expires_in": 7}})
get_usage_rules("access_token", s.endpoint_context, g, "client_2")
print(DEFAULT_USAGE["access_token"])
cl["token_usage_rules"] = {"authorization_code": {"expires_in": 600}}
sid = session(s); granted(s, sid); mint(s, sid, "authorization_code")
print(cl["token_usage_rules"])
