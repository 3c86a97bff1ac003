"""dynamic client registration (exit 1 when a defect shows)"""
import sys
import op
from oidcmsg.oidc import RegistrationRequest

bad = []


def reg(ep, **kw):
    d = dict(redirect_uris=["https://rp.example/cb"], application_type="web", response_types=["code"])
    d.update(kw)
    r = ep.parse_request(RegistrationRequest(**d).to_json())
    return ep.process_request(request=r)


s = op.server()
ctx = s.endpoint_context
ep = s.server_get("endpoint", "registration")
n, t = set(ctx.cdb), len(ctx.registration_access_token)
r = reg(ep, post_logout_redirect_uri="https://rp.example/x#f")
print(r)
if set(ctx.cdb) != n or len(ctx.registration_access_token) != t:
    bad.append("a refused registration leaves %s behind" % [ctx.cdb[x] for x in set(ctx.cdb) - n])
r = reg(ep, redirect_uris=["http://rp.example/cb"], response_types=["id_token"])
print(r)
if set(ctx.cdb) - n:
    bad.append("refused redirect uri leaves %d" % len(set(ctx.cdb) - n))
r = reg(ep, client_secret="x", client_secret_expires_at=0, client_salt="y", registration_access_token="z", client_id_issued_at=1)
c = ctx.cdb[r["response_args"]["client_id"]]
for k, v in dict(client_secret="x", client_secret_expires_at=0, client_salt="y", registration_access_token="z", client_id_issued_at=1).items():
    if c.get(k) == v:
        bad.append("a client sets %s" % k)
r = reg(ep, allowed_scopes=["admin"], scopes_to_claims={"x": ["email"]}, token_usage_rules={"access_token": {"expires_in": -1}},
        add_claims={"always": {"userinfo": ["email"]}})
c = ctx.cdb[r["response_args"]["client_id"]]
for k in ("allowed_scopes", "scopes_to_claims", "token_usage_rules", "add_claims"):
    if k in c:
        bad.append("a client sets %s" % k)
for uri in ("http://localhost/cb#f", "com.example.app://cb#f"):
    r = reg(ep, application_type="native", redirect_uris=[uri])
    if "error" not in r:
        bad.append("native redirect uri with fragment: %s" % ctx.cdb[r["response_args"]["client_id"]]["redirect_uris"])
print("\n".join(bad))
sys.exit(1 if bad else 0)
