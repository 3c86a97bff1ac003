"""script URLs on pages of the OP (exit 1 when a client can register one)"""
import sys
import op
from oidcmsg.oidc import RegistrationRequest
from oidcop.oidc.session import do_front_channel_logout_iframe

s = op.server()
ctx = s.endpoint_context
ep = s.server_get("endpoint", "registration")
J = "javascript:alert(1)"
bad = []


def reg(**kw):
    d = dict(redirect_uris=["https://rp.example/cb"], application_type="web", response_types=["code"])
    d.update(kw)
    r = ep.parse_request(RegistrationRequest(**d).to_json())
    if "error" in r:
        return None
    r = ep.process_request(request=r)
    return None if "error" in r else r["response_args"]["client_id"]


c = reg(application_type="native", redirect_uris=[J])
if c:
    a = s.server_get("endpoint", "authorization")
    q = a.parse_request(dict(client_id=c, redirect_uri=J, scope="openid", state="s", response_type="code", response_mode="form_post"))
    bad.append(a.do_response(**a.process_request(q))["response"][:300])
c = reg(frontchannel_logout_uri=J)
if c:
    bad.append(do_front_channel_logout_iframe(ctx.cdb[c], ctx.issuer, "sid"))
print("\n".join(bad))
sys.exit(1 if bad else 0)
