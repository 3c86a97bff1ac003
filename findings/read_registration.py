"""a registration read endpoint configured without client_authn_method answers anybody (exit 1 when it does)"""
import sys
import op
from oidcmsg.oidc import RegistrationRequest


def edit(c):
    c["endpoint"]["registration_api"]["kwargs"] = {}


s = op.server(edit=edit)
ep = s.server_get("endpoint", "registration")
r = ep.process_request(request=ep.parse_request(RegistrationRequest(
    redirect_uris=["https://rp.example/cb"], application_type="web", response_types=["code"]).to_json()))
cid = r["response_args"]["client_id"]
ep = s.server_get("endpoint", "registration_read")
try:
    q = ep.parse_request("client_id=%s" % cid, http_info={"headers": {}})
    a = ep.process_request(q)
    print(a)
    sys.exit(1 if a.get("response_args", {}).get("client_secret") else 0)
except Exception as err:
    print(repr(err))
    sys.exit(0)
