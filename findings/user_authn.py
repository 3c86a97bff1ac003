"""how the end user is authenticated"""
from op import *
import json, base64
from oidcop.user_authn.user import BasicAuthn, SymKeyAuthn, NoAuthn
def bad(what, cond):
    print(("DEFECT: " if cond else "ok: ") + what)
s = server()
sid = session(s)      # diana
cookie = [{"value": json.dumps({"sid": sid, "state": "x"}), "timestamp": "1"}]
b = BasicAuthn(pwd={"diana": "d", "mallory": "m"}, server_get=s.server_get)
r, _ = b.authenticated_as("client_1", cookie, authorization="Basic " + base64.b64encode(b"mallory:m").decode())
bad("authenticated as mallory, taken to be %s" % r["uid"], r["uid"] != "mallory")
n = NoAuthn("mallory", server_get=s.server_get)
r, _ = n.authenticated_as("client_1", cookie)
bad("NoAuthn: mallory, taken to be %s" % r["uid"], r["uid"] != "mallory")
def edit(c):
    a = c["authentication"]["anon"]
    c["authentication"]["other"] = dict(a, acr="urn:other", kwargs={"user": "babs"})
s = server(edit=edit)
from oidcmsg.oidc import ClaimsRequest
for what, kw in [("acr_values nobody supports", {"acr_values": ["urn:strong"]}),
                 ("claims for the ID Token without acr", {"claims": {"id_token": {"email": None}}}),
                 ("acr claim without value", {"claims": {"id_token": {"acr": None}}})]:
    try:
        x = auth_code(s, **kw)
        print("ok:", what, {k: v for k, v in x.items() if k in ("error", "response_args")} or x)
    except Exception as e:
        print("DEFECT:", what, repr(e))
