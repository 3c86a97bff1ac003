"""RP-initiated logout: what a request may make the provider do (exit 1 when a defect shows)"""
import json, sys
import op
from urllib.parse import urlparse, parse_qs
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import build_keyjar
from oidcop.oidc.session import do_front_channel_logout_iframe

bad = []
s = op.server()
ctx = s.endpoint_context
ep = s.server_get("endpoint", "session")
for c in ("client_1", "client_2"):
    ctx.cdb[c]["client_id"] = c
ctx.cdb["client_1"]["post_logout_redirect_uri"] = ("https://rp.example/bye", {"a": ["b"]})
ctx.cdb["client_2"]["post_logout_redirect_uri"] = ("https://evil.example/bye", {})
sid = op.session(s, op.areq())
g = ctx.session_manager.get_grant(sid)
cookie = ctx.new_cookie(name=ctx.cookie_handler.name["session"], sub="x", sid=sid)


def run(**req):
    try:
        r = ep.parse_request(req, http_info={"cookie": [cookie]})
        r = ep.process_request(r, http_info={"cookie": [cookie]})
        q = parse_qs(urlparse(r["redirect_location"]).query)
        return ep.unpack_signed_jwt(q["sjwt"][0])
    except Exception as e:
        return "%s %s" % (type(e).__name__, e)


def hint(iss, kj, owner, alg="RS256"):
    j = JWT(kj, iss=iss, lifetime=3600, sign_alg=alg)
    return j.pack({"sub": g.sub}, recv="client_1", issuer_id=owner)


own = hint(ctx.issuer, ctx.keyjar, ctx.issuer)
r = run(id_token_hint=own, post_logout_redirect_uri="https://rp.example/bye?a=b", state="S")
print("registered:", r)
if isinstance(r, str) or r["redirect_uri"].count("?") != 1:
    bad.append("registered post_logout_redirect_uri refused or mangled")
r = run(id_token_hint=own, client_id="client_2", post_logout_redirect_uri="https://evil.example/bye")
print("other client's:", r)
if not isinstance(r, str):
    bad.append("request redirects to URI of another client")
ctx.cdb["client_1"]["post_logout_redirect_uris"] = ["https://rp.example/bye"]
ctx.cdb["client_2"]["post_logout_redirect_uris"] = ["https://evil.example/bye"]
r = run(id_token_hint=own, client_id="client_2", post_logout_redirect_uri="https://evil.example/bye")
print("other client's (plural):", r)
if not isinstance(r, str):
    bad.append("request redirects to URI of another client")
kj = build_keyjar([{"type": "RSA", "key": "", "use": ["sig"]}])
ctx.keyjar.import_jwks(kj.export_jwks(), "client_2")
r = run(id_token_hint=hint("client_2", kj, ""))
print("hint by client_2:", r)
if not isinstance(r, str):
    bad.append("id_token_hint issued by somebody else accepted")
f = do_front_channel_logout_iframe({"frontchannel_logout_uri": 'https://rp/x"><script>alert(1)</script>'}, "i", "s")
print(f)
if "<script" in f:
    bad.append("markup in logout iframe")
ctx.cdb["client_2"].pop("post_logout_redirect_uris")
s2 = op.session(s, op.areq(client_id="client_2"))
ep.logout_all_clients(sid)
m = ctx.session_manager
for x in (sid, s2):
    if not m.client_session_is_revoked(x):
        bad.append("logging out everywhere leaves the session of %s" % m.decrypt_session_id(x)[1])
s = op.server()
ctx = s.endpoint_context
ctx.cdb["client_1"]["backchannel_logout_uri"] = "https://rp.example/bcl"
sid = op.session(s, op.areq())
try:
    s.server_get("endpoint", "session").logout_from_client(sid)
except KeyError as e:
    bad.append("back-channel logout of a configured client: KeyError %s" % e)
if not ctx.session_manager.client_session_is_revoked(sid):
    bad.append("session alive after back-channel logout")
print("\n".join(bad))
sys.exit(1 if bad else 0)
