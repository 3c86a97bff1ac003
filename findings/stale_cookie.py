"""a cookie from before a restart that lost the sessions; a login page token made by somebody else; max_age=0"""
from op import *
import json
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar
from oidcop.user_authn.user import create_signed_jwt, UserAuthnMethod
def bad(what, cond):
    print(("DEFECT: " if cond else "ok: ") + what)
s = server()
sid = session(s)
ctx = s.endpoint_context
ep = s.server_get("endpoint", "authorization")
def cookie(ctx, sid):
    c = ctx.new_cookie(name=ctx.cookie_handler.name["session"], sid=sid, state="STATE")
    return {"cookie": [{"name": c["name"], "value": c["value"]}]}
s2 = server()
ep2 = s2.server_get("endpoint", "authorization")
for what, e, http in (("same", ep, cookie(ctx, sid)), ("other key", ep2, cookie(ctx, sid))):
    try:
        pr = e.parse_request(areq().to_dict(), http_info=http)
        r = e.process_request(pr, http_info=http)
        print("ok:", what, type(r), list(r)[:5])
    except Exception as x:
        print("DEFECT:", what, repr(x))
s3 = server(); ctx3 = s3.endpoint_context
sid3 = session(s3)
ctx3.session_manager.delete(ctx3.session_manager.decrypt_session_id(sid3))
ep3 = s3.server_get("endpoint", "authorization")
try:
    http = cookie(ctx3, sid3)
    r = ep3.process_request(ep3.parse_request(areq().to_dict(), http_info=http), http_info=http)
    print("ok: deleted session", list(r)[:5])
except Exception as x:
    print("DEFECT: deleted session", repr(x))
u = UserAuthnMethod(server_get=s.server_get)
kj = KeyJar(); kj.add_symmetric("client_1", ctx.cdb["client_1"]["client_secret"], ["sig"])
t = JWT(kj, iss="client_1", sign_alg="HS256").pack({"query": "evil", "authn_class_ref": "strong"})
try:
    bad("login token made by a client: %s" % u.unpack_token(t), True)
except Exception as x:
    bad("login token made by a client: %r" % x, False)
u.unpack_token(create_signed_jwt(ctx.issuer, ctx.keyjar, query="x"))
