"""session storage: each line says what happens"""
from op import *
import json
from oidcop.session.info import UserSessionInfo, ClientSessionInfo
s = server()
sm = s.endpoint_context.session_manager
def ses(uid="diana", cid="client_1", **kw):
    req = AuthorizationRequest(client_id=cid, redirect_uri="https://example.com/cb", scope=["openid"], state="S", response_type="code", **kw)
    return sm.create_session(authn_event=create_authn_event(uid), auth_req=req, user_id=uid, client_id=cid)
def bad(what, cond):
    print(("DEFECT: " if cond else "ok: ") + what)
sid = ses(); g = sm.get_grant(sid)
tok = g.mint_token(session_id=sid, endpoint_context=s.endpoint_context, token_class="access_token", token_handler=sm.token_handler["access_token"])
# 1 delete user
sm.delete(["diana"])
bad("grant record left after the user session was deleted: %s" % list(sm.db.keys()), len(sm.db.keys()) > 0)
sid2 = ses()
try:
    sm.get_grant(sid); bad("grant of a deleted user session is usable again after the next login", True)
except (KeyError, ValueError):
    bad("old grant is gone", False)
# 2 delete client session
sm.flush()
sid = ses(); sid_b = ses(cid="client_2")
sm.delete(["diana", "client_1"])
bad("records left after deleting a client session: %s" % [k for k in sm.db.keys()], any("client_1" in k for k in sm.db.keys()))
# 3 remove one grant of two
sm.flush()
sid = ses(); sidx = ses()
sm.remove_session(sid)
bad("foreign key written: %s" % list(sm.db.keys()), "client_1" in sm.db.keys())
# 4 unknown client
sm.flush(); ses()
try:
    sm.delete(["diana", "other"]); bad("deleting an unknown client session", False)
except KeyError as e:
    bad("deleting an unknown client session: KeyError", True)
# 5 divider
sm.flush()
sid = ses()
try:
    sm.set(["diana;;client_1"], UserSessionInfo(user_id="diana;;client_1"))
    x = sm.get(["diana", "client_1"])
    bad("the client session of diana is now %s" % type(x), not isinstance(x, ClientSessionInfo))
except ValueError as e:
    bad("refused: %s" % e, False)
# 6 dump / load
sm.flush()
sid = ses(claims={"userinfo": {"name": None}})
g = sm.get_grant(sid)
code = g.mint_token(session_id=sid, endpoint_context=s.endpoint_context, token_class="authorization_code", token_handler=sm.token_handler["authorization_code"])
d = sm.dump()
try:
    d = json.loads(json.dumps(d)); bad("dump can be stored as JSON", False)
except TypeError as e:
    bad("dump can not be stored as JSON %s" % e, True)
s2 = server()
sm2 = s2.endpoint_context.session_manager
sm2.flush()
sm2.load(d, init_args={"handler": sm2.token_handler})
g2 = sm2.get_grant(sid)
bad("grant id changes", g2.id != g.id)
for a in set(list(vars(g)) + list(vars(g2))):
    if a in ("issued_token",): continue
    x, y = getattr(g, a, "-"), getattr(g2, a, "-")
    if x != y: print("   grant", a, repr(x)[:80], repr(y)[:80])
c2 = g2.get_token(code.value)
for a in vars(code):
    if getattr(code, a) != getattr(c2, a, "-"): print("   code", a, getattr(code, a), getattr(c2, a, "-"))
print([type(x) for x in (g2.authorization_request, g2.authentication_event)], sm2.salt == sm.salt, sm2.key == sm.key)
