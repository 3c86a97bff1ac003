"""Minting stores the grant where it is kept; the token response's cookie does not tell the user id."""
from op import *
s = server()
sm = s.endpoint_context.session_manager
r = auth_code(s)
before = set(sm.db.keys())
tok = s.server_get("endpoint", "token")
pr = tok.parse_request({"grant_type": "authorization_code", "code": r["response_args"]["code"], "redirect_uri": "https://rp.example/cb",
                        "client_id": "client_1", "client_secret": "hemligtsecret0123456789"})
res = tok.process_request(pr)
assert set(sm.db.keys()) == before, set(sm.db.keys()) - before
assert "diana" not in str(res["cookie"]), res["cookie"]
sm.remove_session(r["session_id"])
assert not sm.db.keys(), list(sm.db.keys())
