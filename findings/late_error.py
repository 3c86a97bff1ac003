"""C14: an error met after authentication gives a KeyError when the request names no response_mode"""
from op import areq
from op import server
from op import session

s = server()
ep = s.server_get("endpoint", "authorization")
ar = ep.parse_request(areq().to_dict())
sid = session(s, ar)
ep.post_authentication = lambda *a, **kw: 1 / 0
res = ep.authz_part2(ar, sid)
print(res)
assert res["response_args"]["error"] == "server_error" and res["return_uri"] == ar["redirect_uri"]
