"""C14: a form_post response names neither issuer nor client (mix-up mitigation)"""
from op import areq
from op import server
from op import session

s = server()
ep = s.server_get("endpoint", "authorization")
ar = ep.parse_request(areq(response_mode="form_post").to_dict())
sid = session(s, ar)
res = ep.authz_part2(ar, sid)
html = res["response_msg"]
print(html)
assert 'name="iss"' in html and 'name="client_id"' in html, "the form names no issuer"
