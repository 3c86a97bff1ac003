"""a client with userinfo_encrypted_response_alg, and no _enc, gets its user information in plain"""
from op import *
s = server()
ctx = s.endpoint_context
rp = build_keyjar([{"type": "RSA", "key": "", "use": ["enc"]}])
ctx.keyjar.import_jwks(rp.export_jwks(), "client_1")
ctx.cdb["client_1"].update(userinfo_encrypted_response_alg="RSA-OAEP")
ep = s.server_get("endpoint", "userinfo")
r = ep.do_response({"sub": "diana", "name": "Diana Krall"}, client_id="client_1")
print(r["http_headers"][0], len(r["response"].split(".")), "parts (5 = encrypted)", "Diana" in r["response"])
