"""a client that registered for encrypted ID Tokens gets them unencrypted"""
from op import *
from cryptojwt.key_jar import build_keyjar
s = server()
ctx = s.endpoint_context
rp = build_keyjar([{"type": "RSA", "key": "", "use": ["enc"]}])
ctx.keyjar.import_jwks(rp.export_jwks(), "client_1")
ctx.cdb["client_1"].update(id_token_encrypted_response_alg="RSA-OAEP", id_token_encrypted_response_enc="A256GCM")
sid = session(s); granted(s, sid)
t = mint(s, sid, "id_token", based_on=mint(s, sid, "authorization_code"))
print(len(t.value.split(".")), "parts (5 = encrypted, 3 = only signed)")
