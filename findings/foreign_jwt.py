"""A JWT that a client signed with its own key, or that nobody signed, is not one of the provider's tokens."""
from op import *
from cryptojwt import JWT
from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.key_bundle import KeyBundle
from cryptojwt.key_jar import KeyJar
from oidcop.token.exception import UnknownToken
s = server(jwt=True)
sm = s.endpoint_context.session_manager
sid = auth_code(s)["session_id"]
h = sm.token_handler["access_token"]
key = new_rsa_key(alg=h.alg, kid="mine") if h.alg.startswith("RS") else new_ec_key("P-256", alg=h.alg, kid="mine")
kj = KeyJar()
kb = KeyBundle()
kb.append(key)
for o in ("", "client_1"):
    kj.add_kb(o, kb)
s.endpoint_context.keyjar.add_kb("client_1", kb)
t = JWT(key_jar=kj, iss="client_1", sign_alg=h.alg, lifetime=300).pack({"sid": sid, "token_class": "access_token"})
try:
    print(h.info(t))
except UnknownToken:
    pass
else:
    raise SystemExit("believed")
