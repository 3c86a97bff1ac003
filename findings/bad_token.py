"""tokens that cannot be resolved (exit 1 when one ends in an exception)"""
import sys
import op
from cryptojwt.utils import b64e
import json

bad = []
enc = lambda o: b64e(json.dumps(o).encode()).decode()
for jwt in (True, False):
    s = op.server(jwt)
    m = s.endpoint_context.session_manager
    for t in [enc({"alg": "RS256"}) + "." + enc(p) + ".AA" for p in ([], "s", 1, None, {"aud": []}, {"aud": [[]]})] + ["a.b.c", "eyJhbGciOltdfQ.e30.AA"]:
        ep = s.server_get("endpoint", "introspection")
        try:
            r = ep.process_request({"token": t})
            if r["response_args"]["active"] is not False:
                bad.append("%s is active" % t)
        except Exception as e:
            bad.append("introspection %s: %r" % (t[:40], e))
    # tokens of before the session key was replaced
    from oidcop.session.database import Crypt
    code = op.auth_code(s)["response_args"]["code"]
    m.crypt = Crypt("another key")
    ep = s.server_get("endpoint", "token")
    try:
        r = ep.helper["authorization_code"].post_parse_request({"code": code, "client_id": "client_1"}, "client_1")
        if "error" not in r:
            bad.append("accepted")
    except Exception as e:
        bad.append("token endpoint: %r" % e)
print("\n".join(bad))
sys.exit(1 if bad else 0)
