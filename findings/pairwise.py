"""A client that registered for pairwise subject identifiers gets one of its own sector, whatever the request says."""
from op import *
s = server()
c = s.endpoint_context.cdb
first = list(c)[0]
c["other"] = dict(c[first], redirect_uris=[("https://other.example/cb", {})])
c[first]["subject_type"] = c["other"]["subject_type"] = "pairwise"
sm = s.endpoint_context.session_manager


def sub(**kw):
    r = auth_code(s, **kw)
    return sm[r["session_id"]].sub


a = sub()
b = sub(client_id="other", redirect_uri="https://other.example/cb")
assert a != b, "the same subject identifier in two sectors"
x = sub(client_id="other", redirect_uri="https://other.example/cb", sector_identifier_uri="https://rp.example")
assert x == b, "the client picks its sector"
assert a == sub()
