"""logging out everywhere when one of the clients the user is logged in at has been removed"""
from op import *
s = server()
ctx = s.endpoint_context
ep = s.server_get("endpoint", "session")
a = session(s); granted(s, a)
b = session(s, areq(client_id="client_2")); granted(s, b)
del ctx.cdb["client_2"]
try:
    ep.logout_all_clients(a)
except KeyError as err:
    print("KeyError", err)
m = ctx.session_manager
print("client_1 logged out:", m.get_grant(a).revoked, " client_2 logged out:", m.get_grant(b).revoked)
assert m.get_grant(a).revoked and m.get_grant(b).revoked
