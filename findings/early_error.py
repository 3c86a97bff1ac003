"""C14: an error met before the authentication goes nowhere if the request has response_mode query or fragment"""
from op import *
from oidcop.user_authn import user
s = server()
ep = s.server_get("endpoint", "authorization")
def none(*a, **k):
    return None, 0
user.NoAuthn.authenticated_as = none
for mode in (None, "query", "fragment", "form_post"):
    r = areq(prompt="none").to_dict()
    if mode: r["response_mode"]=mode
    pr = ep.parse_request(r)
    out = ep.process_request(pr)
    print(mode, out)
    try:
        print("   ", ep.do_response(request=pr, **out))
    except Exception as e:
        print("   EXC", repr(e))
