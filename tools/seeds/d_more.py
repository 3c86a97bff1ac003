import os
import runpy

_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a_tokens.py"))
TOK = _a["TOK"]
S = []


def s(id, property, edits, needs, breaks, demo):
    S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


SM = '''
import hashlib
from op import *

s = server()
ctx = s.endpoint_context
ctx.provider_info["check_session_iframe"] = "https://example.com/check_session_iframe.html"
ep = s.server_get("endpoint", "authorization")

def login(uri, **kw):
    ctx.cdb["client_1"]["redirect_uris"] = [(uri, None)]
    ar = ep.parse_request(areq(redirect_uri=uri, **kw).to_dict())
    assert "error" not in ar, ar
    sid = session(s, ar)
    return sid, ep.authz_part2(ar, sid)

def state_of(origin, opbs, salt):
    return hashlib.sha256(("client_1 %s %s %s" % (origin, opbs, salt)).encode()).hexdigest() + "." + salt

def cookie(res, name):
    return [c["value"] for c in res["cookie"] if c["name"] == ctx.cookie_handler.name[name]][-1]
'''

s("C45-origin-without-port", "C45",
  [("cookie_handler.py", 'rp_origin_url = "{uri.scheme}://{uri.netloc}".format(uri=parsed_uri)',
    'rp_origin_url = "{uri.scheme}://{uri.hostname}".format(uri=parsed_uri)')],
  "a client whose redirect URI is on a port of its own",
  "session_state is computed for another origin than that of the client's page, which will think that the login has changed all the time",
  SM + '''
sid, r = login("https://rp.example:8443/cb")
st = r["response_args"]["session_state"]
assert st == state_of("https://rp.example:8443", cookie(r, "session_management"), st.split(".")[1]), st
''')

s("C45-cookie-made-again", "C45",
  [("oauth2/authorization.py", '''                    resp_info["cookie"].append(_session_cookie_content)
''', '''                    resp_info["cookie"].append(
                        _context.new_cookie(
                            name=_context.cookie_handler.name["session_management"],
                            state=as_unicode(_state),
                            client_id=request["client_id"],
                        )
                    )
''')],
  "session management, and a check of session_state against the cookie the browser got",
  "the management cookie in the browser is not the one session_state was made from",
  SM + '''
sid, r = login("https://rp.example/cb")
st = r["response_args"]["session_state"]
assert st == state_of("https://rp.example", cookie(r, "session_management"), st.split(".")[1]), st
''')

s("C45-state-outlives-login", "C45",
  [("oauth2/authorization.py", "                if authn_event.is_valid() is False:\n",
    "                if authn_event.is_valid(authn_event[\"authn_time\"]) is False:\n")],
  "an authentication that is past its time when the response is made, with session management on",
  "a session_state is given for a login that has timed out",
  SM + '''
from oidcmsg.time_util import utc_time_sans_frac
uri = "https://rp.example/cb"
ar = ep.parse_request(areq(redirect_uri=uri, response_mode="query").to_dict())
now = utc_time_sans_frac()
sid = session(s, ar, authn_time=now - 1000, valid_until=now - 10)
r = ep.authz_part2(ar, sid)
assert "session_state" not in r["response_args"], r["response_args"]
''')

s("C15-none-with-anything", "C15",
  [("oauth2/authorization.py", '        return set(request["response_type"]) in _registered\n',
    '        return set(request["response_type"]).difference({"none"}) in _registered\n')],
  "a response type with none as one of several parts",
  "code none is accepted although it is not registered (and must not be)",
  '''
from op import *
s = server()
s.endpoint_context.cdb["client_1"]["response_types"] = ["code"]
ep = s.server_get("endpoint", "authorization")
ok = ep.parse_request(areq(response_type=["code"]).to_dict())
assert "error" not in ok, ok
r = ep.parse_request(areq(response_type=["code", "none"]).to_dict())
assert "error" in r, "a response type that is not registered is accepted"
''')

s("C14-error-without-state", "C14",
  [("oauth2/authorization.py", '        if request.get("state"):\n            aresp["state"] = request["state"]\n\n        if "response_type" in request and',
    '        if request.get("state") and not request.get("response_mode") == "form_post":\n            aresp["state"] = request["state"]\n\n        if "response_type" in request and')],
  "a request with the response mode form_post",
  "forms that are posted to the client do not carry the state",
  '''
from op import *
s = server()
ep = s.server_get("endpoint", "authorization")
ar = ep.parse_request(areq(response_mode="form_post", state="XYZZY").to_dict())
r = ep.authz_part2(ar, session(s, ar))
assert "XYZZY" in r["response_msg"], r["response_msg"]
''')
