"""introspection of expired, unknown, malformed tokens; tokens of a revoked grant"""
from op import *
def go(jwt):
    s = server(jwt)
    ep = s.server_get("endpoint", "introspection")
    sid = session(s); granted(s, sid)
    code = mint(s, sid, "authorization_code")
    at = mint(s, sid, "access_token", based_on=code)
    sm = s.endpoint_context.session_manager
    def ask(v):
        try:
            r = ep.process_request(ep.parse_request({"token": v, "client_id": "client_1", "client_secret": "hemligtsecret0123456789"}))
            return r.get("response_args", r).to_dict()
        except Exception as e:
            return "%s %r" % (type(e), e)
    print(jwt, "live", ask(at.value))
    print(jwt, "garbage", ask("abc"), ask("a.b.c"), ask(at.value + "x"), ask("x" + at.value))
    print(jwt, "code", ask(code.value))
    g = sm.get_grant(sid)
    g.issued_token.remove(at)
    print(jwt, "dropped", ask(at.value))
    g.issued_token.append(at)
    g.revoke()
    print(jwt, "revoked grant", ask(at.value))
    ui = s.server_get("endpoint", "userinfo")
    try:
        print(jwt, "userinfo revoked grant", ui.process_request(ui.parse_request({}, http_info={"headers": {"authorization": "Bearer " + at.value}})))
    except Exception as e:
        print(repr(e))
    import oidcop.token.jwt_token as m
    from oidcmsg.time_util import utc_time_sans_frac
    if jwt:
        m.is_expired = lambda exp, when=0: utc_time_sans_frac() + 7200 > exp
        g.revoked = False
        print(jwt, "expired", ask(at.value))
        try:
            print(ui.parse_request({}, http_info={"headers": {"authorization": "Bearer " + at.value}}))
        except Exception as e:
            print(repr(e))
go(False); go(True)
