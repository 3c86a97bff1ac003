"""get_session_info with grant and authentication event; add_grant lists the grant once"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
from op import *
s = server()
sm = s.endpoint_context.session_manager
sid = session(s)
i = sm.get_session_info(sid, grant=True, authentication_event=True)
assert i["authentication_event"] is i["grant"].authentication_event
sm.add_grant("diana", "client_1", scope=["openid"])
g = sm.grants(user_id="diana", client_id="client_1")
assert len(g) == 2, len(g)
print("ok")
