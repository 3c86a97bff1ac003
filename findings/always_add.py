"""claims configured for userinfo leak into the client's configuration for ID Tokens"""
from op import *
s = server(edit=lambda c: c["token_handler_args"]["id_token"].update(kwargs={"enable_claims_per_client": True}))
ci = s.endpoint_context.claims_interface
cl = s.endpoint_context.cdb["client_1"]
cl["add_claims"] = {"always": {"id_token": ["name"], "userinfo": ["email"]}}
print(sorted(ci.get_claims_from_request(areq(), "id_token", client_id="client_1")))
print(sorted(ci.get_claims_from_request(areq(), "id_token", client_id="client_1", secondary_identifier="userinfo")))
print(sorted(ci.get_claims_from_request(areq(), "id_token", client_id="client_1")), cl["add_claims"])
