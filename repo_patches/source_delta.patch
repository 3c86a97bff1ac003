From 62e4bb964803c60e699af359bc9d59ef26fbc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 01/58] fix: keep query components without a value when
 comparing redirect URIs

---
 src/oidcop/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From 3b8567ed466d86d4966e51e6568d25f2c98e8cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 02/58] fix: HTML escape what is put into the form_post page

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..8a83022 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,3 +1,4 @@
+import html
 import json
 import logging
 from typing import List
@@ -80,7 +81,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(html.escape(str(name)), html.escape(str(value))))
     return "\n".join(element)
 
 
@@ -677,7 +678,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=html.escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From 9190dc2d9f848ed049720c37a6c626c0ca575636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 03/58] fix: prompt=none never leads to a login page

---
 src/oidcop/oauth2/authorization.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8a83022..b6269ca 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -594,31 +594,29 @@ class Authorization(Endpoint):
         _mngr = _context.session_manager
         _session_id = ""
 
+        if "prompt" in request and "none" in request["prompt"]:
+            # Not allowed to authenticate
+            _login = self._login_required_error(redirect_uri, request)
+        else:
+            _login = {"function": authn, "args": authn_args}
+
         # To authenticate or Not
         if not identity:  # No!
             logger.info("No active authentication")
             logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
-
-            if "prompt" in request and "none" in request["prompt"]:
-                # Need to authenticate but not allowed
-                return self._login_required_error(redirect_uri, request)
-            else:
-                return {"function": authn, "args": authn_args}
+            return _login
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return _login
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return _login
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -626,15 +624,15 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return _login
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
+                        return _login
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                            return _login
 
                         # create new grant
                         _session_id = _mngr.create_grant(
@@ -647,7 +645,7 @@ class Authorization(Endpoint):
         if _session_id:
             authn_event = _mngr.get_authentication_event(session_id=_session_id)
             if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
+                return _login
         else:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
-- 
2.43.0


From 0bde82d7457f2b6119ce5f4c5d35887ac84d3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 04/58] fix: a pushed authorization request expires and can
 only be used by the client that pushed it

---
 src/oidcop/oauth2/authorization.py        | 16 ++++++++++------
 src/oidcop/oauth2/pushed_authorization.py |  6 +++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index b6269ca..e3e6bac 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -357,13 +357,17 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
-                        # One time usage
-                        del endpoint_context.par_db[_request_uri]
-                        return _req
-                    else:
+                    _pushed = endpoint_context.par_db.get(_request_uri)
+                    if not _pushed:
                         raise ValueError("Got a request_uri I can not resolve")
+                    # Only to be used by the client that pushed it
+                    if _pushed["request"].get("client_id") != client_id:
+                        raise ValueError("The request_uri belongs to another client")
+                    # One time usage
+                    del endpoint_context.par_db[_request_uri]
+                    if _pushed["expires_at"] < utc_time_sans_frac():
+                        raise ValueError("The request_uri has expired")
+                    return _pushed["request"]
 
             # Do I support request_uri ?
             if endpoint_context.provider_info.get("request_uri_parameter_supported", True) is False:
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..dfb8ca5 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,6 +1,7 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -30,7 +31,10 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        self.server_get("endpoint_context").par_db[_urn] = {
+            "request": request,
+            "expires_at": utc_time_sans_frac() + self.ttl,
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From ca21c17e4ffd4b62a084f5141af994a18721caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:09 +0000
Subject: [PATCH 05/58] fix: check the algorithms of request objects however
 they are passed

The encryption algorithms were read from the JWS header, and request objects
passed by value were not checked at all.
---
 src/oidcop/oauth2/authorization.py | 43 +++++++++++++++++-------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index e3e6bac..d23395d 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -349,6 +349,24 @@ class Authorization(Endpoint):
 
         return token
 
+    def _verify_request_object(self, request_object, client_id, endpoint_context):
+        """
+        Verify that a request object was protected with algorithms that are
+        permitted for the client.
+        """
+        _jws_header = request_object.jws_header or {"alg": "none"}
+        self.allowed_request_algorithms(
+            client_id, endpoint_context, _jws_header.get("alg", "RS256"), "sign"
+        )
+        _jwe_header = request_object.jwe_header
+        if _jwe_header is not None:
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, _jwe_header.get("alg"), "enc_alg"
+            )
+            self.allowed_request_algorithms(
+                client_id, endpoint_context, _jwe_header.get("enc"), "enc_enc"
+            )
+
     def _do_request_uri(self, request, client_id, endpoint_context, **kwargs):
         _request_uri = request.get("request_uri")
         if _request_uri:
@@ -387,25 +405,7 @@ class Authorization(Endpoint):
             if _resp.status_code == 200:
                 args = {"keyjar": endpoint_context.keyjar, "issuer": client_id}
                 _ver_request = self.request_cls().from_jwt(_resp.text, **args)
-                self.allowed_request_algorithms(
-                    client_id,
-                    endpoint_context,
-                    _ver_request.jws_header.get("alg", "RS256"),
-                    "sign",
-                )
-                if _ver_request.jwe_header is not None:
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("alg"),
-                        "enc_alg",
-                    )
-                    self.allowed_request_algorithms(
-                        client_id,
-                        endpoint_context,
-                        _ver_request.jws_header.get("enc"),
-                        "enc_enc",
-                    )
+                self._verify_request_object(_ver_request, client_id, endpoint_context)
                 # The protected info overwrites the non-protected
                 for k, v in _ver_request.items():
                     request[k] = v
@@ -413,6 +413,11 @@ class Authorization(Endpoint):
                 request[verified_claim_name("request")] = _ver_request
             else:
                 raise ServiceError("Got a %s response", _resp.status)
+        else:
+            # A request object passed by value
+            _ver_request = request.get(verified_claim_name("request"))
+            if isinstance(_ver_request, Message):
+                self._verify_request_object(_ver_request, client_id, endpoint_context)
 
         return request
 
-- 
2.43.0


From 3a8d6f908824d70b060e5c85de0ca430c4728c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 06/58] fix: a request object can not move an authorization
 request to another client

---
 src/oidcop/oauth2/authorization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index d23395d..18f5eca 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -446,6 +446,13 @@ class Authorization(Endpoint):
                 request, error="unauthorized_client", error_description="unknown client"
             )
 
+        # A request object must not move the request to another client
+        if request.get("client_id") != client_id:
+            logger.error("Request by {} on behalf of another client".format(client_id))
+            return self.authentication_error_response(
+                request, error="invalid_request", error_description="client_id mismatch"
+            )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From e8413005f86a4a0f94bd5334282e131b6e8d5298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:50 +0000
Subject: [PATCH 07/58] fix: a client_id next to a bearer token proves nothing

---
 src/oidcop/client_authn.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..e5d8a97 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -172,11 +172,9 @@ class BearerBody(ClientSecretPost):
         if _token is None:
             raise AuthnFailure("No access token")
 
-        res = {"token": _token}
-        _client_id = request.get("client_id")
-        if _client_id:
-            res["client_id"] = _client_id
-        return res
+        # Which client it is has to be found out from the token, a client_id in the
+        # request proves nothing.
+        return {"token": _token}
 
 
 class JWSAuthnMethod(ClientAuthnMethod):
-- 
2.43.0


From c505fc74a62569f6d37496162cc3dfbc76e6072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:49 +0000
Subject: [PATCH 08/58] fix: a request object has to be signed to authenticate
 a client

---
 src/oidcop/client_authn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index e5d8a97..cd84eaa 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -283,6 +283,10 @@ class RequestParam(ClientAuthnMethod):
             logger.info("%s" % sanitize(err))
             raise AuthnFailure("Could not verify client_assertion.")
 
+        # A request that is encrypted but not signed proves nothing about who sent it
+        if not _jwt.jws_header:
+            raise AuthnFailure("The request object is not signed.")
+
         # If there is a jti use it to make sure one-time usage is true
         _jti = _jwt.get("jti")
         if _jti:
-- 
2.43.0


From 3260ff3d3064e6ab75503d0ea83f8dd513c2db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:42 +0000
Subject: [PATCH 09/58] fix: introspection and userinfo answer for tokens that
 are expired or not in the session

---
 src/oidcop/oauth2/introspection.py | 5 +++--
 src/oidcop/oidc/userinfo.py        | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..5cab946 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -27,7 +28,7 @@ class Introspection(Endpoint):
 
     def _introspect(self, token, client_id, grant):
         # Make sure that the token is an access_token or a refresh_token
-        if token.token_class not in ["access_token", "refresh_token"]:
+        if token is None or token.token_class not in ["access_token", "refresh_token"]:
             return None
 
         if not token.is_active():
@@ -95,7 +96,7 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (UnknownToken, WrongTokenClass, ToOld, KeyError, ValueError):
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..97aebff 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -117,8 +117,12 @@ class UserInfo(Endpoint):
 
         _grant = _session_info["grant"]
         token = _grant.get_token(request["access_token"])
+        # should be a known token
+        if token is None:
+            return self.error_cls(error="invalid_token", error_description="Invalid Token")
+
         # should be an access token
-        if token and token.token_class != "access_token":
+        if token.token_class != "access_token":
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
         # And it should be valid
-- 
2.43.0


From ff1f748add01d9f0dfffd2ef0ab3938025e1ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:57 +0000
Subject: [PATCH 10/58] fix: access tokens of a revoked grant are not accepted

---
 src/oidcop/oauth2/introspection.py | 2 +-
 src/oidcop/oidc/userinfo.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 5cab946..e7415d7 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -31,7 +31,7 @@ class Introspection(Endpoint):
         if token is None or token.token_class not in ["access_token", "refresh_token"]:
             return None
 
-        if not token.is_active():
+        if not token.is_active() or grant.revoked:
             return None
 
         scope = token.scope
diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 97aebff..516c220 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -126,7 +126,7 @@ class UserInfo(Endpoint):
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
         # And it should be valid
-        if token.is_active() is False:
+        if token.is_active() is False or _grant.revoked:
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         allowed = True
-- 
2.43.0


From 7b518304d6a7840e3310c7d29b7b6055f31eb34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:25 +0000
Subject: [PATCH 11/58] fix: encrypt ID Tokens for clients that registered an
 encryption algorithm

---
 src/oidcop/token/id_token.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..d2a282a 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -282,6 +282,10 @@ class IDToken(Token):
         else:
             xargs = {}
 
+        # A client that registered an encryption algorithm gets encrypted ID Tokens
+        if not encrypt:
+            encrypt = "id_token_encrypted_response_alg" in _context.cdb[client_id]
+
         lifetime = self.lifetime
 
         id_token = self.sign_encrypt(
-- 
2.43.0


From 48b9210f8ebe2366efd435cb6e28b3fff7deca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:06 +0000
Subject: [PATCH 12/58] fix: user information does not replace what a token
 says about itself

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 src/oidcop/session/grant.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index e7415d7..f7e4d5a 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -122,7 +122,8 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                # User information must not replace what is said about the token
+                _resp.update({k: v for k, v in user_info.items() if k not in _resp})
 
         _resp["active"] = True
 
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..ef3565b 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -237,7 +237,8 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # User information must not replace what the token says about itself
+        payload.update({k: v for k, v in user_info.items() if k not in payload})
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From 9709e868756518bb30a1789d51a31ebbb1a81c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 13/58] fix: collecting claims does not change the
 configuration of the client

---
 src/oidcop/session/claims.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..ed19cf2 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -82,7 +82,8 @@ class ClaimsInterface:
         _always_add = add_claims_always.get(claims_release_point, [])
         if secondary_identifier:
             _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+            # not extend(), that would change the configuration of the client
+            _always_add = _always_add + _always_2
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From f4c87e0295e87a9899e263e7634451b7450d19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:26 +0000
Subject: [PATCH 14/58] fix: usage rules of a grant are not shared with the
 configuration

---
 src/oidcop/authz/__init__.py | 5 ++++-
 src/oidcop/session/grant.py  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..dee6756 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -30,7 +30,10 @@ class AuthzHandling(object):
             return _usage_rules
 
         try:
-            _per_client = self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            # tokens add to their rules, hence a copy
+            _per_client = copy.deepcopy(
+                self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            )
         except KeyError:
             pass
         else:
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index ef3565b..e023654 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -428,7 +428,7 @@ def get_usage_rules(token_type, endpoint_context, grant, client_id):
 
     _usage = endpoint_context.authz.usage_rules_for(client_id, token_type)
     if not _usage:
-        _usage = DEFAULT_USAGE[token_type]
+        _usage = DEFAULT_USAGE[token_type].copy()
 
     _grant_usage = grant.usage_rules.get(token_type)
     if _grant_usage:
-- 
2.43.0


From 76435e9c7e94a76d929f9bb25ec47c100ca80256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 15/58] fix: a logout request can not name another client than
 the session's

verify_uri() prefers the client_id of the request, hence the user could be
redirected to a URI some other client had registered.
---
 src/oidcop/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..1d70f50 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -289,6 +289,9 @@ class Session(Endpoint):
             logger.debug("No relevant cookie")
             raise ValueError("Missing cookie")
 
+        if request.get("client_id", _session_info["client_id"]) != _session_info["client_id"]:
+            raise ValueError("Client ID doesn't match")
+
         if "id_token_hint" in request and _session_info:
             _id_token = request[verified_claim_name("id_token_hint")]
             logger.debug("ID token hint: {}".format(_id_token))
-- 
2.43.0


From 1f665c2e28473e5ff65775608f4e929c8cdaa069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 16/58] fix: the id_token_hint of a logout request must be
 issued by this provider

Anything signed by a key in the key jar, that is by any client, was accepted.
---
 src/oidcop/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 1d70f50..7cad60d 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -296,6 +296,9 @@ class Session(Endpoint):
             _id_token = request[verified_claim_name("id_token_hint")]
             logger.debug("ID token hint: {}".format(_id_token))
 
+            if _id_token["iss"] != _context.issuer:
+                raise ValueError("Not issued by me")
+
             _aud = _id_token["aud"]
             if _session_info["client_id"] not in _aud:
                 raise ValueError("Client ID doesn't match")
-- 
2.43.0


From e381d4d01d70b1b787d5ac3bb86006a9511dff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 17/58] fix: a registered post_logout_redirect_uri can be used

It is registered as post_logout_redirect_uri but was looked for as
post_logout_redirect_uris, and state was added as a second query part.
---
 src/oidcop/oauth2/authorization.py | 5 +++++
 src/oidcop/oidc/session.py         | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 18f5eca..4c64d1e 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -131,6 +131,11 @@ def verify_uri(
         raise KeyError("No such client")
 
     redirect_uris = client_info.get(f"{uri_type}s")
+    if redirect_uris is None and uri_type == "post_logout_redirect_uri":
+        # only one can be registered
+        _registered = client_info.get(uri_type)
+        if _registered:
+            redirect_uris = [_registered]
 
     if redirect_uris is None:
         raise RedirectURIError(f"No registered {uri_type} for {_cid}")
diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 7cad60d..680cf0a 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -336,7 +336,9 @@ class Session(Endpoint):
 
         # redirect user to OP logout verification page
         if plur and "state" in request:
-            _uri = "{}?{}".format(_uri, urlencode({"state": request["state"]}))
+            _uri = "{}{}{}".format(
+                _uri, "&" if "?" in _uri else "?", urlencode({"state": request["state"]})
+            )
             payload["state"] = request["state"]
 
         payload["redirect_uri"] = _uri
-- 
2.43.0


From 8a2c21752e924be9720d1fedca13e1fcecd51376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 18/58] fix: a front-channel logout URI can not break out of
 the iframe element

---
 src/oidcop/oidc/session.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 680cf0a..52d6afd 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -1,5 +1,6 @@
 import json
 import logging
+from html import escape
 from typing import Optional
 from typing import Union
 from urllib.parse import parse_qs
@@ -65,10 +66,10 @@ def do_front_channel_logout_iframe(cinfo, iss, sid):
 
         logger.debug(f"IFrame query: {_query}")
         _iframe = '<iframe src="{}?{}">'.format(
-            frontchannel_logout_uri, urlencode(_query, doseq=True)
+            escape(frontchannel_logout_uri), urlencode(_query, doseq=True)
         )
     else:
-        _iframe = '<iframe src="{}">'.format(frontchannel_logout_uri)
+        _iframe = '<iframe src="{}">'.format(escape(frontchannel_logout_uri))
 
     return _iframe
 
-- 
2.43.0


From ab547cb435b0e291bcb87a77e3f5aa462d027fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:04 +0000
Subject: [PATCH 19/58] fix: logging out from all clients ends the sessions of
 all clients

Sessions of clients without a logout URI, or without an ID Token, lived on.
---
 src/oidcop/oidc/session.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 52d6afd..8ad8dbe 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -168,6 +168,7 @@ class Session(Endpoint):
         fc_iframes = {}
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
+            _rel_sid.append(_mngr.encrypted_session_id(_user_id, _client_id))
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
                 _cli = _mngr.get([_user_id, _client_id])
@@ -178,7 +179,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
                         if _spec:
                             bc_logouts[_client_id] = _spec
@@ -192,7 +192,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         # Construct an IFrame
                         _spec = do_front_channel_logout_iframe(
                             _cdb[_client_id], _iss, idt.session_id
-- 
2.43.0


From 340d2f375383b7012f593e1c1c331998c7ce8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:37 +0000
Subject: [PATCH 20/58] fix: back-channel logout of clients that were not
 dynamically registered

Their client information has no client_id. The resulting KeyError also left
their session alive.
---
 src/oidcop/oidc/session.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 8ad8dbe..ee309ff 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -108,11 +108,12 @@ class Session(Endpoint):
         ctx, tag = split_ctx_and_tag(_msg)
         return as_unicode(encrypter.decrypt(as_bytes(ctx), iv=self.iv, tag=as_bytes(tag)))
 
-    def do_back_channel_logout(self, cinfo, sid):
+    def do_back_channel_logout(self, cinfo, sid, client_id=""):
         """
 
         :param cinfo: Client information
         :param sid: The session ID
+        :param client_id: Client ID, only a dynamically registered client has it in its information
         :return: Tuple with logout URI and signed logout token
         """
 
@@ -138,7 +139,7 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        _logout_token = _jws.pack(payload=payload, recv=client_id or cinfo["client_id"])
 
         return back_channel_logout_uri, _logout_token
 
@@ -179,7 +180,9 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
+                        _spec = self.do_back_channel_logout(
+                            _cdb[_client_id], idt.session_id, _client_id
+                        )
                         if _spec:
                             bc_logouts[_client_id] = _spec
                         break
@@ -231,7 +234,7 @@ class Session(Endpoint):
 
         res = {}
         if "backchannel_logout_uri" in _cdb[_client_id]:
-            _spec = self.do_back_channel_logout(_cdb[_client_id], sid)
+            _spec = self.do_back_channel_logout(_cdb[_client_id], sid, _client_id)
             if _spec:
                 res["blu"] = {_client_id: _spec}
         elif "frontchannel_logout_uri" in _cdb[_client_id]:
-- 
2.43.0


From 7fce64363f7e90fb6907dd07ceeeebc5b2bb2d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 21/58] fix: a refused registration leaves no client behind

---
 src/oidcop/oidc/registration.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..4acd076 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -433,19 +433,30 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _registration_access_token = _cinfo.get("registration_access_token")
+        _previous = None if new_id else _context.cdb.get(client_id)
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
-        if isinstance(_cinfo, ResponseMessage):
-            return _cinfo
+        response = None
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+            if isinstance(_cinfo, ResponseMessage):
+                return _cinfo
 
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
 
-        comb_uri(args)
-        response = self.response_cls(**args)
+            comb_uri(args)
+            response = self.response_cls(**args)
+        finally:
+            if response is None:  # refused, must not leave anything behind
+                if _previous is None:
+                    del _context.cdb[client_id]
+                else:
+                    _context.cdb[client_id] = _previous
+                _context.registration_access_token.pop(_registration_access_token, None)
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From 0be623a15f435024f171badd7c867730142b53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 22/58] fix: a registration request can not replace what the OP
 issues

---
 src/oidcop/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 4acd076..89a1cf0 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -177,7 +177,7 @@ class Registration(Endpoint):
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
         for key, val in request.items():
-            if key not in ignore:
+            if key not in ignore and key not in _cinfo:  # can't replace what the OP has set
                 _cinfo[key] = val
 
         _uri = request.get("post_logout_redirect_uri")
-- 
2.43.0


From 22a4a8b446dbcddf633b0ea9cfc6bfd702db7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 23/58] fix: a client can not register policies of the OP

---
 src/oidcop/oidc/registration.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 89a1cf0..0354654 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -44,6 +44,21 @@ PREFERENCE2PROVIDER = {
     "grant_types": "grant_types_supported",
 }
 
+# Client information that expresses policies of the OP, a client can not choose those.
+OP_POLICY = [
+    "add_claims",
+    "allowed_scopes",
+    "auth_method",
+    "dpop_jkt",
+    "grant_types_supported",
+    "pkce_essential",
+    "revoke_refresh_on_issue",
+    "scopes_to_claims",
+    "sector_id",
+    "si_redirects",
+    "token_usage_rules",
+]
+
 logger = logging.getLogger(__name__)
 
 
@@ -177,6 +192,8 @@ class Registration(Endpoint):
         logger.debug("_cinfo: %s" % sanitize(_cinfo))
 
         for key, val in request.items():
+            if key in OP_POLICY:
+                continue
             if key not in ignore and key not in _cinfo:  # can't replace what the OP has set
                 _cinfo[key] = val
 
-- 
2.43.0


From 3f031f397b88cf0cdee4bf2c01b53768c4aee2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 24/58] fix: redirect URIs of native clients must not have a
 fragment

---
 src/oidcop/oidc/registration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 0354654..1be9f2a 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -302,6 +302,9 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
+            if p.fragment:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
@@ -322,8 +325,6 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
-- 
2.43.0


From 25fdfd50a2d994d98fed49cd1206d44af2a7a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 25/58] fix: client information is not readable without
 authentication by default

---
 src/oidcop/oidc/read_registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/read_registration.py b/src/oidcop/oidc/read_registration.py
index a5dbb30..735e59d 100644
--- a/src/oidcop/oidc/read_registration.py
+++ b/src/oidcop/oidc/read_registration.py
@@ -14,6 +14,9 @@ class RegistrationRead(Endpoint):
     request_placement = "url"
     response_format = "json"
     name = "registration_read"
+    default_capabilities = {
+        "client_authn_method": ["bearer_header"],
+    }
 
     def get_client_id_from_token(self, endpoint_context, token, request=None):
         if "client_id" in request:
-- 
2.43.0


From 85b1efab760cc4806329c7b8bdc53eb8703049ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:30 +0000
Subject: [PATCH 26/58] fix: deleting a session deletes everything below it and
 nothing else

---
 src/oidcop/session/database.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..7f0b84e 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -130,38 +130,31 @@ class Database(ImpExp):
 
         if uid not in self.db:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
-            return
 
         _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
-
-        if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
+        if client_id and client_id not in _user_info.subordinate:
             return
 
-        elif skey_uid_client in self.db:
+        for _client_id in [client_id] if client_id else list(_user_info.subordinate):
+            skey_uid_client = self.session_key(uid, _client_id)
+            if skey_uid_client not in self.db:
+                continue
+
             _client_info = self.db[skey_uid_client]
-            if grant_id:
+            for _grant_id in [grant_id] if grant_id else list(_client_info.subordinate):
+                skey_uid_client_grant = self.session_key(uid, _client_id, _grant_id)
                 if skey_uid_client_grant in self.db:
                     self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
-                    if skey_uid_client_grant in self.db:
-                        self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
+                if _grant_id in _client_info.subordinate:
+                    _client_info.subordinate.remove(_grant_id)
 
             if len(_client_info.subordinate) == 0:
                 self.db.__delitem__(skey_uid_client)
-                _user_info.subordinate.remove(client_id)
+                _user_info.subordinate.remove(_client_id)
             else:
-                self.db[client_id] = _client_info
+                self.db[skey_uid_client] = _client_info
 
-        if len(_user_info.subordinate) == 0:
+        if not client_id or len(_user_info.subordinate) == 0:
             self.db.__delitem__(uid)
         else:
             self.db[uid] = _user_info
-- 
2.43.0


From 9bf7e88a73faee2cacfbaba1d5c9c72ce5793606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 27/58] fix: identifiers that can not be told apart in a
 session key are refused

---
 src/oidcop/session/database.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 7f0b84e..677ca3b 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -48,8 +48,12 @@ class Database(ImpExp):
         self.key = key or rndstr(24)
         self.crypt = Crypt(key)
 
-    @staticmethod
-    def _eval_path(path: List[str]):
+    def _eval_path(self, path: List[str]):
+        # The identifiers must be possible to tell apart once they are joined into a key
+        _ids = [identifier for identifier in path if identifier]
+        if self.unpack_session_key(self.session_key(*_ids)) != _ids:
+            raise ValueError("Identifiers can not contain the divider")
+
         uid = path[0]
         client_id = None
         grant_id = None
-- 
2.43.0


From 905930efd5174e60c40282dd26228a536509d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 28/58] fix: the claims request of a grant can be dumped

---
 src/oidcop/session/manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..cdd1920 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -5,6 +5,7 @@ from typing import List
 from typing import Optional
 import uuid
 
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import AuthorizationRequest
 
 from oidcop import rndstr
@@ -181,7 +182,10 @@ class SessionManager(Database):
         """
         sector_identifier = auth_req.get("sector_identifier_uri", "")
 
+        # A plain dictionary, such that it can be dumped
         _claims = auth_req.get("claims", {})
+        if isinstance(_claims, Message):
+            _claims = _claims.to_dict()
 
         grant = Grant(
             authorization_request=auth_req,
-- 
2.43.0


From 8bc11230255e4a948c2efade5dd87741f2072a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:32 +0000
Subject: [PATCH 29/58] fix: a session database uses the key it generates

---
 src/oidcop/session/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 677ca3b..83d9c2c 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -46,7 +46,7 @@ class Database(ImpExp):
             setattr(self, k, v)
 
         self.key = key or rndstr(24)
-        self.crypt = Crypt(key)
+        self.crypt = Crypt(self.key)
 
     def _eval_path(self, path: List[str]):
         # The identifiers must be possible to tell apart once they are joined into a key
-- 
2.43.0


From 237c31c9faa129b2ac58da2b4fa3a7549073b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 30/58] fix: the key of a DPoP proof is the one it was signed
 with

---
 src/oidcop/oauth2/add_on/dpop.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..eadd674 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -72,10 +72,13 @@ class DPoPProof(Message):
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
                 for k, v in _jwt.headers.items():
-                    self[k] = v
+                    if k in self.header_params:
+                        self[k] = v
 
+                # The payload must not replace what is in the header
                 for k, v in _info.items():
-                    self[k] = v
+                    if k not in self.header_params:
+                        self[k] = v
             else:
                 raise Exception()
 
-- 
2.43.0


From 1261c477dbcc5e60ba4b8170bc2ea92dc4dfdccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 31/58] fix: DPoP proofs are verified and signed with a
 supported algorithm

---
 src/oidcop/oauth2/add_on/dpop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index eadd674..88024a0 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -107,6 +107,11 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
 
     # The signature of the JWS is verified, now for checking the
     # content
+    _dpop.verify()
+
+    _algs_supported = endpoint_context.provider_info["dpop_signing_alg_values_supported"]
+    if _dpop["alg"] not in _algs_supported:
+        raise ValueError("DPoP is not signed with a supported algorithm")
 
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
-- 
2.43.0


From 982e22ca602793b12291f13c73736d4757218bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:41 +0000
Subject: [PATCH 32/58] fix: a token is bound to a key only if there is a DPoP
 proof

---
 src/oidcop/oauth2/add_on/dpop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 88024a0..34888bf 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -99,6 +99,10 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     :return:
     """
 
+    # Only a proof can tell which key a token should be bound to
+    if "dpop_jkt" in request:
+        del request["dpop_jkt"]
+
     _http_info = kwargs.get("http_info")
     if not _http_info:
         return request
-- 
2.43.0


From 952295ba0cd79717da770fb9e26c50173d25dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:30 +0000
Subject: [PATCH 33/58] fix: a claims request without acr does not break the
 choice of authentication method

---
 src/oidcop/user_authn/authn_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..ab5184a 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -113,7 +113,7 @@ def _acr_claim(request):
     if _claims:
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
-            _acr = _id_token_claim.get("acr")
+            _acr = _id_token_claim.get("acr") or {}
             if "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
-- 
2.43.0


From 51b10715051fe1c7d862d26effd404e375fe89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:30 +0000
Subject: [PATCH 34/58] fix: a request for an acr that is not supported gets an
 error response

---
 src/oidcop/oauth2/authorization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4c64d1e..4956868 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -497,12 +497,16 @@ class Authorization(Endpoint):
         if res:
             return res
         else:
-            return {
+            _res = {
                 "error": "access_denied",
                 "error_description": "ACR I do not support",
                 "return_uri": redirect_uri,
                 "return_type": request["response_type"],
             }
+            _state = request.get("state")
+            if _state:
+                _res["state"] = _state
+            return _res
 
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
         _context = self.server_get("endpoint_context")
@@ -569,6 +573,8 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
-- 
2.43.0


From e39e15e2101eeb8d4e83e235e74dbfc2c7b62efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:29 +0000
Subject: [PATCH 35/58] fix: a cookie does not replace the user that
 authenticated

---
 src/oidcop/user_authn/user.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..9123766 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -120,6 +120,18 @@ class UserAuthnMethod(object):
                     return _info
         return {}
 
+    def session_info(self, user: str, cookie: List[dict], client_id: str) -> dict:
+        """
+        The authenticated user together with what the cookie says, provided that it is
+        about the same user.
+        """
+        res = {"uid": user}
+        if cookie:
+            _info = self.cookie_info(cookie, client_id)
+            if _info.get("uid") == user:
+                res.update(_info)
+        return res
+
 
 def create_signed_jwt(issuer, keyjar, sign_alg="RS256", **kwargs):
     signer = JWT(keyjar, iss=issuer, sign_alg=sign_alg)
@@ -226,9 +238,7 @@ class BasicAuthn(UserAuthnMethod):
         (user, pwd) = base64.b64decode(authorization).split(b":")
         user = unquote(user.decode())
         self.verify_password(user, pwd.decode())
-        res = {"uid": user}
-        if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+        res = self.session_info(user, cookie, client_id)
         return res, utc_time_sans_frac()
 
 
@@ -259,9 +269,7 @@ class SymKeyAuthn(UserAuthnMethod):
         except (AssertionError, KeyError):  # pragma: no-cover
             raise FailedAuthentication("Decryption failed")
 
-        res = {"uid": user}
-        if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+        res = self.session_info(user, cookie, client_id)
 
         return res, utc_time_sans_frac()
 
@@ -285,9 +293,7 @@ class NoAuthn(UserAuthnMethod):
         if self.fail:  # pragma: no-cover
             raise self.fail()
 
-        res = {"uid": self.user}
-        if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+        res = self.session_info(self.user, cookie, client_id)
 
         return res, utc_time_sans_frac()
 
-- 
2.43.0


From 79e9f5bd1db955f249704e95a39319f767ebbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 36/58] fix: session info can hold both a grant and its
 authentication event

A Grant is not subscriptable.
---
 src/oidcop/session/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index cdd1920..d47c49a 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -458,7 +458,7 @@ class SessionManager(Database):
 
         if authentication_event:
             if grant:
-                res["authentication_event"] = res["grant"]["authentication_event"]
+                res["authentication_event"] = res["grant"].authentication_event
             else:
                 _grant = self.get([_user_id, _client_id, _grant_id])
                 res["authentication_event"] = _grant.authentication_event
-- 
2.43.0


From 037a94d88e0e2b8e8f10e3624abe220cbdf31d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:36 +0000
Subject: [PATCH 37/58] fix: a grant that is added is listed once

Storing the grant already makes it a subordinate of the client session.
---
 src/oidcop/session/manager.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index d47c49a..ec3cd93 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -526,9 +526,6 @@ class SessionManager(Database):
         args = {k: v for k, v in kwargs.items() if k in Grant.parameter}
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
-        _client_session_info = self.get([user_id, client_id])
-        _client_session_info.subordinate.append(_grant.id)
-        self.set([user_id, client_id], _client_session_info)
         return _grant
 
     def remove_session(self, session_id: str):
-- 
2.43.0


From eb0ba7b5d2f9a55a0afc040d082af12f52346c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 38/58] fix: the token response's cookie does not carry the
 unsealed session key

---
 src/oidcop/oauth2/token.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..3880305 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -476,11 +476,6 @@ class Token(Endpoint):
         _cookie = _context.new_cookie(
             name=_context.cookie_handler.name["session"],
             sub=_session_info["grant"].sub,
-            sid=_context.session_manager.session_key(
-                _session_info["user_id"],
-                _session_info["client_id"],
-                _session_info["grant"].id,
-            ),
         )
 
         _headers = [("Content-type", "application/json")]
-- 
2.43.0


From 4ed75e590d3234e844ba7082eae95cfef3fa66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 39/58] fix: an unknown or expired code or refresh token is an
 error response

---
 src/oidcop/oauth2/token.py     | 7 ++++---
 src/oidcop/oidc/add_on/pkce.py | 4 +++-
 src/oidcop/oidc/token.py       | 7 ++++---
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 3880305..70ae091 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -14,12 +14,13 @@ from oidcop import sanitize
 from oidcop.constant import DEFAULT_TOKEN_LIFETIME
 from oidcop.endpoint import Endpoint
 from oidcop.exception import ProcessError
+from oidcop.exception import ToOld
 from oidcop.session.grant import AuthorizationCode
 from oidcop.session.grant import Grant
 from oidcop.session.grant import RefreshToken
 from oidcop.session.token import MintingNotAllowed
 from oidcop.session.token import SessionToken
-from oidcop.token.exception import UnknownToken
+from oidcop.token.exception import TokenException
 from oidcop.util import importer
 
 logger = logging.getLogger(__name__)
@@ -205,7 +206,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, UnknownToken):
+        except (KeyError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -332,7 +333,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except KeyError:
+        except (KeyError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index 3e7fa05..11e836b 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -9,6 +9,8 @@ from oidcmsg.oauth2 import TokenExchangeRequest
 from oidcmsg.oidc import TokenErrorResponse
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
+from oidcop.token.exception import TokenException
 
 LOGGER = logging.getLogger(__name__)
 
@@ -101,7 +103,7 @@ def post_token_parse(request, client_id, endpoint_context, **kwargs):
         _session_info = endpoint_context.session_manager.get_session_info_by_token(
             request["code"], grant=True
         )
-    except KeyError:
+    except (KeyError, ToOld, TokenException):
         return TokenErrorResponse(error="invalid_grant", error_description="Unknown access grant")
 
     _authn_req = _session_info["grant"].authorization_request
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 337588b..71ced3e 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -12,11 +12,12 @@ from oidcmsg.oidc import TokenErrorResponse
 
 from oidcop import oauth2
 from oidcop import sanitize
+from oidcop.exception import ToOld
 from oidcop.oauth2.token import TokenEndpointHelper
 from oidcop.session.grant import AuthorizationCode
 from oidcop.session.grant import RefreshToken
 from oidcop.session.token import MintingNotAllowed
-from oidcop.token.exception import UnknownToken
+from oidcop.token.exception import TokenException
 
 logger = logging.getLogger(__name__)
 
@@ -172,7 +173,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, UnknownToken):
+        except (KeyError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -326,7 +327,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except KeyError:
+        except (KeyError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
-- 
2.43.0


From 067b1101c038345ff261bd384caf8e998d02098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 40/58] fix: an opaque token is dead when the lifetime sealed
 in it is over

---
 src/oidcop/token/__init__.py | 43 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/oidcop/token/__init__.py b/src/oidcop/token/__init__.py
index b1de26f..94aa022 100755
--- a/src/oidcop/token/__init__.py
+++ b/src/oidcop/token/__init__.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop import rndstr
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 from oidcop.util import Crypt
@@ -82,11 +83,16 @@ class DefaultToken(Token):
         self.token_type = token_type
 
     def __call__(
-        self, session_id: Optional[str] = "", token_class: Optional[str] = "", **payload
+        self,
+        session_id: Optional[str] = "",
+        token_class: Optional[str] = "",
+        usage_rules: Optional[dict] = None,
+        **payload
     ) -> str:
         """
         Return a token.
 
+        :param usage_rules: Rules for the token, they may tell how long it lives
         :param payload: Token information
         :return:
         """
@@ -95,8 +101,12 @@ class DefaultToken(Token):
         else:
             token_class = "authorization_code"
 
-        if self.lifetime >= 0:
-            exp = str(utc_time_sans_frac() + self.lifetime)
+        lifetime = self.lifetime
+        if usage_rules and usage_rules.get("expires_in"):
+            lifetime = int(usage_rules["expires_in"])
+
+        if lifetime >= 0:
+            exp = str(utc_time_sans_frac() + lifetime)
         else:
             exp = "-1"  # Live for ever
 
@@ -117,6 +127,12 @@ class DefaultToken(Token):
         # order: rnd, type, sid
         return lv_unpack(plain)
 
+    def _content(self, token: str) -> dict:
+        _res = dict(zip(["_id", "token_class", "sid", "exp"], self.split_token(token)))
+        if _res["token_class"] not in [self.token_class, self.alt_token_name]:
+            raise WrongTokenClass(_res["token_class"])
+        return _res
+
     def info(self, token: str) -> dict:
         """
         Return token information.
@@ -124,18 +140,13 @@ class DefaultToken(Token):
         :param token: A token
         :return: dictionary with info about the token
         """
-        _res = dict(zip(["_id", "token_class", "sid", "exp"], self.split_token(token)))
-        if _res["token_class"] not in [self.token_class, self.alt_token_name]:
-            raise WrongTokenClass(_res["token_class"])
-        else:
-            _res["token_class"] = self.token_class
-            _res["handler"] = self
-            return _res
+        _res = self._content(token)
+        if is_expired(int(_res["exp"])):
+            raise ToOld("Token has expired")
+
+        _res["token_class"] = self.token_class
+        _res["handler"] = self
+        return _res
 
     def is_expired(self, token: str, when: int = 0):
-        _exp = self.info(token)["exp"]
-        if _exp == "-1":
-            return False
-        else:
-            exp = int(_exp)
-        return is_expired(exp, when)
+        return is_expired(int(self._content(token)["exp"]), when)
-- 
2.43.0


From 992f11852cf0f10eb64475490aa82c8df542a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 41/58] fix: only what the provider itself signed is one of its
 tokens

---
 src/oidcop/token/id_token.py  | 3 +++
 src/oidcop/token/jwt_token.py | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index d2a282a..b96fdb0 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -328,6 +328,9 @@ class IDToken(Token):
         except JWSException:
             raise UnknownToken()
 
+        if _payload.get("iss") != _context.issuer:
+            raise UnknownToken()
+
         logger.debug(f"Received ID Token payload: {_payload}")
 
         if is_expired(_payload["exp"]):
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index d865349..3c10140 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -3,6 +3,7 @@ from typing import Optional
 
 from cryptojwt import JWT
 from cryptojwt.jws.exception import JWSException
+from cryptojwt.jws.jws import factory
 
 from oidcop.exception import ToOld
 from oidcop.token import Crypt
@@ -87,12 +88,19 @@ class JWTToken(Token):
 
     def get_payload(self, token):
         _context = self.server_get("endpoint_context")
+        # Only what this provider signed is a token
+        if not factory(token):
+            raise UnknownToken()
+
         verifier = JWT(key_jar=_context.keyjar, allowed_sign_algs=[self.alg])
         try:
             _payload = verifier.unpack(token)
         except JWSException:
             raise UnknownToken()
 
+        if _payload.get("iss") != self.issuer:
+            raise UnknownToken()
+
         return _payload
 
     def info(self, token):
-- 
2.43.0


From ad7e2794016fd3ee94bacf91fb55dc72a0475090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:35 +0000
Subject: [PATCH 42/58] fix: minting a token stores the grant where the session
 is kept

---
 src/oidcop/oauth2/authorization.py | 3 +--
 src/oidcop/oauth2/token.py         | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4956868..8f39c7b 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -349,8 +349,7 @@ class Authorization(Endpoint):
         if _exp_in:
             token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        self.server_get("endpoint_context").session_manager[session_id] = grant
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 70ae091..7c95ed2 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -92,7 +92,7 @@ class TokenEndpointHelper(object):
             if _exp_in:
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _mngr[session_id] = grant
 
         return token
 
-- 
2.43.0


From 0a585e6cc2bad421ad98101f0262d9418dc8d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:35 +0000
Subject: [PATCH 43/58] fix: a negative expires_in means that the token does
 not expire

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 2 +-
 src/oidcop/token/jwt_token.py      | 9 ++++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8f39c7b..74cb466 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -346,7 +346,7 @@ class Authorization(Endpoint):
         _exp_in = usage_rules.get("expires_in")
         if isinstance(_exp_in, str):
             _exp_in = int(_exp_in)
-        if _exp_in:
+        if _exp_in and _exp_in > 0:  # negative means it lives for ever
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         self.server_get("endpoint_context").session_manager[session_id] = grant
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 7c95ed2..2df98c0 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -89,7 +89,7 @@ class TokenEndpointHelper(object):
             if isinstance(_exp_in, str):
                 _exp_in = int(_exp_in)
 
-            if _exp_in:
+            if _exp_in > 0:  # negative means it lives for ever
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr[session_id] = grant
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index 3c10140..ae12dde 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -77,6 +77,8 @@ class JWTToken(Token):
             lifetime = usage_rules.get("expires_in")
         else:
             lifetime = self.lifetime
+        if lifetime is None or lifetime < 0:  # lives for ever
+            lifetime = 0
         signer = JWT(
             key_jar=_context.keyjar,
             iss=self.issuer,
@@ -121,13 +123,14 @@ class JWTToken(Token):
         else:
             _payload["token_class"] = self.token_class
 
-        if is_expired(_payload["exp"]):
+        _exp = _payload.get("exp", -1)
+        if is_expired(_exp):
             raise ToOld("Token has expired")
         # All the token metadata
         _res = {
             "sid": _payload["sid"],
             "token_class": _payload["token_class"],
-            "exp": _payload["exp"],
+            "exp": _exp,
             "handler": self,
         }
         return _res
@@ -141,7 +144,7 @@ class JWTToken(Token):
         :return: True/False
         """
         _payload = self.get_payload(token)
-        return is_expired(_payload["exp"], when)
+        return is_expired(_payload.get("exp", -1), when)
 
     def gather_args(self, sid, sdb, udb):
         # sdb[sid]
-- 
2.43.0


From 2862ed75f4eade9eb65556e020bb5e25c2ad6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 44/58] fix: the subject identifier is of the type and sector
 the client is registered for

---
 src/oidcop/oauth2/authorization.py | 23 +++++++++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 74cb466..8f4b58c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -40,6 +40,7 @@ from oidcop.exception import UnknownClient
 from oidcop.session import Revoked
 from oidcop.token.exception import UnknownToken
 from oidcop.user_authn.authn_context import pick_auth
+from oidcop.util import sector_id_from_redirect_uris
 from oidcop.util import split_uri
 
 logger = logging.getLogger(__name__)
@@ -526,8 +527,29 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self._subject_args(request["client_id"]),
         )
 
+    def _subject_args(self, client_id):
+        """
+        The kind of subject identifier the client has registered for and its sector.
+        """
+        _cinfo = self.server_get("endpoint_context").cdb.get(client_id) or {}
+        _sector = _cinfo.get("sector_id")
+        if not _sector:
+            _uris = _cinfo.get("redirect_uris") or []
+            try:
+                _sector = sector_id_from_redirect_uris(
+                    [u if isinstance(u, str) else u[0] for u in _uris]
+                )
+            except ValueError:  # More than one host, a sector of its own then
+                _sector = client_id
+
+        return {
+            "sub_type": _cinfo.get("subject_type") or "public",
+            "sector_identifier": _sector,
+        }
+
     def _login_required_error(self, redirect_uri, request):
         _res = {
             "error": "login_required",
@@ -666,6 +688,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            **self._subject_args(request["client_id"]),
                         )
 
         if _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index ec3cd93..26cb8db 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -168,6 +168,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
 
@@ -178,9 +179,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: The sector of the client, for pairwise subject identifiers
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if sector_identifier is None:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         # A plain dictionary, such that it can be dumped
         _claims = auth_req.get("claims", {})
@@ -211,6 +214,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = None,
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -223,6 +227,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: The sector of the client, for pairwise subject identifiers
         :return: Session key
         """
 
@@ -249,6 +254,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 3367065d70360b5a498b316c2aab53e99351a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 45/58] fix: the usage rules of the client apply to a grant
 made by single sign-on too

---
 src/oidcop/oauth2/authorization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8f4b58c..1cec1aa 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -688,6 +688,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            token_usage_rules=_context.authz.usage_rules(request["client_id"]),
                             **self._subject_args(request["client_id"]),
                         )
 
-- 
2.43.0


From 59f2519585c1cb5ef0e64b2b945868e3cafe5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 46/58] fix: the token of a login page must be one the OP made

The key jar also holds keys of clients. A token signed by a client, or by
anyone knowing its secret, could set the authorization request and the
authentication class of a login.
---
 src/oidcop/user_authn/user.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9123766..a0a729a 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -84,7 +84,12 @@ class UserAuthnMethod(object):
         raise NotImplementedError
 
     def unpack_token(self, token):
-        return verify_signed_jwt(token=token, keyjar=self.server_get("endpoint_context").keyjar)
+        _context = self.server_get("endpoint_context")
+        _info = verify_signed_jwt(token=token, keyjar=_context.keyjar)
+        # The keyjar also holds the keys of the clients
+        if _info.get("iss") != _context.issuer:
+            raise FailedAuthentication("Not a token from this OP")
+        return _info
 
     def done(self, areq):
         """
-- 
2.43.0


From 9cfb0a2f0c061b92a781d027c933b80b8f7397e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:37 +0000
Subject: [PATCH 47/58] fix: a cookie that names no session is no
 authentication

Instead of breaking the authorization endpoint for that browser, for
instance after a restart with a new session database.
---
 src/oidcop/oauth2/authorization.py |  4 ++--
 src/oidcop/user_authn/user.py      | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 1cec1aa..4c089be 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -630,8 +630,8 @@ class Authorization(Endpoint):
                 if _sid:
                     try:
                         _csi = _context.session_manager[_sid]
-                    except Revoked:
-                        logger.debug("Authentication session revoked!!")
+                    except (KeyError, Revoked):
+                        logger.debug("Authentication session gone or revoked!!")
                         identity = None
                     else:
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index a0a729a..3c35f08 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -112,9 +112,13 @@ class UserAuthnMethod(object):
             pass
         else:
             for val in cookie:
-                _info = json.loads(val["value"])
-                _info["timestamp"] = int(val["timestamp"])
-                session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                try:
+                    _info = json.loads(val["value"])
+                    _info["timestamp"] = int(val["timestamp"])
+                    session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                except (KeyError, ValueError):
+                    logger.info("cookie_info: a cookie that does not name a session")
+                    continue
                 logger.debug("cookie_info: session id={}".format(session_id))
                 # _, cid, _ = _context.session_manager.decrypt_session_id(_info["sid"])
                 if session_id[1] != client_id:
-- 
2.43.0


From b5f379571fb2c32a944773c434752ab3c4c4bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 48/58] fix: a token no handler can read is an unknown token

---
 src/oidcop/token/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..824f03c 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -71,7 +71,7 @@ class TokenHandler(ImpExp):
         for typ in order:
             try:
                 res = self.handler[typ].info(token)
-            except (KeyError, TokenException, Invalid, AttributeError):
+            except (LookupError, TypeError, ValueError, TokenException, Invalid, AttributeError):
                 pass
             else:
                 return self.handler[typ], res
-- 
2.43.0


From 30c6aa38ae8883c339e60879f77eb812c44da026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 49/58] fix: a code or refresh token of a session that cannot
 be read is an error response

---
 src/oidcop/oauth2/token.py     | 4 ++--
 src/oidcop/oidc/add_on/pkce.py | 2 +-
 src/oidcop/oidc/token.py       | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index 2df98c0..80cb404 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -206,7 +206,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, ToOld, TokenException):
+        except (KeyError, ValueError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -333,7 +333,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except (KeyError, ToOld, TokenException):
+        except (KeyError, ValueError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
diff --git a/src/oidcop/oidc/add_on/pkce.py b/src/oidcop/oidc/add_on/pkce.py
index 11e836b..f05517f 100644
--- a/src/oidcop/oidc/add_on/pkce.py
+++ b/src/oidcop/oidc/add_on/pkce.py
@@ -103,7 +103,7 @@ def post_token_parse(request, client_id, endpoint_context, **kwargs):
         _session_info = endpoint_context.session_manager.get_session_info_by_token(
             request["code"], grant=True
         )
-    except (KeyError, ToOld, TokenException):
+    except (KeyError, ValueError, ToOld, TokenException):
         return TokenErrorResponse(error="invalid_grant", error_description="Unknown access grant")
 
     _authn_req = _session_info["grant"].authorization_request
diff --git a/src/oidcop/oidc/token.py b/src/oidcop/oidc/token.py
index 71ced3e..d3639c8 100755
--- a/src/oidcop/oidc/token.py
+++ b/src/oidcop/oidc/token.py
@@ -173,7 +173,7 @@ class AccessTokenHelper(TokenEndpointHelper):
         _mngr = self.endpoint.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["code"], grant=True)
-        except (KeyError, ToOld, TokenException):
+        except (KeyError, ValueError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant", error_description="Unknown code")
 
@@ -327,7 +327,7 @@ class RefreshTokenHelper(TokenEndpointHelper):
         _mngr = _context.session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["refresh_token"], grant=True)
-        except (KeyError, ToOld, TokenException):
+        except (KeyError, ValueError, ToOld, TokenException):
             logger.error("Access Code invalid")
             return self.error_cls(error="invalid_grant")
 
-- 
2.43.0


From e9927dd5271a93cb611cf1fedccc1eab6e5ed687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:02 +0000
Subject: [PATCH 50/58] fix: a token of the wrong kind at the userinfo endpoint
 is an error response

---
 src/oidcop/oidc/userinfo.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 516c220..d785556 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -13,7 +13,8 @@ from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
 
 from oidcop.endpoint import Endpoint
-from oidcop.token.exception import UnknownToken
+from oidcop.exception import ToOld
+from oidcop.token.exception import TokenException
 from oidcop.util import OAUTH2_NOCACHE_HEADERS
 
 logger = logging.getLogger(__name__)
@@ -112,7 +113,7 @@ class UserInfo(Endpoint):
         _mngr = self.server_get("endpoint_context").session_manager
         try:
             _session_info = _mngr.get_session_info_by_token(request["access_token"], grant=True)
-        except (KeyError, ValueError):
+        except (KeyError, ValueError, ToOld, TokenException):
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         _grant = _session_info["grant"]
@@ -176,8 +177,10 @@ class UserInfo(Endpoint):
         # Verify that the client is allowed to do this
         try:
             auth_info = self.client_authentication(request, http_info, **kwargs)
-        except (ValueError, UnknownToken) as e:
-            return self.error_cls(error="invalid_token", error_description=e.args[0])
+        except (ValueError, TokenException) as e:
+            return self.error_cls(
+                error="invalid_token", error_description=str(e) or "Invalid Token"
+            )
 
         if isinstance(auth_info, ResponseMessage):
             return auth_info
-- 
2.43.0


From 25de430b83b40821042d6f653d8e989d9cf37e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 51/58] fix: a redirect URI must not be a script

A native client could register javascript:... as a custom scheme, and the form
of response_mode form_post then ran it on a page of the OP.
---
 src/oidcop/oidc/registration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 1be9f2a..f7e3b93 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -305,6 +305,10 @@ class Registration(Endpoint):
             if p.fragment:
                 raise InvalidRedirectURIError("redirect_uri contains fragment")
 
+            # A browser would run these on a page of the OP (response_mode form_post)
+            if p.scheme in ["javascript", "data", "vbscript"]:
+                raise InvalidRedirectURIError("redirect_uri must not be a script")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
-- 
2.43.0


From 3b753e902adf6b911aa5b52949472f481c127ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 52/58] fix: a frontchannel_logout_uri must be a HTTP URL

A client could register javascript:... which the IFrame on the logout page then
ran on a page of the OP.
---
 src/oidcop/oidc/registration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index f7e3b93..635f260 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -214,6 +214,14 @@ class Registration(Endpoint):
             except InvalidRedirectURIError as e:
                 return self.error_cls(error="invalid_redirect_uri", error_description=str(e))
 
+        # Is used as the source of an IFrame on the logout page of the OP
+        if "frontchannel_logout_uri" in request:
+            if urlparse(request["frontchannel_logout_uri"]).scheme not in ["http", "https"]:
+                return self.error_cls(
+                    error="invalid_configuration_parameter",
+                    error_description="frontchannel_logout_uri is not a HTTP URL",
+                )
+
         if "request_uris" in request:
             _uris = []
             for uri in request["request_uris"]:
-- 
2.43.0


From 5bcb1ba27eeefce90c2ffa71a633906802295e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 53/58] fix: escape the text of an exception on the error page

---
 src/oidcop/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 4c089be..7e92c0e 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1067,7 +1067,7 @@ class Authorization(Endpoint):
             }
         except Exception as err:
             logger.exception(err)
-            return {"http_response": "Internal error: {}".format(err)}
+            return {"http_response": "Internal error: {}".format(html.escape(str(err)))}
 
 
 class AllowedAlgorithms:
-- 
2.43.0


From e419c5ebe55ea3f4a42dd7d8c84eff5ff55e7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:39 +0000
Subject: [PATCH 54/58] fix: a client that has been removed does not stop users
 from logging out

Logging out of all clients, or of a client that is not registered any more, ended in a KeyError with all the sessions still valid.
---
 src/oidcop/oidc/session.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index ee309ff..c6d5466 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -170,8 +170,10 @@ class Session(Endpoint):
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
             _rel_sid.append(_mngr.encrypted_session_id(_user_id, _client_id))
+            # The client may have been removed, that must not stop the logout
+            _cinfo = _cdb.get(_client_id) or {}
             # I prefer back-channel. Should it be configurable ?
-            if "backchannel_logout_uri" in _cdb[_client_id]:
+            if "backchannel_logout_uri" in _cinfo:
                 _cli = _mngr.get([_user_id, _client_id])
                 for gid in _cli.subordinate:
                     grant = _mngr.get([_user_id, _client_id, gid])
@@ -181,12 +183,12 @@ class Session(Endpoint):
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
                         _spec = self.do_back_channel_logout(
-                            _cdb[_client_id], idt.session_id, _client_id
+                            _cinfo, idt.session_id, _client_id
                         )
                         if _spec:
                             bc_logouts[_client_id] = _spec
                         break
-            elif "frontchannel_logout_uri" in _cdb[_client_id]:
+            elif "frontchannel_logout_uri" in _cinfo:
                 _cli = _mngr.get([_user_id, _client_id])
                 for gid in _cli.subordinate:
                     grant = _mngr.get([_user_id, _client_id, gid])
@@ -197,7 +199,7 @@ class Session(Endpoint):
                     if idt:
                         # Construct an IFrame
                         _spec = do_front_channel_logout_iframe(
-                            _cdb[_client_id], _iss, idt.session_id
+                            _cinfo, _iss, idt.session_id
                         )
                         if _spec:
                             fc_iframes[_client_id] = _spec
@@ -232,14 +234,16 @@ class Session(Endpoint):
         _session_information = _context.session_manager.get_session_info(sid, grant=True)
         _client_id = _session_information["client_id"]
 
+        _cinfo = _cdb.get(_client_id) or {}
+
         res = {}
-        if "backchannel_logout_uri" in _cdb[_client_id]:
-            _spec = self.do_back_channel_logout(_cdb[_client_id], sid, _client_id)
+        if "backchannel_logout_uri" in _cinfo:
+            _spec = self.do_back_channel_logout(_cinfo, sid, _client_id)
             if _spec:
                 res["blu"] = {_client_id: _spec}
-        elif "frontchannel_logout_uri" in _cdb[_client_id]:
+        elif "frontchannel_logout_uri" in _cinfo:
             # Construct an IFrame
-            _spec = do_front_channel_logout_iframe(_cdb[_client_id], _context.issuer, sid)
+            _spec = do_front_channel_logout_iframe(_cinfo, _context.issuer, sid)
             if _spec:
                 res["flu"] = {_client_id: _spec}
 
-- 
2.43.0


From c15d881589abde96e3e1b40a3e41a42976f7f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:22 +0000
Subject: [PATCH 55/58] fix: form_post responses name the issuer and the client

The parameters that protect against mix-up were added when the form already was made.
---
 src/oidcop/oauth2/authorization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7e92c0e..63d6d28 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -918,6 +918,11 @@ class Authorization(Endpoint):
         # 'form_post'.
 
         if "response_mode" in request:
+            # Mix-Up mitigation, nothing can be added to a form once it has been made
+            if request["response_mode"] == "form_post":
+                response_info["response_args"]["iss"] = _context.issuer
+                response_info["response_args"]["client_id"] = client_id
+
             try:
                 response_info = self.response_mode(request, **response_info)
             except InvalidRequest as err:
-- 
2.43.0


From 991232835498a8f3e4556f889ee1ad2488fd1fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:23 +0000
Subject: [PATCH 56/58] fix: errors met after the authentication are answered
 also without response_mode

A request that does not name a response mode made the error handling fail with a KeyError.
---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 63d6d28..5eb4eff 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -763,7 +763,8 @@ class Authorization(Endpoint):
         response_info = self.error_response(response_info, request, error, error_description)
         if "return_uri" not in response_info:
             response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
+        if "response_mode" in request:
+            response_info = self.response_mode(request, **response_info)
         return response_info
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
-- 
2.43.0


From 3dfed5728764613e46e5d06901ce129e45cb7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:33 +0000
Subject: [PATCH 57/58] fix: user information is encrypted for a client that
 registered only the algorithm

userinfo_encrypted_response_enc has a default (A128CBC-HS256) once
userinfo_encrypted_response_alg is registered; a client from the
configuration with only the latter got its user information in plain.
---
 src/oidcop/oidc/userinfo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index d785556..8fc381d 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -77,8 +77,9 @@ class UserInfo(Endpoint):
             sign = False
 
         try:
-            enc_enc = _cinfo["userinfo_encrypted_response_enc"]
             enc_alg = _cinfo["userinfo_encrypted_response_alg"]
+            # Default according to OpenID Connect Dynamic Client Registration
+            enc_enc = _cinfo.get("userinfo_encrypted_response_enc", "A128CBC-HS256")
             encrypt = True
         except KeyError:
             encrypt = False
-- 
2.43.0


From 139288e0d3ce4916956b5b557cf50b0dcf17f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:27 +0000
Subject: [PATCH 58/58] fix: an error answered in the response mode of the
 request is sent to the redirect URI

Errors met before the authentication were, when the request had response_mode
query or fragment, addressed to nowhere and told the client the URI instead.
---
 src/oidcop/oauth2/authorization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 5eb4eff..7daf668 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -748,6 +748,14 @@ class Authorization(Endpoint):
             raise InvalidRequest("Unknown response_mode")
 
         if resp_mode in ["fragment", "query"]:
+            if response_args and "error" in response_args and not return_uri:
+                # The error itself says where it should be sent
+                return_uri = response_args["return_uri"]
+                response_args = {
+                    k: v
+                    for k, v in response_args.items()
+                    if k not in ["return_uri", "return_type"]
+                }
             kwargs.update({"response_args": response_args, "return_uri": return_uri})
 
         return kwargs
-- 
2.43.0

