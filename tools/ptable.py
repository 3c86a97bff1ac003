TECH = "path-sensitive interprocedural dataflow/typestate analysis over the syntax tree (custom checker)"
NOTE = (
    "Static: every path class of the entry points is analysed on the current source with callees "
    "in context. Trusts the checker, and oidcmsg/cryptojwt as uninterpreted libraries; loops over "
    "unknown collections stand for generic elements; dynamic configuration is not resolved."
)
GEN = "The tests run a handful of concrete flows; "
P = []


def p(id, title, statement, over, for_, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=GEN + why,
                  files=["src/oidcop/" + f for f in files], mech=mech, **{"for": for_}, **kw))


p("C01", "An authorization code yields tokens at most once",
  "A token response is issued for an authorization code only if the presented value is an authorization code that is "
  "unexpired, unrevoked and was not redeemed before. Every response issued for a code consumes that code, whatever the "
  "other request parameters, in the OAuth2 and in the OpenID Connect token endpoint alike.",
  ["inputs", "histories"], "all token requests with grant_type authorization_code, in every order",
  "whether every return path registers the redemption and every acceptance looks at it is a question over all request shapes and orders.",
  ["oauth2/token.py", "oidc/token.py", "session/token.py", "session/grant.py"],
  [("activity check before acceptance", "post_parse_request of both AccessTokenHelper classes"),
   ("usage registration on every success path", "process_request of both AccessTokenHelper classes"),
   ("usage limit of one", "session/token.py AuthorizationCode.set_defaults / Item.is_active")])
p("C02", "Replaying a redeemed code at the OIDC token endpoint revokes what it bought",
  "When an authorization code that was already redeemed is presented again at the OpenID Connect token endpoint, the request "
  "is refused and every token minted from it, directly or through other tokens, is revoked. Revocation is permanent: "
  "nothing makes a revoked token or grant active again.",
  ["histories"], "all histories of redemption, refresh and replay",
  "the cascade must reach every descendant for every minting history; a test follows one.",
  ["oidc/token.py", "session/grant.py", "session/token.py"],
  [("replay branch", "oidc/token.py AccessTokenHelper.post_parse_request"), ("recursive revocation", "session/grant.py Grant.revoke_token")])
p("C03", "Codes and refresh tokens work only for the client they were issued to",
  "No token is minted for a code or refresh token unless the client of the session it belongs to equals the requesting client, "
  "and the requesting client is the one established by client authentication, whatever client_id the request itself carries. "
  "A token request that was refused while being parsed is never processed.",
  ["inputs"], "all token requests by all clients",
  "the binding must dominate every minting and success path for any combination of parameters.",
  ["oauth2/token.py", "oidc/token.py", "endpoint.py"],
  [("owner comparison", "process_request of the four token helpers"), ("authenticated identity", "endpoint.py Endpoint.parse_request")])
p("C04", "The redirect_uri of the authorization request is repeated at redemption",
  "If the authorization request named a redirect_uri, tokens are issued for its code only when the token request repeats exactly "
  "the same redirect_uri; leaving it out or changing it yields no token.",
  ["inputs"], "all code redemption requests",
  "absence, presence and mismatch must be handled on every path that mints.",
  ["oauth2/token.py", "oidc/token.py"],
  [("redirect_uri comparison", "process_request of both AccessTokenHelper classes")])
p("C06", "A refresh never widens scope and needs an active refresh token",
  "A refresh request is honoured only for an active refresh token, and a scope it names is accepted only if every value in it "
  "was granted before. Tokens minted on refresh come from the presented refresh token and carry the checked requested scope or "
  "the scope already granted.",
  ["inputs", "histories"], "all refresh requests, all scope lists, all refresh chains",
  "the subset test must hold for each value of any requested list and any chain of refreshes.",
  ["oauth2/token.py", "oidc/token.py", "session/grant.py"],
  [("scope subset check", "post_parse_request of both RefreshTokenHelper classes"), ("scope inheritance", "session/grant.py Grant.find_scope, Grant.mint_token")])
p("C07", "Tokens are minted only as the minting policy allows",
  "A token is minted from another token only while the grant and that token are active and only if that token's usage rules "
  "name the minted class; a token without such a rule mints nothing. Every minted token records its origin and is recorded in its grant, "
  "and by default access tokens mint nothing.",
  ["inputs", "histories"], "all token classes, origins and usage rules",
  "the policy must dominate every construction of a token.",
  ["session/grant.py", "session/token.py"],
  [("minting guard", "session/grant.py Grant.mint_token"), ("policy lookup", "session/token.py SessionToken.supports_minting"), ("defaults", "session/grant.py DEFAULT_USAGE")])
p("C08", "A token is recognised only as what the provider made it, while it lives",
  "A value is taken for a token of a class only if it was sealed or signed by the provider itself with the key or algorithm of that class' handler, names that class and has not outlived the lifetime put into it; "
  "anything else is unknown. Every token made holds its session, class and end of life, which no claim can replace, and the session of a token is the one its handler reads from it.",
  ["inputs"], "all presented values, genuine, foreign or forged, of all classes",
  "forgeries, tokens of another class and foreign signers are an open set of inputs.",
  ["token/__init__.py", "token/jwt_token.py", "token/id_token.py", "token/handler.py", "session/manager.py"],
  [("opaque tokens", "token/__init__.py DefaultToken.__call__, info"), ("signed tokens", "token/jwt_token.py JWTToken.__call__, info; token/id_token.py IDToken.info"),
   ("lookup", "token/handler.py TokenHandler.get_handler, info"), ("keys", "token/handler.py factory")])
p("C37", "Refresh token use is registered and rotation follows configuration",
  "Every refresh response registers the use of the presented refresh token. That token is revoked when issuing the response exactly "
  "when the client's revoke-on-issue setting says so or, if the client has none, when the endpoint's does; a revoked refresh token is "
  "never accepted again.",
  ["inputs", "configurations"], "all refresh requests and all settings of revoke-on-issue",
  "precedence and effect must hold on each response path for each configuration.",
  ["oauth2/token.py", "oidc/token.py", "session/token.py"],
  [("rotation", "process_request of both RefreshTokenHelper classes")])

# ---------------------------------------------------------------- authorization endpoint
p("C05", "PKCE: a bound code is redeemed only with its verifier",
  "With PKCE support enabled, a code whose authorization request carried a code_challenge is accepted only with a code_verifier that, "
  "transformed by the method recorded with that request, equals the challenge. Where PKCE is essential a request without code_challenge is refused; "
  "unsupported methods are refused always.",
  ["inputs"], "all authorization and code redemption requests, all challenge methods",
  "each acceptance path of the two hooks must be guarded whatever else the request holds.",
  ["oidc/add_on/pkce.py"],
  [("verifier check", "oidc/add_on/pkce.py post_token_parse, verify_code_challenge"), ("challenge requirement", "oidc/add_on/pkce.py post_authn_parse")])
p("C13", "Only registered redirect URIs are accepted",
  "An authorization request (front channel or pushed) is accepted only with a redirect URI that, after percent decoding, has no fragment, whose base equals one "
  "registered for that client and whose query holds exactly the registered components (every registered key and value present, no "
  "others, including keys without a value). A missing redirect URI is replaced only by the client's single registered one.",
  ["inputs"], "all requested redirect URIs and all registrations",
  "URI matching quantifies over all URIs; prefixes, extra or missing query parts and fragments must fail on every path.",
  ["oauth2/authorization.py", "oidc/authorization.py", "util.py"],
  [("matching", "oauth2/authorization.py verify_uri, get_uri"), ("gate", "oauth2/authorization.py Authorization._post_parse_request")])
p("C14", "Authorization responses go only to the verified redirect URI with state",
  "Every authorization response, success or error, in any response mode, is addressed to the request's verified redirect URI, never "
  "to another request parameter, and carries the request's state unchanged when there is one. Responses after authentication also name the issuer and the client.",
  ["inputs"], "all authorization requests, outcomes and response modes",
  "each of the many error exits must be addressed properly.",
  ["oauth2/authorization.py", "oidc/authorization.py"],
  [("response assembly", "oauth2/authorization.py post_authentication, authz_part2, process_request, response_mode")])
p("C15", "Only registered response types, and only what they ask for",
  "An authorization request is accepted only when its response type, taken as a set, is one registered for the client (code alone if none is). Codes, access tokens "
  "and ID tokens are minted at the authorization endpoint only when the response type names them, returned under their own names, and a response "
  "type value that produced nothing leads to an error.",
  ["inputs"], "all response types and registrations",
  "subset, superset and order variations of a response type cannot be enumerated by examples.",
  ["oauth2/authorization.py", "oidc/authorization.py"],
  [("registration check", "oauth2/authorization.py Authorization.verify_response_type"), ("artifact minting", "oauth2/authorization.py create_authn_response")])
p("C16", "Nothing is issued without current authentication of the right user",
  "A session identifier, and so any code or token, is handed out at the authorization endpoint only for an authenticated user (the requested one if one is requested), not "
  "when re-authentication is demanded, and reusing an earlier session requires the same client, an active grant and an unexpired authentication event. "
  "prompt=none never leads to a login page and refused requests are never processed.",
  ["inputs", "histories"], "all authorization requests, cookies and earlier sessions",
  "the gate must dominate every minting path for every combination of cookie, prompt, hint and session state.",
  ["oauth2/authorization.py", "oidc/authorization.py", "authn_event.py"],
  [("gate", "oauth2/authorization.py Authorization.setup_auth, process_request"), ("event validity", "authn_event.py AuthnEvent.is_valid")])
p("C21", "A pushed authorization request is one-time, client bound and short-lived",
  "A request_uri returned by the pushed authorization endpoint is unguessable, and is honoured at most once, only before it expires, and only for the client that pushed it; an "
  "unknown one is refused. No request object can make a request count as another client's than the one it was parsed for.",
  ["inputs", "histories"], "all pushed requests and all later authorization requests",
  "reuse, expiry and client confusion depend on the sequence of requests.",
  ["oauth2/authorization.py", "oauth2/pushed_authorization.py"],
  [("resolution", "oauth2/authorization.py Authorization._do_request_uri"), ("store", "oauth2/pushed_authorization.py PushedAuthorization.process_request")])
p("C22", "Request objects only with permitted algorithms and registered URIs",
  "A request object, passed by value or fetched from a request_uri, is used only if its signing algorithm and, when encrypted, its key and content encryption algorithms are ones "
  "the client registered or, failing that, the OP supports. A client that registered request_uris has no other fetched, and the object's parameters replace those of the request.",
  ["inputs"], "all request objects, headers and registrations",
  "each way to pass an object and each header must be checked with its own column.",
  ["oauth2/authorization.py"],
  [("request object use", "oauth2/authorization.py Authorization._do_request_uri"), ("algorithm policy", "oauth2/authorization.py AllowedAlgorithms")])
p("C39", "Scopes a client may not use are filtered or refused",
  "With deny_unknown_scopes on, an authorization request is processed only if every scope it names is allowed for its client. The scope an authorization response names and the scopes "
  "claims are derived from have been filtered by the client's allowed scopes (its own list, else the scopes it has claims for, else the OP's).",
  ["inputs", "configurations"], "all requested scopes and client settings",
  "filtering must hold for any list of scopes and precedence of settings.",
  ["scopes.py", "oauth2/authorization.py", "session/claims.py"],
  [("filter", "scopes.py Scopes.filter_scopes, scopes_to_claims"), ("policy", "oauth2/authorization.py check_unknown_scopes_policy")])
p("C17", "Endpoints act only for clients they have authenticated",
  "At an endpoint configured with client authentication methods a request passes only if one of those methods is usable for it and verified it, unless 'none' is among them. The "
  "client it is then processed for is the one the method, or the verified access token, established, whatever client_id the request carries; it must be registered and its secret must not have expired. "
  "Every endpoint authenticates before it does anything else with a request.",
  ["inputs", "configurations"], "all requests at all endpoints, for any set of configured methods",
  "that every path into every endpoint is dominated by the gate, for any method mix, is a question over all paths.",
  ["client_authn.py", "endpoint.py", "oidc/userinfo.py", "oidc/session.py"],
  [("verification", "client_authn.py verify_client"), ("gate", "endpoint.py Endpoint.client_authentication, parse_request")])
p("C18", "A client secret or bearer token proves only its own client",
  "client_secret_basic and client_secret_post authenticate exactly the client whose stored, present, secret equals the presented one. A bearer token names no client by itself, whatever else the request "
  "says; the client behind it is the one its session, or its registration, belongs to.",
  ["inputs"], "all credentials, requests and client records",
  "a missing secret, a mixed-up client or an unverified client_id next to a token are inputs tests do not try.",
  ["client_authn.py", "oidc/userinfo.py", "oidc/read_registration.py"],
  [("secret comparison", "client_authn.py ClientSecretBasic.verify, ClientSecretPost.verify"), ("bearer tokens", "client_authn.py BearerHeader, BearerBody; get_client_id_from_token")])
p("C19", "Client assertions are signed, for this OP, and used once",
  "A client assertion, or a request object used as one, authenticates its issuer only if it is signed with a key of that issuer; client_secret_jwt accepts only MACs with the client's secret, "
  "private_key_jwt never a MAC. An assertion must be addressed to the OP or its endpoint, and one with a jti is accepted once.",
  ["inputs", "histories"], "all assertions, algorithms, audiences and replays",
  "the combination of algorithm, key type, audience and earlier use must be decided on every accepting path.",
  ["client_authn.py", "endpoint.py"],
  [("assertion verification", "client_authn.py JWSAuthnMethod.verify, RequestParam.verify"), ("one-time use", "endpoint_context.py jti_db")])

# ---------------------------------------------------------------- claims and tokens' content
p("C09", "Userinfo answers only live access tokens, about their own user",
  "The userinfo endpoint returns user information only for the token that authenticated the request, if that is an active access token found in the session it identifies, the grant is not "
  "revoked and the authentication has not expired. It returns the claims of that session's user permitted by the grant for userinfo, with the grant's subject identifier, for that session's client.",
  ["inputs", "histories"], "all userinfo requests, tokens and session states",
  "which of the many session states a token is in decides, and each check must dominate the release.",
  ["oidc/userinfo.py"],
  [("token and grant checks", "oidc/userinfo.py UserInfo.process_request"), ("token binding", "oidc/userinfo.py UserInfo.parse_request")])
p("C10", "Introspection tells the truth about tokens",
  "Introspection calls a token active only if it is an access or refresh token found in its session, active, in a grant that is not revoked. About any other token, unknown or expired ones included, "
  "it says active=false and nothing else. Client, subject, scope, times and issuer in a positive answer are those of the token's session and cannot be replaced by user information; user claims are limited to "
  "what the grant permits for introspection.",
  ["inputs", "histories"], "all introspected values and session states",
  "tests introspect a few tokens; every state and every user record must be covered.",
  ["oauth2/introspection.py"],
  [("state checks", "oauth2/introspection.py Introspection._introspect, process_request")])
p("C11", "No user claim is released beyond the restriction in force",
  "A user claim is released only if the restriction in force names it, the user has a value for it, and that value satisfies what was asked (any, a value, one of some values); without restriction nothing is. "
  "Restrictions are made only from the release point's configuration, the client's rules for it, scopes the client may use where the release point turns scopes into claims, and the claims parameter for that same point. "
  "Tokens carry claims of the user of their session, which never replace what the token says about itself.",
  ["inputs", "configurations"], "all users, claims requests, scopes and release configurations",
  "leakage through a combination of sources is not visible in the few combinations tests use.",
  ["session/claims.py", "scopes.py", "session/grant.py"],
  [("filter", "session/claims.py get_user_claims, claims_match"), ("restriction assembly", "session/claims.py get_claims_from_request, _client_claims"),
   ("token payload", "session/grant.py Grant.payload_arguments")])
p("C12", "ID Tokens say what the session says and bind code, token and nonce",
  "An ID Token carries the subject of its grant, the time and acr of its authentication and the nonce of its authorization request (and no other), and is signed by the OP for the session's client. User information cannot set "
  "iss, sub, aud, exp, acr, nonce or auth_time. An ID Token returned with a code or access token from the authorization endpoint carries c_hash or at_hash of exactly that one.",
  ["inputs"], "all sessions, user records, response types and extra arguments",
  "hash binding and claim precedence must hold for each combination of response type and user record.",
  ["token/id_token.py", "oauth2/authorization.py"],
  [("payload", "token/id_token.py IDToken.payload"), ("signing", "token/id_token.py IDToken.sign_encrypt, __call__"), ("hash arguments", "oauth2/authorization.py create_authn_response")])
p("C40", "Responses use the algorithms the client registered",
  "ID Tokens are signed, and if the client registered an encryption algorithm encrypted, with the algorithms the client registered, and only in their absence with configured or supported defaults. User information is signed "
  "and encrypted as the client registered, addressed to that client, and returned in plain only if it registered neither.",
  ["inputs", "configurations"], "all client registrations and OP defaults",
  "precedence of registered, configured and default algorithms must hold in all combinations.",
  ["token/id_token.py", "oidc/userinfo.py"],
  [("selection", "token/id_token.py get_sign_and_encrypt_algorithms, IDToken.__call__"), ("userinfo", "oidc/userinfo.py UserInfo.do_response")])

# ---------------------------------------------------------------- cookies and logout
p("C23", "Cookies are believed only if the OP made them",
  "The content of a cookie is believed only after its MAC over content and time has been verified with the OP's key or it was decrypted with the OP's key, and only for the cookie name asked for. "
  "Cookies the OP makes carry that MAC (or are encrypted, with a fresh nonce), show no clear content when encryption is configured, and are secure and httponly unless configured otherwise.",
  ["inputs"], "all received cookies and all contents and key configurations",
  "every parse path and key configuration must be covered, malformed cookies included.",
  ["cookie_handler.py"],
  [("verification", "cookie_handler.py CookieHandler._ver_dec_content, parse_cookie"), ("creation", "cookie_handler.py _sign_enc_payload, make_cookie_content")])
p("C24", "Only the session's own client can log it out, to its own URIs",
  "A logout request concerns only the session named in a verified session cookie. An id_token_hint counts only if issued by this OP for the session's client and subject; a request naming another "
  "client is refused. After logout the browser is sent to the OP itself, or to a post_logout_redirect_uri that came with an accepted hint and is registered for that client; what is confirmed is what was signed by the OP.",
  ["inputs", "histories"], "all logout requests, cookies, hints and registrations",
  "the combinations of cookie, hint, client and redirect must each be refused or bound.",
  ["oidc/session.py"],
  [("request", "oidc/session.py Session.process_request, parse_request"), ("confirmation", "oidc/session.py Session.unpack_signed_jwt, do_verified_logout")])
p("C25", "Logging out ends the sessions and tells every client",
  "Logging out of a client ends that client session with every grant in it, logging out everywhere ends those of all clients of the user, whether or not clients can be told. Clients with a logout URI are told at "
  "the URI they registered, by a logout token from the OP to that client about that session, signed as it registered. The login cookies are emptied and expired.",
  ["histories", "inputs"], "all sessions, client mixes and logout registrations",
  "one forgotten client or branch leaves tokens alive after logout.",
  ["oidc/session.py", "session/manager.py"],
  [("ending", "oidc/session.py logout_from_client, logout_all_clients"), ("notification", "oidc/session.py do_back_channel_logout, do_front_channel_logout_iframe"),
   ("revocation", "session/manager.py revoke_client_session")])

# ---------------------------------------------------------------- registration
p("C26", "Clients register only metadata the OP supports and safe URIs",
  "A registration succeeds only if the request verifies and every algorithm, method, response type, grant type, subject type and acr it names is supported by the OP. Redirect URIs have no fragment; web clients "
  "use https (http only for the code flow), native ones a custom scheme or http to the own host. Logout, request and policy URIs and sector identifiers are stored only after their checks passed.",
  ["inputs"], "all registration requests and OP capabilities",
  "each of the many metadata items and URI forms has its own check, any of which can be lost silently.",
  ["oidc/registration.py"],
  [("capabilities", "oidc/registration.py Registration.match_client_request, match_sp_sep"), ("URIs", "oidc/registration.py verify_redirect_uris, do_client_registration, _verify_sector_identifier")])
p("C27", "Registration issues fresh credentials that requests cannot influence",
  "A registered client gets an identifier no other client has and random secret, salt and registration access token bound to it; the secret expires as configured. A request cannot set those, nor what is for the OP to decide "
  "(allowed scopes, claims, usage rules, PKCE policy ..). What is stored is what the client is told; a refused registration leaves no client and no registration access token behind.",
  ["inputs", "fault_sequences"], "all registration requests, accepted or refused at any point",
  "any extra member of a request and every refusal point must be considered.",
  ["oidc/registration.py"],
  [("credentials", "oidc/registration.py client_registration_setup, add_client_secret, add_registration_api"), ("stored metadata", "oidc/registration.py do_client_registration")])
p("C28", "Registered information is readable only with the client's own token",
  "A registration access token gives access only to the client it was issued to, authentication with it is required unless configured otherwise, and what is returned are registration parameters of that client, no "
  "other stored information.",
  ["inputs"], "all read requests and tokens",
  "each pairing of token and client must be covered.",
  ["oidc/read_registration.py"],
  [("token binding", "oidc/read_registration.py RegistrationRead.get_client_id_from_token"), ("answer", "oidc/read_registration.py RegistrationRead.process_request")])

# ---------------------------------------------------------------- dpop
p("C20", "A DPoP proof counts only when verified, and what it proves is bound",
  "A request is given a proof-of-possession key only from a DPoP proof of type dpop+jwt, signed with a supported algorithm other than none by the key in its own header, for the URL and method of this endpoint; a "
  "proof that does not verify gets an error. Tokens minted for such a request at the OpenID Connect token endpoint are bound to that key (cnf/jkt) and of type DPoP; without a proof nothing is bound.",
  ["inputs"], "all token requests with, without and with malformed proofs",
  "header, payload and signature can disagree in any combination.",
  ["oidc/add_on/dpop.py", "oidc/token.py", "session/grant.py"],
  [("verification", "oidc/add_on/dpop.py DPoPProof.verify, post_parse_request"), ("binding", "oidc/token.py AccessTokenHelper.process_request, RefreshTokenHelper.process_request"),
   ("confirmation claim", "session/grant.py Grant.payload_arguments")])

# ---------------------------------------------------------------- storage of sessions
p("C32", "A session identifier finds exactly the session it names",
  "What is found, returned or changed for a session identifier or path is the record of exactly that user, client and grant: keys can be taken apart into the identifiers they were made of, each record is stored under its own "
  "path and listed once by its parent, new sessions get their own fresh grant and do not replace other records.",
  ["inputs", "histories"], "all identifiers (any text) and orders of session operations",
  "colliding or mis-sliced paths only show for particular identifiers and mixes of sessions.",
  ["session/database.py", "session/manager.py", "session/info.py"],
  [("keys", "session/database.py session_key, unpack_session_key"), ("storage", "session/database.py Database.set, get"), ("sessions", "session/manager.py SessionManager.create_grant, get_*, __setitem__")])
p("C33", "Deleting a session removes all of it and nothing else",
  "After a path has been deleted neither its record nor any record below it is left and no parent lists it; records of other paths stay, except for parents that became empty. Removing a session deletes the grant it names.",
  ["histories"], "all deletions in all states of the session database",
  "what is left over depends on which records and siblings exist.",
  ["session/database.py", "session/manager.py"],
  [("deletion", "session/database.py Database.delete, delete_sub_tree"), ("removal", "session/manager.py SessionManager.remove_session")])
p("C34", "Session identifiers are sealed with the key of the session database",
  "A session identifier contains user, client and grant only encrypted (Fernet) under the key of the session database, and only authenticated decryption with that key yields a path; any other value is an error. The key is the "
  "configured or a random one, survives dump and load, and can not be replaced; responses and cookies name sessions only sealed.",
  ["inputs"], "all session identifiers, genuine or forged",
  "a forged or foreign identifier must be refused whatever it looks like.",
  ["session/database.py", "session/manager.py", "util.py"],
  [("sealing", "session/database.py Database.encrypted_session_id, decrypt_session_id"), ("cipher", "util.py Crypt"), ("key", "session/database.py Database.__init__, local_load_adjustments")])
p("C35", "The state requests change survives dump and load",
  "Every attribute that requests set on session records, tokens, the session manager or the endpoint context is among what is dumped and loaded, or is configuration or rebuilt from it. Issued tokens are dumped with their "
  "class and loaded as that class.",
  ["crash_points", "histories"], "a restart (dump, load) at any point of any history",
  "one forgotten attribute silently forgets a revocation or a use after a restart.",
  ["session/info.py", "session/token.py", "session/grant.py", "session/database.py", "session/manager.py", "endpoint_context.py"],
  [("records", "session/info.py, session/token.py, session/grant.py parameter tables"), ("manager", "session/database.py Database.parameter"), ("context", "endpoint_context.py EndpointContext.parameter, oidcmsg.impexp")])

# ---------------------------------------------------------------- lifetimes, subjects, configuration
p("C38", "Tokens live by the usage rules of their client and grant",
  "The usage rules of a client are the configured ones with its own taking precedence, value by value, and every grant, also one made by single sign-on, gets those of the client that asked. A token is minted under the "
  "rules of its grant for its class and expires expires_in seconds after minting (never if that is not positive). expires_in in a response is what is left of the life of the access token in it.",
  ["configurations", "histories"], "all usage rules (global, per client, partial, empty) and all ways to a token",
  "the merge of partial rules and the different ways to a grant multiply beyond what tests configure.",
  ["authz/__init__.py", "session/grant.py", "session/token.py", "session/manager.py", "oauth2/token.py", "oidc/token.py", "oauth2/authorization.py"],
  [("merge", "authz/__init__.py AuthzHandling.usage_rules, __call__"), ("minting", "oauth2/token.py _mint_token; oauth2/authorization.py mint_token; session/grant.py Grant.mint_token"),
   ("expiry", "session/token.py Item.__init__, set_expires_at")])
p("C42", "Subject identifiers are of the client's type and tell nothing else",
  "The subject identifier of a grant is of the type the client registered for, whatever a request says, made for the authenticated user with the provider's salt and, when pairwise, the client's registered sector. "
  "Pairwise and public identifiers are digests over those inputs, ephemeral ones random. It is this identifier that userinfo and token claims name the user by.",
  ["inputs", "configurations"], "all users, clients, sectors and authorization requests",
  "correlation across sectors or a readable user name shows only when compared over many clients and users.",
  ["session/manager.py", "oauth2/authorization.py", "oidc/userinfo.py", "session/grant.py"],
  [("minters", "session/manager.py pairwise_id, public_id, ephemeral_id, PairWiseID, PublicID"), ("selection", "oauth2/authorization.py create_session, _subject_args"),
   ("grant", "session/manager.py SessionManager.create_grant")])
p("C31", "Responses disclose no more than they should on their way to the client",
  "An error response tells only the error, its description, URI and state; every response is marked not to be cached; a response carries what was constructed for this request, in the body or on the given return URI as the endpoint declares. "
  "Tokens in an authorization response go in the fragment or a posted form, never in the query, whatever response mode is asked for.",
  ["inputs", "configurations"], "every endpoint, response type, response mode and combination of response arguments",
  "a token in a query string or a cached page leaks through logs, proxies and history only in particular combinations of type, mode and error.",
  ["endpoint.py", "oauth2/authorization.py", "oidc/userinfo.py"],
  [("responses", "endpoint.py do_response, set_content_type, fragment_encoding; oidc/userinfo.py do_response"), ("placement", "oauth2/authorization.py create_authn_response, post_authentication, response_mode")])
p("C43", "What must not be guessed is drawn at random when it is needed",
  "Tokens, sealed session identifiers, client identifiers and secrets, registration access tokens, URIs of pushed requests, ephemeral subjects and logout identifiers contain a value from the operating system's generator, drawn for that one use. "
  "So do keys and salts the configuration does not give, and the initialization vector of every cookie; none is predictable, shared, cached or too short.",
  ["histories", "inputs"], "every value of these kinds ever made, on every path that makes one",
  "a guessable or repeated value looks like any other; no sample of outputs shows where it came from.",
  ["__init__.py", "token/__init__.py", "session/database.py", "session/manager.py", "oidc/registration.py", "oauth2/pushed_authorization.py", "cookie_handler.py", "util.py", "endpoint_context.py"],
  [("generator", "__init__.py rndstr"), ("tokens", "token/__init__.py DefaultToken.__call__; session/database.py encrypted_session_id"), ("clients", "oidc/registration.py secret, random_client_id, add_registration_api"),
   ("pushed requests", "oauth2/pushed_authorization.py process_request"), ("subjects", "session/manager.py ephemeral_id, PairWiseID"), ("cookies", "cookie_handler.py _sign_enc_payload"), ("sessions", "util.py get_logout_id; oauth2/authorization.py authz_part2")])
p("C29", "Handling a request leaves the configuration as it is",
  "Computing usage rules, scopes, claims restrictions, user information, token contents and responses changes neither the configuration, the user store nor what is registered for a client, and nothing ever changes a constant of a module or class, or the default of a parameter. "
  "What is handed out for callers to add to or take from is a copy.",
  ["histories"], "all orders of requests in one process",
  "a shared list that grows shows only in a later request, of another client.",
  ["session/claims.py", "authz/__init__.py", "session/grant.py", "scopes.py", "user_info/__init__.py", "token/id_token.py"],
  [("claims", "session/claims.py ClaimsInterface"), ("usage rules", "authz/__init__.py; session/grant.py get_usage_rules"), ("scopes", "scopes.py"), ("user store", "user_info/__init__.py")])
p("C36", "Users are who proved to be, by the method that was asked for",
  "An authentication method lets in exactly the user whose own stored password or encrypted name was presented, or the user of the session that a cookie of the OP names, a session with the requesting client and not older than a (positive) max_age; "
  "a cookie never replaces the user who authenticated, and one that names no live session counts as none. What the login page returns must be signed by the OP. The method is one for a requested acr, whose acr "
  "the session records; if none fits the request is refused.",
  ["inputs", "configurations"], "all credentials, cookies, login forms, acr requests and sets of methods",
  "mixing users, stale cookies and unsupported acr values are combinations tests do not contain.",
  ["user_authn/user.py", "user_authn/authn_context.py", "oauth2/authorization.py"],
  [("methods", "user_authn/user.py UserPassJinja2, BasicAuthn, SymKeyAuthn, NoAuthn"), ("cookies", "user_authn/user.py UserAuthnMethod.cookie_info, authenticated_as"),
   ("login page", "user_authn/user.py UserAuthnMethod.unpack_token"), ("choice", "user_authn/authn_context.py pick_auth, AuthnBroker; oauth2/authorization.py pick_authn_method")])
p("C41", "A token that cannot be resolved gets a protocol error",
  "A code, refresh token, access token or introspected token that is malformed, unknown, expired, of the wrong kind, or of a session that is gone or cannot be read is answered with an error "
  "response (introspection: inactive; bearer authentication: failed authentication), never with another exception and never accepted. Whatever a token handler stumbles over, the others are still asked.",
  ["inputs", "histories"], "all token strings and every state of the session database",
  "tests send a handful of bad tokens; each way the lookup can fail must be met at each of the places that look a token up.",
  ["oauth2/token.py", "oidc/token.py", "oidc/add_on/pkce.py", "oauth2/introspection.py", "oidc/userinfo.py", "client_authn.py", "token/handler.py", "session/database.py"],
  [("token endpoint", "oauth2/token.py, oidc/token.py AccessTokenHelper, RefreshTokenHelper post_parse_request; oidc/add_on/pkce.py post_token_parse"),
   ("introspection and userinfo", "oauth2/introspection.py process_request; oidc/userinfo.py process_request, parse_request; client_authn.py verify_client"),
   ("handlers", "token/handler.py TokenHandler.get_handler, info; session/database.py decrypt_session_id")])
p("C30", "HTML the OP makes contains no markup or script of others",
  "Every value put in a page, form or frame the OP produces (form_post responses, logout frames, error pages, templates) is escaped and stands where escaping is enough. "
  "No client can register a redirect URI or front-channel logout URI that a browser would run as a script on such a page.",
  ["inputs", "configurations"], "all parameter values, redirect URIs and client registrations",
  "each value placed in a page needs its own malicious example.",
  ["oauth2/authorization.py", "oidc/session.py", "oidc/registration.py", "endpoint_context.py"],
  [("form_post", "oauth2/authorization.py inputs, Authorization.response_mode, process_request"), ("frames", "oidc/session.py do_front_channel_logout_iframe"),
   ("registered URIs", "oidc/registration.py verify_redirect_uris, do_client_registration"), ("templates", "endpoint_context.py")])


NAFILES = ["oauth2/token.py", "session/token.py"]
p("C44", "The published metadata describes this provider",
  "The metadata document names the configured issuer, the key set under it and every endpoint at the URL it is served at; discovery points at that issuer. "
  "Everything else in it is what was configured, or else what the endpoints, scopes and authentication methods offer. Algorithms announced exist in the library, and unsigned or weak ones are announced only if configured.",
  ["configurations"], "every configuration of endpoints, capabilities, issuer and algorithms",
  "a client configures itself from this document, and the combinations of given, default and missing values are too many to sample.",
  ["endpoint_context.py", "util.py", "server.py", "construct.py", "oidc/discovery.py", "oidc/provider_config.py"],
  [("metadata", "endpoint_context.py __init__, create_providerinfo; util.py build_endpoints; server.py get_capabilities; construct.py construct_endpoint_info")])
p("C45", "Login cookies and session_state tell of this login and nothing else",
  "After authentication the browser gets a session cookie that names exactly the session the response is about, and with session management on a management cookie as well. "
  "session_state in the response is then the salted hash of the client identifier, the origin of the URI the response goes to, and the value of precisely the management cookie set with it. "
  "It is given with every response whose parameters are put on the URI, and only while the authentication of that session is valid.",
  ["inputs"], "all clients, redirect URIs, sessions and moments",
  "relying parties poll for changes of the login with this value; an ingredient too many, too few or from elsewhere shows only in another browser, origin or login.",
  ["oauth2/authorization.py", "cookie_handler.py", "endpoint_context.py"],
  [("login cookies", "oauth2/authorization.py post_authentication, authz_part2; endpoint_context.py new_cookie"), ("session state", "cookie_handler.py compute_session_state")])
p("C50", "Of two simultaneous redemptions of a code at most one succeeds",
  "When two token requests present the same authorization code at the same time, at most one of them gets tokens.",
  ["schedules"], "all interleavings of token requests",
  "interleavings are not exercised by tests.", NAFILES, [("usage counter", "session/token.py Item.register_usage")],
  na="Which requests interleave, and on which copy of the session data, is decided by the application and store embedding this library, which "
     "itself has neither threads nor locks; there is no program text here whose analysis could settle it.")
p("C51", "What is sealed, signed or hashed can not be forged or guessed",
  "Nobody without the keys of the provider can make a token, cookie, session identifier or client assertion that is accepted.",
  ["inputs"], "all adversarial inputs",
  "no test enumerates forgeries.", ["token/__init__.py", "cookie_handler.py", "session/database.py"], [("authenticated encryption and signatures", "cryptography, cryptojwt")],
  na="A statement about cryptographic primitives, not about program paths. That they are used with the right keys on the right data is decided by C08, C18-C20, C23 and C34.")
p("C52", "Loading a dump gives a provider that is equal in every value",
  "For every state of the provider, loading what it dumped yields a provider that holds equal values.",
  ["histories", "crash_points"], "all states and values", "values are unbounded.",
  ["session/grant.py", "session/manager.py", "endpoint_context.py"], [("dump and load", "oidcmsg.impexp.ImpExp")],
  na="Equality of arbitrary run-time values after a trip through JSON quantifies over values no static argument in reach bounds. That everything that changes is dumped, and tokens keep their class, is C35.")
p("C53", "Comparing secrets takes the same time whatever is presented",
  "The time it takes to refuse a wrong client secret, cookie or token does not depend on how much of it is right.",
  ["inputs"], "all presented secrets", "tests do not measure time.",
  ["client_authn.py", "cookie_handler.py"], [("comparison of secrets", "client_authn.py verify_client_secret")],
  na="Execution time of the interpreter and its string comparison is not visible in the source; no static rule of this family bounds it.")
