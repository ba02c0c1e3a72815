#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
O = "src/psion/oauth2/"
J = "src/psion/jose/"
NOOAUTH = "No test in the repository touches psion.oauth2 or psion.oidc at all; "
RESP = ["Response returned by the endpoint", "calls the endpoint makes on the application's adapter"]

prop("C01", "An authorization code is redeemed at most once",
 "Across every history and every interleaving of token requests on a provider, one authorization code leads to at most one successful token response. Once an authenticated client that may use the authorization code grant has presented a code, the code is deleted from the application's storage by the end of that request - whether it succeeded, was refused, failed inside the application's adapter or was cancelled - and no later request obtains tokens with it.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of token requests presenting the same code, every interleaving of their adapter calls, every adapter call failing or being cancelled (deletion itself excepted)",
 NOOAUTH + "and the guarantee is about all interleavings and all failure points of concurrent requests, which example-based tests cannot enumerate.",
 [O+"grants/authorization_code.py", O+"endpoints/token.py"],
 [("try/finally deleting the code", O+"grants/authorization_code.py:AuthorizationCodeGrant.token"), ("set of codes being redeemed", O+"grants/authorization_code.py:AuthorizationCodeGrant.token")],
 [("authorization codes", "code records kept by the application", O+"adapter.py"), ("codes being redeemed", "codes claimed by an unfinished request", O+"grants/authorization_code.py")], RESP)

prop("C02", "Only the rightful holder redeems a code",
 "A token request with an authorization code is answered with tokens if and only if the stored code was issued to the authenticated client, the redirect URI is identical to the one of the authorization request and registered for the client, the code verifier satisfies the stored PKCE challenge under its stored method (plain or S256), the current UTC time is strictly before the code's expiration, and the user still exists. Otherwise no token is minted. The minted tokens belong to that client and that user.",
 ["inputs", "histories", "configurations"],
 "every client registration, stored code, clock value, host time zone and every combination of valid, missing and near-miss request parameters",
 NOOAUTH + "and the condition is a conjunction over unbounded strings, clock values and histories (codes of other clients, registrations changed in between).",
 [O+"grants/authorization_code.py"],
 [("_validate_token_request", O+"grants/authorization_code.py"), ("_validate_authorization_code", O+"grants/authorization_code.py"), ("plain_challenge/S256_challenge", O+"grants/authorization_code.py"), ("find_user check", O+"grants/authorization_code.py:token")],
 [("code record", "client, user, redirect URI, scopes, challenge, method, expiration", O+"mixins.py")], RESP)

prop("C03", "Codes are issued only for complete, consented PKCE requests",
 "An authorization request is answered with a code if and only if a user is authenticated, the client is registered with the given redirect URI and response type, the provider supports the response type, the request carries a code challenge of 43 to 128 characters with method plain or S256, and a scope whose every item is supported and allowed. The code handed to the application for storage is the one sent to the client and is stored with exactly that client, user, redirect URI, scopes, challenge and method. Every code is new, at least 128 bits unpredictable, and independent of the clock and of seedable generators.",
 ["inputs", "configurations", "histories"],
 "every authorization request (all parameters present, absent, malformed, near-miss or duplicated) against every registration, and every history of issued codes",
 NOOAUTH + "the input space is the product of all parameters' validity classes, and freshness is a property of the whole history.",
 [O+"endpoints/authorization.py", O+"grants/authorization_code.py", O+"grants/base.py", "src/psion/webtools.py"],
 [("_validate_authorization_request", O+"grants/authorization_code.py"), ("_validate_client/_validate_response_type", O+"endpoints/authorization.py"), ("secret_token", "src/psion/webtools.py")],
 [("saved code data", "what save_authorization_code receives", O+"adapter.py")], RESP)

prop("C04", "Browsers are only ever redirected to registered URIs",
 "The authorization endpoint and the consent query redirect the user agent to the request's redirect URI only if it exactly equals one registered for the client named in the request; whenever the client or the redirect URI is missing, unknown or not registered, the redirect goes to the provider's own error page with an error code. This holds for every other defect of the request and whether or not a user is authenticated. A code is never sent to the error page.",
 ["inputs", "configurations"],
 "every combination of request defects with unregistered, near-miss (prefix, suffix, case, encoding) and foreign-client redirect URIs",
 NOOAUTH + "open redirects hide in combinations of defects (which check runs first), so single-example tests miss them.",
 [O+"endpoints/authorization.py"],
 [("FatalError vs OAuth2Error handling", O+"endpoints/authorization.py:__call__"), ("_validate_client", O+"endpoints/authorization.py")], (), ["Location header of the response"])

prop("C05", "Granted scopes never exceed what was requested, allowed and consented",
 "Authorization and client-credentials requests are refused with invalid_scope unless every requested scope is supported by the provider and allowed for the client; tokens from a code carry exactly the scopes stored with the code, and client-credentials tokens the requested scopes (all the client's scopes if none were requested). A refresh yields exactly the requested scopes, or the refresh token's scopes if none are requested, in both cases limited to what the client is currently allowed, and is refused with invalid_scope if any requested scope is not among the refresh token's scopes, not supported or not allowed. Hence no sequence of refreshes ever gains a scope, and requests within these bounds are not refused because of scope.",
 ["inputs", "histories", "configurations"],
 "every requested scope list (order, duplicates, subsets, near-miss names), every registration and every chain of authorization, redemption and refreshes",
 NOOAUTH + "scope confinement is inductive over refresh chains and quantifies over all subsets of scopes.",
 [O+"grants/base.py", O+"grants/refresh_token.py", O+"grants/client_credentials.py", O+"grants/authorization_code.py"],
 [("_validate_requested_scopes", O+"grants/base.py"), ("RefreshTokenGrant._validate_requested_scopes", O+"grants/refresh_token.py"), ("get_allowed_scopes", O+"mixins.py")], (), RESP)

prop("C06", "Tokens and revocations only for properly authenticated clients",
 "The token and revocation endpoints act for a client only if the request proves it by exactly the method registered for that client: the exact client id and secret in a Basic header, the same in the request body, or, for a client registered without secret, its id in the body with no secret. A wrong, missing, near-miss or differently transmitted credential, an unknown client, credentials in the URL, or two sets of credentials in one request yield invalid_client and no adapter effect; correct credentials are never refused. Tokens are minted and revocations made for that very client.",
 ["inputs", "configurations"],
 "every registered method, every placement and encoding of credentials, every near-miss id or secret, on both endpoints and all grants",
 NOOAUTH + "and authentication is a relation over arbitrary strings and placements.",
 [O+"authentication/client_authentication.py", O+"authentication/methods/client_secret_basic.py", O+"authentication/methods/client_secret_post.py", O+"authentication/methods/none.py", "src/psion/webtools.py", O+"endpoints/token.py", O+"endpoints/revocation.py"],
 [("ClientAuthentication.__call__", O+"authentication/client_authentication.py"), ("authenticate() of each method", O+"authentication/methods/"), ("get_basic_authorization", "src/psion/webtools.py")], (), RESP)

prop("C07", "Clients only use the grants and response types they are registered for",
 "A token request succeeds only with a grant type that the provider offers (otherwise unsupported_grant_type) and that the authenticated client is registered for (otherwise unauthorized_client); an authorization request only with a response type that the provider offers (unsupported_response_type) and the client is registered for (unauthorized_client). The client credentials grant is available only to clients authenticating with a secret. A refused request has no adapter effect.",
 ["inputs", "configurations"],
 "every subset of grants offered by the provider and registered for the client, every grant_type/response_type string including near-misses",
 NOOAUTH + "it quantifies over registrations and provider configurations.",
 [O+"endpoints/token.py", O+"endpoints/authorization.py", O+"grants/client_credentials.py"],
 [("_validate_grant_type", O+"endpoints/token.py"), ("get_grant_types check", O+"endpoints/token.py:__call__"), ("_validate_response_type/_validate_client", O+"endpoints/authorization.py"), ("__authentication_methods__", O+"grants/client_credentials.py")], (), RESP)

prop("C08", "A refresh token works only for its client, while valid, for its user",
 "A refresh request is answered with tokens if and only if the presented refresh token exists in the application's storage, was issued to the authenticated client, the current UTC time is strictly before its expiration, its user still exists and the requested scopes are acceptable. Otherwise nothing is minted. The new tokens belong to the same client and the same user as the refresh token.",
 ["inputs", "histories", "configurations"],
 "every refresh token, client, clock value, host time zone, deleted user and chain of refreshes, including tokens of other clients and revoked tokens",
 NOOAUTH + "and it ranges over histories (revocation, user deletion, expiry between uses).",
 [O+"grants/refresh_token.py"],
 [("_validate_token_request/_validate_refresh_token", O+"grants/refresh_token.py"), ("find_user check", O+"grants/refresh_token.py:token")],
 [("refresh token record", "client, user, scopes, expiration", O+"mixins.py")], RESP)

prop("C09", "Revocation acts exactly on the client's request",
 "For an authenticated client submitting a token in the request body, with no type hint or a supported one, the revocation endpoint asks the application exactly once to revoke exactly that token for exactly that client with exactly that hint, and answers 200. Without valid authentication (401 invalid_client), with an unsupported hint (400 unsupported_token_type) or without a token, nothing is revoked. A refresh token revoked this way obtains no tokens afterwards.",
 ["inputs", "histories"],
 "every token string, hint and authentication outcome, and every history mixing issuance, refresh and revocation",
 NOOAUTH + "and it ranges over histories and arbitrary token strings.",
 [O+"endpoints/revocation.py"],
 [("RevocationEndpoint.__call__", O+"endpoints/revocation.py")], (), RESP)

prop("C10", "Endpoints always answer with a well-formed, truthful response",
 "For every request, whatever its parameters, encoding and headers, each endpoint returns a well-formed response of its kind and raises nothing as long as the application's adapter does not; an OAuth error raised by the adapter is rendered as an error response. Every refusal carries an OAuth error code naming a condition the request actually fails: redirect 303 for authorization, JSON with status 400 (400 or 401 for invalid_client) for token and revocation, the token endpoint always with Cache-Control: no-store and Pragma: no-cache; a WWW-Authenticate challenge accompanies nothing but invalid_client.",
 ["inputs", "configurations", "fault_sequences"],
 "every request including malformed headers, undecodable bytes, non-ASCII values, missing and duplicated parameters, with and without OpenID Connect hooks",
 NOOAUTH + "totality is a statement about all inputs.",
 [O+"endpoints/authorization.py", O+"endpoints/token.py", O+"endpoints/revocation.py", O+"models/http.py", O+"exceptions.py", "src/psion/webtools.py", "src/psion/oidc/flows/authorization_code.py"],
 [("except OAuth2Error", O+"endpoints/"), ("OAuth2Error.dump", O+"exceptions.py"), ("JSONResponse/RedirectResponse", O+"models/http.py")], (), ["Response returned by the endpoint", "exceptions leaving the endpoint"])

prop("C11", "The client's state and redirect URI come back intact",
 "Every redirect back to a client, be it success or error, from authorization or consent, goes to its redirect URI with scheme, host, path and existing query parameters intact, and carries the response parameters as additional, correctly encoded query parameters. If the request carried a state, the redirect carries exactly that value, once; if not, it carries none. A success carries exactly the issued code and no error, an error carries an error code and no authorization code.",
 ["inputs", "configurations"],
 "every state value (any Unicode, reserved characters, long), every registered redirect URI (with port, query, custom scheme, IPv6), every outcome",
 NOOAUTH + "it ranges over all strings and all refusal paths.",
 [O+"endpoints/authorization.py", O+"grants/authorization_code.py", O+"grants/base.py", O+"models/http.py", O+"exceptions.py", "src/psion/webtools.py"],
 [("urlencode", "src/psion/webtools.py"), ("state passed to every error", O+"grants/authorization_code.py"), ("RedirectResponse quoting", O+"models/http.py")], (), ["Location header of the response"])

prop("C12", "Token responses state exactly what was issued",
 "A successful token response has status 200, JSON content, Cache-Control: no-store and Pragma: no-cache, and contains the very access token the application minted for this request, token type Bearer and the provider's configured lifetime. It contains a refresh token if and only if one was minted for it, which happens exactly once for code and refresh grants of clients registered for the refresh token grant and never for client credentials. If it contains a scope, that lists exactly the minted scopes; it contains one whenever they differ from what was requested (for a refresh without scope: from the refresh token's scopes).",
 ["inputs", "configurations", "schedules"],
 "every successful token request over all grants, registrations, lifetimes, scope lists and interleavings",
 NOOAUTH + "and it relates the response to adapter effects for all requests.",
 [O+"grants/base.py", O+"grants/authorization_code.py", O+"grants/refresh_token.py", O+"grants/client_credentials.py", O+"endpoints/token.py", O+"models/http.py"],
 [("_create_token", O+"grants/base.py"), ("_headers", O+"endpoints/token.py")], (), RESP)

prop("C13", "ID tokens are issued exactly for openid and describe that very login",
 "With the OpenID Connect hook installed, a code redemption returns an ID token if and only if openid is one of the granted scopes, and no other grant returns one. The ID token verifies under the application's key with the announced algorithm and key id, names the provider's issuer, the redeeming client as audience, the authorizing user's claims for the granted scopes, the nonce of the authorization request if there was one, the current UNIX time as iat and iat plus the configured lifetime as exp in any host time zone, and an at_hash equal to the left half of the hash of the access token returned with it.",
 ["inputs", "configurations", "histories"],
 "every scope list (including names containing openid), nonce, signing algorithm, user, client, lifetime and time zone",
 NOOAUTH + "it ranges over all scope lists, algorithms and time zones.",
 ["src/psion/oidc/flows/authorization_code.py", "src/psion/oidc/claims.py", "src/psion/webtools.py", J+"jwt.py"],
 [("AuthorizationCodeFlow hooks", "src/psion/oidc/flows/authorization_code.py"), ("create_half_hash", "src/psion/webtools.py")], (), ["id_token of the token response"])

prop("C14", "Hooks act only on the provider and grant they were added to",
 "A hook added to a grant of a provider is run, with that provider's adapter and configuration, once per registration at each checkpoint it defines that a request on that provider and grant reaches, and what it returns is merged into the data or response of that request. It is never run for another provider or another grant, regardless of the order in which providers are created, hooks added and requests made. An OAuth error raised by a hook refuses the request.",
 ["histories", "configurations"],
 "every history of creating providers, adding hooks to grant classes and making requests",
 NOOAUTH + "interference needs several providers or grants and a particular order of registrations.",
 [O+"grants/base.py", O+"providers/base.py", O+"grants/authorization_code.py"],
 [("__hooks__ / _execute_hook", O+"grants/base.py"), ("add_hook", O+"providers/base.py")],
 [("hook registry", "hooks per grant instance and checkpoint", O+"grants/base.py")], ["hook invocations", "Response returned by the endpoint"])

prop("C15", "Concurrent requests do not disturb one another",
 "Requests processed concurrently on one provider, interleaved in any way at the application's asynchronous calls, and presenting no code in common, have the same outcome as if each ran alone: the same verdict, tokens bound to their own client, user, scopes, redirect URI and state, and the response of one never carries data of another.",
 ["schedules"],
 "every interleaving of the adapter calls of several authorization, token, consent and revocation requests on one provider",
 NOOAUTH + "and the property is about all schedules.",
 [O+"endpoints/", O+"grants/", O+"authentication/", O+"models/http.py", O+"exceptions.py"],
 [("no per-request state on shared objects", O+"endpoints/, grants/, authentication/")], (), RESP)

prop("C16", "A verified JWS/JWT was signed by that key, unaltered",
 "Deserializing or decoding a token with validation succeeds under a key and an algorithm other than none only if exactly that header and that payload were signed with that key (or its private counterpart) and that algorithm. Any token altered in any header or payload byte or in the signature value (ECDSA's equivalent twin signature excepted), spliced from several tokens, signed with another key or algorithm, truncated, extended or stripped of its signature is rejected. When the caller names an algorithm, or the key is bound to one, a token with any other algorithm, none included, is rejected.",
 ["inputs", "histories"],
 "every sequence of signing operations with all algorithms and keys, followed by every adversarial recombination or alteration of the resulting tokens",
 "The tests verify one untouched token per primitive and have no negative JWS/JWT test (a TODO says so); authenticity quantifies over all forgeries.",
 [J+"jws.py", J+"jwt.py", J+"jwa/jws.py", J+"jwa/jwk.py"],
 [("JsonWebSignature.deserialize", J+"jws.py"), ("verify of each algorithm", J+"jwa/jws.py"), ("verify of each key type", J+"jwa/jwk.py")],
 [("signed messages", "what each key has signed", "model only")], ["result or exception of deserialize/decode"])

prop("C17", "Whatever is signed can be verified and comes back unchanged",
 "For every supported algorithm, every key fit for it (RSA keys of at least 2048 bits), every header and every payload or claims set, serializing succeeds, the result is three dot-separated unpadded base64url segments encoding exactly that header and payload, and deserializing it with the matching key (public or private, with or without naming the algorithm) returns exactly the same header and payload or claims. With validation off the same content is returned without a signature check.",
 ["inputs", "configurations"],
 "all 13 algorithms, all key sizes and curves, arbitrary payload bytes and JSON claims, arbitrary extra header fields",
 "The tests round-trip one fixed HS256 token; other algorithms, sizes, payload lengths and Unicode are not reached.",
 [J+"jws.py", J+"jwt.py", J+"jwa/jws.py", J+"jwa/jwk.py", "src/psion/webtools.py"],
 [("serialize/deserialize", J+"jws.py"), ("encode/decode", J+"jwt.py"), ("base64url_encode/decode", "src/psion/webtools.py")], (), ["token text", "returned header and payload"])

prop("C18", "Keys are only used as their parameters permit",
 "Signing and verifying a JWS is refused with an invalid-key error unless the key's type (and curve) fits the algorithm, the key's alg (if any) equals the token's algorithm, the header's kid (if any) equals the key's kid, its use (if any) is sig and its key_ops (if any) contain only sign and verify; signing additionally requires private key material. In particular an asymmetric public key is never usable as an HMAC secret. A key meeting these conditions is not refused.",
 ["inputs", "configurations"],
 "the full product of key types, curves, alg, kid, use, key_ops, private/public material and header algorithms, for signing and verifying",
 "No test presents a mismatched key to any JWS operation.",
 [J+"jws.py", J+"jwa/jws.py", J+"jwa/jwk.py"],
 [("_validate_key", J+"jws.py"), ("validate_key", J+"jwa/jws.py"), ("sign without private key", J+"jwa/jwk.py")], (), ["result or exception of serialize/deserialize"])

prop("C19", "JWT time claims are enforced against real time",
 "Constructing or decoding JWT claims (ID token claims included) succeeds only if, measured in UNIX time and independently of the host's time zone, the current time is before exp, not before nbf and not before iat, for every one of these that is present, zero and negative values included. A present time claim that is not an integer is rejected. Claims meeting the conditions are not rejected because of time.",
 ["inputs", "configurations"],
 "every combination of exp, nbf and iat values of any JSON type relative to the clock (boundaries included), every time zone, via claims objects and via decode with and without signature validation",
 "The tests use one offset of an hour in UTC per claim; boundary instants, zero, other types and other time zones are not reached.",
 [J+"jwt.py", "src/psion/oidc/claims.py"],
 [("_validate_default_claims", J+"jwt.py")], (), ["result or exception of JsonWebTokenClaims/JsonWebToken.decode"])

prop("C20", "Every requested claim check is enforced",
 "When claims are validated with options, each option is enforced independently of all others and of their order: an essential claim must be present, a claim with an expected value must equal it (false, zero and empty values included), and a claim with a list of expected values must be one of them or, being a list, share an element with them. Claims of a wrong JSON type for iss, sub, jti (string) and aud (string or list of strings), or a nonce different from the expected one in an ID token, are rejected. Claims meeting all checks are accepted and returned unchanged.",
 ["inputs"],
 "every set and order of options over any claims, every JSON type of each claim",
 "No test passes options at all.",
 [J+"jwt.py", "src/psion/oidc/claims.py"],
 [("_validate_claims", J+"jwt.py"), ("_validate_default_claims", J+"jwt.py"), ("_validate_nonce", "src/psion/oidc/claims.py")], (), ["result or exception of JsonWebTokenClaims/IDToken/JsonWebToken.decode"])

prop("C21", "Keys survive every conversion; public forms reveal nothing private",
 "Any chain of generating, loading, dumping, exporting and parsing keys preserves the key: the resulting key has the same public material, the same private material if the form was private, verifies what the original signs, and keeps the metadata carried by the form. The public dump or public export of an asymmetric key never contains private material and cannot sign; asking a public key for its private form, or parsing material as another key type, fails. Generated keys are fresh and of the requested size or curve.",
 ["histories", "inputs"],
 "every chain of conversions, key types, sizes, curves, including keys with leading zero bytes and keys given without CRT parameters",
 "The tests convert three fixed keys, one step at a time; leading zeros, long PEMs, symmetric export and chains are not reached.",
 [J+"jwk.py", J+"jwa/jwk.py", "src/psion/webtools.py"],
 [("generate/parse/dump/export", J+"jwa/jwk.py"), ("JsonWebKey", J+"jwk.py"), ("int_to_b64/b64_to_int", "src/psion/webtools.py")],
 [("key object", "material, private or public, metadata", J+"jwk.py")], ["dumps, exports and signatures of the resulting keys"])

prop("C22", "A key set has unique key ids and finds exactly the named key",
 "A key set can only be built from a non-empty list of keys that all have an id, no two the same. Looking up an id returns the key with exactly that id, or nothing. Dumping a key set (public by default) and loading the dump gives a key set with the same ids in the same order and the same key material.",
 ["inputs", "histories"],
 "every list of keys with any ids (missing, repeated, prefixes of one another) and every looked-up id",
 "The tests build two sets of two keys and look up one id.",
 [J+"jwk.py"],
 [("JsonWebKeySet.__init__/get_key/dump/load", J+"jwk.py")], (), ["key set contents and lookups"])

prop("C23", "Untrusted token text can only fail with the library's own errors",
 "Deserializing or decoding any byte string with any key, with or without validation, either returns or raises one of the library's JOSE errors, never any other exception. Text that is not three segments with a base64url JSON object header is always rejected. A header is accepted only with a supported algorithm, non-empty string kid, typ and cty if present, and a crit, if present, that is a non-empty list of names of parameters present in the header.",
 ["inputs"],
 "every byte string as token, every JSON value as header, any JSON type for every header parameter",
 "Tests cover six malformed header dicts and no malformed token text.",
 [J+"jws.py", J+"jwt.py", J+"exceptions.py", "src/psion/webtools.py"],
 [("deserialize", J+"jws.py"), ("JsonWebSignatureHeader validators", J+"jws.py")], (), ["exception class leaving deserialize/decode/header construction"])

prop("C24", "Tokens interoperate with other RFC 7515/7518 implementations",
 "For every supported algorithm a token produced here is accepted by an independent implementation of RFC 7515/7518 given the key's public dump, and a token produced by such an implementation is accepted here, with the same header and payload on both sides. EC key dumps use full-length coordinates.",
 ["inputs", "configurations"],
 "all algorithms, key sizes and curves, arbitrary payloads, both directions",
 "Only one HS256 token with a fixed key is compared with a known value.",
 [J+"jwa/jws.py", J+"jwa/jwk.py", J+"jws.py"],
 [("sign/verify of each algorithm", J+"jwa/jwk.py"), ("dump", J+"jwa/jwk.py")], (), ["token text", "result of deserialize"])

prop("C25", "HTTP requests and responses are translated without loss",
 "A request exposes each non-blank query and form parameter with the value that was sent (a form parameter overrides a query parameter of the same name, and of repeated ones the last counts), the parameters of a fragment apart from those, headers regardless of case, path, and the user given to it; extracting Basic or Bearer credentials from headers returns exactly what was sent or nothing, and never raises. Adding parameters to a URL preserves the URL and every parameter. The Starlette provider passes method, URL, headers, body and user to the endpoints and status, headers and body back unchanged.",
 ["inputs"],
 "every parameter name and value (any Unicode, reserved characters, duplicates), header value and body bytes",
 "No test covers HTTP models, webtools parsing or the Starlette integration.",
 [O+"models/http.py", "src/psion/webtools.py", O+"providers/starlette.py"],
 [("Request/Response", O+"models/http.py"), ("urlencode/urldecode/get_basic_authorization/get_bearer_authorization", "src/psion/webtools.py"), ("StarletteProvider", O+"providers/starlette.py")], (), ["Request attributes", "Starlette response"])

prop("C26", "The consent query shows exactly what authorization would grant",
 "For a request that the authorization endpoint would grant, the consent query returns the client named in the request and exactly the scopes that would be granted. It never returns consent data for a request with a missing, unknown or unregistered client, redirect URI or response type, or without scope, and never lists a scope that was not requested or is not allowed for the client. It stores nothing.",
 ["inputs", "configurations"],
 "every authorization request against every registration",
 NOOAUTH + "it relates two operations over all requests.",
 [O+"endpoints/authorization.py"],
 [("get_consent_data", O+"endpoints/authorization.py")], (), ["return value of the consent query", "adapter calls"])

prop("C27", "Requests reach exactly the grant the application registered for them",
 "For every set of grants of distinct types an application defines and gives to a provider, and every set of ways of client authentication including its own: a token request is handed, once, to the grant of this provider whose grant type equals the one asked for, and to no other, with the authenticated client and the request's parameters - only if the client was authenticated in a way this grant accepts and is registered for this grant type; an authorization request likewise goes to the grant with its response type, with client, user and parameters, only if the client is registered for the response type. What the grant returns is the answer (the JSON of a 200 response, the target of the redirection), and an OAuth error it raises is the answer with its code, description, URI and headers. The consent query and the provider's client authentication follow the same registrations.",
 ["configurations", "histories", "schedules"],
 "every list of grants with any grant types, response types and accepted authentication methods, on several providers, and every interleaved sequence of requests to them",
 NOOAUTH + "the shipped grants exercise one response type and one restriction of authentication only; mistakes show with grants of the application's own.",
 [O+"endpoints/token.py", O+"endpoints/authorization.py", O+"endpoints/revocation.py", O+"providers/base.py", O+"authentication/client_authentication.py", O+"grants/base.py"],
 [("_validate_grant_type / _validate_response_type", O+"endpoints/token.py, endpoints/authorization.py"), ("ClientAuthentication.__call__", O+"authentication/client_authentication.py")],
 [("provider's grants", "grant instances with their types and accepted methods", O+"providers/base.py")], ["calls of the grants", "Response returned by the endpoint"])

prop("C28", "The library's encodings are exact and can be undone",
 "For every octet string, base64url encoding gives exactly the unpadded RFC 4648 text and decoding gives the octets back, leading zeros and all. For every natural number, its encoding is the base64url of its big-endian octets - the fewest possible, one for zero, or exactly the size asked for; never truncated - and decoding gives the number back. Text and octets convert to one another as UTF-8, JSON documents come back as they were written, a dictionary without null values holds exactly the entries that are not null and is independent of its source, nested values included, and random tokens have the size asked for, over the URL-safe alphabet, and repeat neither themselves nor one another.",
 ["inputs"],
 "every octet string, natural number, size, Unicode text and JSON document",
 "No test covers psion.webtools; mistakes show for particular lengths, leading zeros, alphabets or planes only.",
 ["src/psion/webtools.py"],
 [("base64url_encode/base64url_decode/int_to_b64/b64_to_int", "src/psion/webtools.py"), ("to_bytes/to_string/json_dumps/json_loads/FullDict/secret_token", "src/psion/webtools.py")], (), ["return values"])

prop("C29", "No response reveals a secret it was not meant to deliver",
 "For every request, schedule and failure, the response (body, headers, redirect target, ID token) contains no client secret, no key material of the provider, no authorization code, access token or refresh token other than those the application issued for this very request, and no text of an internal failure of the application - unless the request itself carried it. A refusal tells nothing of what is stored with a code or token (its user, nonce, challenge or redirect URI).",
 ["inputs", "schedules", "crash_points", "histories"],
 "every request, granted or refused for whatever reason, in every state of stored codes, tokens and registrations",
 NOOAUTH + "a leak shows only in particular refusals, combinations or interleavings.",
 [O+"endpoints/base.py", O+"endpoints/token.py", O+"endpoints/authorization.py", O+"endpoints/revocation.py", O+"exceptions.py", O+"grants/authorization_code.py", "src/psion/oidc"],
 [("OAuth2Error", O+"exceptions.py"), ("endpoints", O+"endpoints")], (), ["Response returned by the endpoints"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
