#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "The access decision is the policy semantics: deny wins, no match denies",
  "A policy check for (domain, roles, action, resource) succeeds exactly when at least one of the given roles has a matching allow assertion in the loaded policies and none of the given roles has a matching deny assertion. On success it reports exactly the given roles that have a matching allow; otherwise it fails, with the explicit-denial error if a deny matched and with the no-match error if nothing matched. The order of assertions within a policy, of policies within a document, and of roles in the request makes no difference.",
  ["inputs", "configurations"],
  "every policy set over a small alphabet of (role, action pattern, resource pattern, effect) assertions in every order and split into policies, and every request over the same alphabet",
  "the unit tests check a few dozen hand-picked policy sets; the semantics quantifies over all combinations of duplicates, overlaps, orders, allow/deny mixes and role subsets",
  ["policy/daemon.go", "policy/assertion.go"],
  [("assertion de-duplication with deny overriding", "policy/daemon.go:simplifyAndCachePolicy"), ("denies kept in front of allows; first match per role", "policy/daemon.go:CheckPolicyRoles")],
  [("role policies", "domain:role.role -> ordered assertions", "policy/daemon.go:policyd.rolePolicies")],
  ["policy.Daemon.CheckPolicy", "policy.Daemon.CheckPolicyRoles"])

p("C02", "Wildcard patterns match whole strings, case-insensitively, and only * ? wild",
  "An assertion applies to a request only if its action pattern matches the whole action, its resource pattern (the text after the first colon of the assertion's resource) matches the whole resource, and the resource's domain part equals the request's domain; letter case is ignored throughout. In patterns '*' stands for any run of characters and '?' for exactly one; every other character, including regular-expression metacharacters, stands only for itself. An assertion whose resource has no domain part is rejected when policies are loaded.",
  ["inputs"],
  "all patterns and all subject strings up to a length bound over an alphabet with letters of both cases, both wildcards and every regular-expression metacharacter",
  "the tests try about twenty pattern/string pairs; the guarantee is over every pattern and every string",
  ["policy/assertion.go", "policy/daemon.go"],
  [("glob to anchored regexp translation with escaping", "policy/assertion.go:patternFromGlob"), ("domain comparison and lower-casing at check time", "policy/daemon.go:CheckPolicyRoles")],
  (), ["policy.NewAssertion", "policy.Daemon.CheckPolicy"])

p("C03", "No interleaving of loading and checking loses a deny or changes a decision",
  "The decision of a policy check depends only on the policy documents in force and on the request, not on how the parallel work that loads documents and evaluates roles is scheduled. In particular a deny assertion present in a loaded document is never lost to, or overwritten by, an allow assertion processed concurrently, and a check always terminates. This holds also while an expired document is being re-fetched and put back in force. (As Athenz guarantees, the document of a domain speaks of roles of that domain only.)",
  ["schedules"],
  "all interleavings (up to a preemption bound) of the goroutines of one load of a document with several policies followed by, or (for re-fetches) concurrent with, checks over several roles, and every map iteration order",
  "tests run one accidental schedule; the deny-versus-allow overwrite needs a preemption between a lookup and a store",
  ["policy/daemon.go"],
  [("shared assertion map filled by one goroutine per policy", "policy/daemon.go:simplifyAndCachePolicy"), ("one goroutine per role feeding a result channel", "policy/daemon.go:CheckPolicyRoles"), ("re-fetch on expiry", "policy/daemon.go:Update expired hook")],
  [("role policies", "domain:role.role -> ordered assertions", "policy/daemon.go:policyd.rolePolicies")],
  ["policy.Daemon.CheckPolicyRoles"])

p("C04", "A policy refresh takes effect atomically, and a failed refresh changes nothing",
  "Every policy check made concurrently with refreshes is decided entirely on the outcome of one completed refresh: never on a mixture of two, on a partly loaded set, or on an empty one. Once a refresh has returned success every later check uses it or a newer one. A refresh that returns an error leaves the policies in force unchanged.",
  ["schedules", "fault_sequences"],
  "all interleavings up to a preemption bound of one refresh of several domains with concurrent checks, and all combinations of per-domain fetch outcomes over short refresh histories",
  "the tests never run a check during a refresh, and try single fault outcomes only",
  ["policy/daemon.go"],
  [("new cache built aside and swapped by one atomic pointer exchange", "policy/daemon.go:Update"), ("one pointer load per check", "policy/daemon.go:CheckPolicyRoles")],
  [("role policies pointer", "the policies in force", "policy/daemon.go:policyd.rolePolicies")],
  ["policy.Daemon.Update", "policy.Daemon.CheckPolicyRoles", "policy.Daemon.GetPolicyCache"])

p("C05", "Only authentic, unexpired policy documents are ever put in force",
  "A fetched policy document is put in force only if it carries an expiry time still in the future, its envelope signature verifies under the ZTS public key it names, and the signature over its policy data verifies under the ZMS public key it names, each key being looked up in that service's own key set. Any document failing any of these is rejected with an error and never influences a decision; the document held before stays in use.",
  ["inputs", "histories"],
  "every combination of single and double tampering (content, either signature, either key id, swapped ZTS/ZMS keys, missing or past expiry) of a valid document, presented as first or as later answer",
  "tests replace the verifier by stubs and check one failure at a time on a first fetch",
  ["policy/signed_policy.go", "policy/fetcher.go"],
  [("expiry, ZTS and ZMS signature checks", "policy/signed_policy.go:Verify"), ("verification before the fetched document is stored", "policy/fetcher.go:Fetch")],
  (), ["policy.Daemon.Update", "policy.Daemon.CheckPolicy"])

p("C06", "An expired policy document grants nothing until a newer one is obtained",
  "From the moment a domain's policy document has expired, no policy check succeeds on the strength of it; checks for that domain fail until a valid newer document has been obtained. This holds whatever sequence of refreshes, failed fetches, not-modified answers, purges and checks precedes or follows the expiry.",
  ["histories", "fault_sequences"],
  "all histories up to a length bound of time steps, refreshes with every fetch outcome (fresh document, not modified, failure) and checks, over documents of different lifetimes",
  "the tests never let a policy expire under a failing server and cannot enumerate histories over time",
  ["policy/daemon.go", "policy/fetcher.go"],
  [("cache entries carry the document's remaining lifetime", "policy/daemon.go:simplifyAndCachePolicy"), ("fallback to the held document when fetching fails", "policy/fetcher.go:FetchWithRetry")],
  [("held document", "last verified document with ETag", "policy/fetcher.go:fetcher.policyCache")],
  ["policy.Daemon.CheckPolicy"])

p("C07", "Policy fetching: bounded retries, last verified document kept, sound ETags",
  "One refresh of a domain makes at most one request plus the configured number of retries, stops at the first usable answer, and when all attempts fail continues with the most recently verified unexpired document if there is one and reports an error if there is none. A conditional request carries the ETag of exactly the document held and is made only while that document is further from expiry than the configured margin. A not-modified answer keeps the held document in force; any other status than 200 counts as a failure.",
  ["fault_sequences", "histories"],
  "all sequences of server answers (200 with/without ETag, 304, other statuses, transport error, undecodable, unverifiable) over several refreshes, with time moving across the expiry margin",
  "tests check single answers and fixed two-step scripts; the guarantee is about every sequence of answers",
  ["policy/fetcher.go"],
  [("retry loop", "policy/fetcher.go:FetchWithRetry"), ("If-None-Match handling and the tagged cache", "policy/fetcher.go:Fetch")],
  [("held document", "last verified document with ETag and ETag expiry", "policy/fetcher.go:fetcher.policyCache")],
  ["HTTP requests seen by the server", "policy.Daemon.Update", "policy.Daemon.CheckPolicy"])

p("C08", "After a successful key refresh lookups return exactly the published keys",
  "When a public-key refresh reports success, looking up a key id for ZTS or ZMS returns the key that service most recently published under that id and nothing for every other id, and never a key of the other service. A service whose refresh fails keeps the keys it had, and the other service is still refreshed. A later refresh never reports success while the keys in use differ from those the server publishes.",
  ["fault_sequences", "histories"],
  "all histories up to a length bound of refreshes in which each service independently answers with one of several key sets (with or without ETag, honouring If-None-Match), a corrupt key set, an error status, or not at all",
  "tests check single refreshes from a hand-made state; errors that leave an ETag without its keys need a two-step history",
  ["pubkey/daemon.go"],
  [("decode all keys, then store new and delete missing ones", "pubkey/daemon.go:Update"), ("ETag cache", "pubkey/daemon.go:fetchPubKeyEntries"), ("per-service lookup", "pubkey/daemon.go:getPubKey")],
  [("ZMS/ZTS key maps", "keys in use per service", "pubkey/daemon.go:AthenzConfig"), ("ETag cache", "per service ETag", "pubkey/daemon.go:pubkeyd.eTagCache")],
  ["pubkey.Daemon.Update", "pubkey.Provider"])

p("C09", "Key rotation has no gap",
  "A public key that is published both before and after a refresh can be looked up, and verifies signatures, at every moment during that refresh. A key looked up concurrently with a refresh is always either the key published under that id before it or the one published after it.",
  ["schedules"],
  "all interleavings up to a preemption bound of a refresh from one key set to another with concurrent lookups for kept, added, replaced and removed ids",
  "no existing test performs a lookup during a refresh",
  ["pubkey/daemon.go", "jwk/daemon.go"],
  [("store new keys before deleting old ones", "pubkey/daemon.go:Update"), ("JWK set replaced as a whole per URL", "jwk/daemon.go:Update")],
  [("ZMS/ZTS key maps", "keys in use", "pubkey/daemon.go:AthenzConfig"), ("JWK sets", "URL -> key set", "jwk/daemon.go:jwkd.keys")],
  ["pubkey.Provider", "jwk.Provider"])

p("C10", "A JSON web key comes only from the configured key-set URL the token names",
  "A key lookup with a key-set URL returns only a key with that id from the key set most recently fetched successfully from exactly that URL, which must be one of the configured URLs; with no key-set URL it uses the Athenz server's own key set, and with no key id it returns nothing. A failing fetch of one URL leaves that URL's keys as they were and does not prevent the others from being refreshed; the refresh then reports an error naming the failed URLs only.",
  ["fault_sequences", "histories", "inputs"],
  "all histories up to a length bound of refreshes where each of several URLs answers with one of several key sets, an invalid body, an error status or a transport error, followed by all lookups over (key id, URL) including unconfigured and empty ones",
  "tests use one refresh and a few lookups; isolation between URLs and retention across failures is a statement over histories",
  ["jwk/daemon.go", "jwk/option.go"],
  [("per-URL key sets", "jwk/daemon.go:Update"), ("lookup", "jwk/daemon.go:getKey")],
  [("JWK sets", "URL -> key set", "jwk/daemon.go:jwkd.keys")],
  ["jwk.Daemon.Update", "jwk.Provider"])

p("C11", "An access token is accepted only if authentic and within its validity",
  "An access token is accepted only if its signature verifies, with the algorithm its header names, under the key found for its key id (and key-set URL if it names one), it carries an expiry time that has not passed, and its issue and not-before times, where present, are not in the future. Unsigned tokens, tokens without a key id, with an unknown key, with a key that does not fit the algorithm, or altered in any part (the signature counting as the value it decodes to) are rejected. A token meeting all of this and the enabled certificate and client checks is accepted.",
  ["inputs"],
  "the full product of header variants (algorithm, key id, key-set URL), signature variants and time claim variants at, just before and just after the current time",
  "tests check selected combinations with far-away times; boundary and cross-combination behaviour is quantified over the product",
  ["access/processor.go", "access/claim.go"],
  [("key selection", "access/processor.go:keyFunc"), ("time claims", "access/claim.go:Valid")],
  (), ["access.Processor.ParseAndValidateOAuth2AccessToken"])

p("C12", "A certificate-bound access token works only with a certificate it is bound to",
  "With certificate binding enabled, an access token is accepted only together with a client certificate that either has the thumbprint the token confirms, or (if the token carries a thumbprint and the mismatch window is not zero) has a non-empty common name equal to the token's client id and a back-date-corrected issue time from the token's issue time up to the window later, or carries a URI listed among the token's confirmed proxy principals. A token without any confirmation, or presented without a certificate, is rejected. With binding disabled these conditions are not applied.",
  ["inputs", "configurations"],
  "the full product of confirmation claims (absent, matching, mismatching, wrong type), proxy-principal lists, certificate name/URI/issue-time variants at both window edges, and settings",
  "tests cover selected rows of the decision table; edges of the window combined with other fields are not enumerated",
  ["access/processor.go", "access/option.go", "authorizerd.go"],
  [("thumbprint, renewal window and proxy principal checks", "access/processor.go:validateCertificateBoundAccessToken"), ("window", "access/processor.go:validateCertPrincipal")],
  (), ["access.Processor.ParseAndValidateOAuth2AccessToken", "Authorizerd.AuthorizeAccessToken"])

p("C13", "With client-id verification, only listed (common name, client id) pairs pass",
  "With client-id verification enabled, an access token is accepted only together with a client certificate whose common name is configured with a list containing the token's client id, in addition to every other enabled check. Without it, the configured lists have no influence.",
  ["inputs", "configurations"],
  "all maps from up to two common names to lists of up to two client ids, all token client ids and certificate names (including empty and missing), both with and without certificate binding",
  "tests check a handful of pairs on one map",
  ["access/processor.go"],
  [("client id lookup by common name", "access/processor.go:validateClientID")],
  (), ["access.Processor.ParseAndValidateOAuth2AccessToken"])

p("C14", "A role token is accepted only if authentic, unexpired and signed by a known key",
  "A role token is accepted exactly when it is well formed, its expiry time has not passed, and the signature at its end verifies over all text before it under the ZTS key its key id names; the domain, roles, principal and times used are those in the signed text. A token that lacks an expiry or key id, or in which any signed character, the signature or the key id is altered, is rejected.",
  ["inputs"],
  "all tokens built from subsets and orders of the fields with boundary expiry times, every single-character substitution, deletion and truncation of a valid token, and every key/service variant",
  "tests use a few literal tokens with stubbed verification",
  ["role/processor.go", "role/token.go"],
  [("parse up to the signature marker", "role/processor.go:parseToken"), ("expiry, key and signature checks", "role/processor.go:validate")],
  (), ["role.Processor.ParseAndValidateRoleToken", "Authorizerd.AuthorizeRoleToken"])

p("C15", "A remembered acceptance is reused only for the very same request",
  "While an earlier acceptance is remembered, it is used only for a request with the same kind of credential, the same token, the same client certificate, the same action, the same resource and (when a translator is used) the same query. No choice of tokens, certificate names, actions, resources or queries, whatever characters they contain, lets a request be accepted on the strength of a different one. Hence a request is accepted with remembered acceptances only if it would be accepted without them.",
  ["histories", "inputs"],
  "all ordered pairs of requests over an alphabet of tokens, certificates, actions, resources and queries containing the separator and escape characters, first warming the memory, then asking",
  "collisions need pairs of requests; tests check that the same request is served from memory, not that a different one is not",
  ["authorizerd.go"],
  [("memory key", "authorizerd.go:authorize")],
  [("success cache", "key -> principal", "authorizerd.go:authority.cache")],
  ["Authorizerd.AuthorizeAccessToken", "Authorizerd.AuthorizeRoleToken", "Authorizerd.Authorize"])

p("C16", "Remembered acceptances end with their lifetime and rejections are not kept",
  "An acceptance is remembered for at most the configured lifetime after the full evaluation that produced it; using it does not extend it, and the first request after that is evaluated afresh against the current keys, policies and time. A rejection is never remembered: as soon as the token, keys or policies would allow the request, it is accepted.",
  ["histories"],
  "all histories up to a length bound of requests, time steps around the lifetime, policy changes and key changes",
  "tests look at the expiry value stored, never at behaviour over time",
  ["authorizerd.go"],
  [("store with lifetime on success only", "authorizerd.go:authorize")],
  [("success cache", "key -> principal", "authorizerd.go:authority.cache")],
  ["Authorizerd.AuthorizeAccessToken", "Authorizerd.AuthorizeRoleToken"])

p("C17", "A request is accepted exactly if some enabled kind of token in it is accepted",
  "Checking an HTTP request accepts it exactly when the bearer access token of its Authorization header (with the client certificate of its TLS connection, if any) or the role token in the configured header is accepted for the given action and resource, considering only the kinds that are enabled; the principal returned is the one of a credential that was accepted. Otherwise it fails with the invalid-credentials error. The verify and authorize forms of the token and request operations always agree on acceptance.",
  ["inputs", "configurations"],
  "the product of enabled kinds, header contents (absent, malformed, invalid, valid, denied), TLS state and policy outcome",
  "tests call single authorizers through mocks; the product of configurations and credentials is not enumerated",
  ["authorizerd.go", "option.go"],
  [("list of authorizers with OR logic", "authorizerd.go:initAuthorizers/Verify/Authorize")],
  (), ["Authorizerd.Verify", "Authorizerd.Authorize", "Authorizerd.VerifyRoleToken", "Authorizerd.VerifyAccessToken"])

p("C18", "A role certificate grants exactly what the roles named in it grant",
  "Verifying role certificates succeeds exactly when, for some domain, the set of roles of that domain named by the presented certificates' common names (domain:role.name) and role URIs (configured prefix, domain, slash, role) is allowed by the policies; every role named counts, including for explicit denial within its domain. Certificates naming no role are rejected. With policy checking disabled no policy decision is made and verification succeeds.",
  ["inputs"],
  "all lists of up to two certificates with common names and URIs over an alphabet of domain/role pairs including pairs that look alike when joined, against all small policy sets",
  "tests use a few certificates with mocked policy checks",
  ["authorizerd.go"],
  [("role extraction and de-duplication", "authorizerd.go:VerifyRoleCert")],
  (), ["Authorizerd.VerifyRoleCert"])

p("C19", "Request translation is deterministic, first-match and literal",
  "Translating (domain, method, path, query) yields the action and resource of the first rule of that domain whose method (ignoring case), path segments and complete set of single-valued query parameters match, with each placeholder in the rule's resource replaced once by the text it matched; text taken from the request is never interpreted further. If no rule matches, method and path are returned unchanged. Invalid rule sets (missing fields, path without leading slash, empty or duplicated placeholders, repeated query parameters) are refused at construction.",
  ["inputs", "configurations", "schedules"],
  "all rule lists up to two rules over an alphabet of path segments, placeholders and query parameters, all requests over a like alphabet including segments that look like placeholders, under every map iteration order",
  "tests use fixed rules and benign requests; results depending on map order are not reproducible in tests",
  ["translator.go"],
  [("rule matching and placeholder substitution", "translator.go:Translate"), ("rule validation", "translator.go:validate")],
  (), ["NewMappingRules", "MappingRules.Translate"])

p("C20", "The returned principal is that of the credential, with its authorised roles",
  "On acceptance the returned principal carries exactly the accepted token's principal name, domain, roles, issue and expiry times (and client id for an access token), and its authorised roles are exactly those of its roles that the policies allow for the given action and resource, none when policy checking is disabled. This is so also when the acceptance is served from memory, after translation, and with a resource prefix, which are applied before the policy check; an empty action or resource is refused when policies are checked.",
  ["inputs", "histories", "configurations"],
  "all small tokens of both kinds times policy sets times settings (policy on/off, translator, prefix), each asked twice",
  "tests compare a few literals produced by mocks",
  ["authorizerd.go", "principal.go"],
  [("principal construction and policy check", "authorizerd.go:authorize")],
  (), ["Authorizerd.AuthorizeAccessToken", "Authorizerd.AuthorizeRoleToken", "Principal"])

p("C21", "Background refreshers keep refreshing, report failures and retry until success",
  "Once started, each background refresher (public keys, policies, JSON web keys) performs a refresh every configured period; when a refresh fails it reports an error on its stream and tries again, waiting at most the retry delay between attempts, until a refresh succeeds, without waiting for the next period. No sequence of failures stops a refresher, and each recovery makes the current server data effective. (A policy refresh that falls back on unexpired policies fetched earlier for the domains it could not fetch has not failed. Reports are expected to be read.)",
  ["fault_sequences", "schedules"],
  "all sequences up to a length bound of refresh outcomes, and interleavings of the ticker, the failure queue and the consumer of the error stream",
  "tests run with real timers for a few periods and one failure pattern",
  ["pubkey/daemon.go", "policy/daemon.go", "jwk/daemon.go", "authorizerd.go"],
  [("ticker plus failure queue loop", "*/daemon.go:Start")],
  (), ["error streams", "HTTP requests seen by the server over time"])

p("C22", "Cancelling the context stops all background work and closes the error streams",
  "After the context given to start (and to refreshes) is cancelled at any moment, every background goroutine of the library ends after finite time, no further server request is made once they have ended, and every error stream, including the combined one, delivers the cancellation error and is then closed, provided its consumer keeps reading. While it runs, refreshing again and again does not pile up background goroutines.",
  ["schedules", "fault_sequences"],
  "cancellation at every point of refresh/retry cycles under interleavings up to a preemption bound",
  "tests cancel at one moment and do not look for leftover goroutines",
  ["authorizerd.go", "pubkey/daemon.go", "policy/daemon.go", "jwk/daemon.go"],
  [("select on the context in every loop", "*/daemon.go:Start, authorizerd.go:Start")],
  (), ["Authorizerd.Start", "pubkey/policy/jwk Daemon.Start"])

p("C23", "Initialisation loads keys before policies and reports every failure",
  "Initialisation returns success only if every enabled data source was loaded: the public keys of both services, then (only after these were loaded, and verified with them) the policies of every configured domain, and the JSON web keys of every configured URL; after success every check works on that data at once. If any enabled source fails, or the context is cancelled before, it returns an error. Disabled sources are never contacted.",
  ["configurations", "fault_sequences", "schedules"],
  "every combination of enabled sources and per-source outcome, and all interleavings up to a preemption bound of the parallel loading",
  "tests mock the sources and try a few outcomes in one schedule",
  ["authorizerd.go"],
  [("errgroup with ordered updates", "authorizerd.go:Init"), ("construction of the enabled parts", "authorizerd.go:New")],
  (), ["Authorizerd.Init", "HTTP requests seen by the server"])

p("C24", "The retrying HTTP transport returns the real response and bounds its attempts",
  "The retrying transport sends the request at most the configured number of times, at least once when that is positive, retrying only after a temporary error (and only while the next wait ends within the time limit) or a retryable status (429, 500, 503, 504). The waits are those of its documented exponential schedule. What it returns is the last attempt's outcome, and a returned response has its body unread and open for the caller; responses it does not return have their bodies closed.",
  ["fault_sequences"],
  "all sequences of per-attempt outcomes (each status class, temporary and permanent error) up to the attempt bound, for several bounds and time limits",
  "the package has no tests at all",
  ["client/exp_rt.go"],
  [("retry loop", "client/exp_rt.go:RoundTrip")],
  (), ["client.ExponentialRoundTripper.RoundTrip"])

p("C25", "No server answer, credential or configuration makes the library crash",
  "Whatever a server answers to a key, policy or JWK request (any status, header or body, including well-formed JSON of an unexpected shape) and whatever tokens, headers and certificates are presented, the library neither panics nor blocks: refreshes return an error or succeed, and checks accept or reject. This holds in every combination of enabled and disabled parts, and a bad answer leaves the data in use as it was. Settings which cannot work, such as a refresh period that is not positive, are refused at construction.",
  ["inputs", "fault_sequences", "configurations"],
  "a grammar of malformed answers per endpoint at every position of short refresh histories, a grammar of malformed credentials, in every configuration of enabled parts",
  "tests feed a handful of malformed bodies",
  ["policy/fetcher.go", "policy/signed_policy.go", "policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go", "role/processor.go", "access/processor.go", "authorizerd.go"],
  [("error returns at every decoding step", "*/daemon.go, policy/fetcher.go"), ("not-modified handling", "policy/fetcher.go:Fetch, pubkey/daemon.go:fetchPubKeyEntries")],
  (), ["Authorizerd", "pubkey/policy/jwk Daemon.Update"])

p("C26", "A cancelled check never grants access",
  "If the context of a policy check is cancelled before or while it runs, the check either returns an error or the full correct decision over all given roles; it never grants access on the evaluation of only some of the roles or assertions, and it always returns.",
  ["schedules"],
  "all interleavings up to a preemption bound of a check over several roles with allow and deny assertions and a concurrent cancellation",
  "tests cancel before the call in one schedule only",
  ["policy/daemon.go"],
  [("cancellation reported as a failing role effect", "policy/daemon.go:CheckPolicyRoles")],
  (), ["policy.Daemon.CheckPolicyRoles"])

p("C27", "Log output never contains a usable token",
  "At every log level, whatever is checked and whatever the outcome, nothing written to the log contains the signature of a presented role token or access token, nor any text from which the complete token could be reassembled.",
  ["inputs", "histories"],
  "all small histories of accepted, cached, rejected and malformed tokens of both kinds at the most verbose log level",
  "tests check the masking helper on a few strings, not what reaches the log",
  ["mask.go", "authorizerd.go", "role/processor.go", "access/processor.go"],
  [("token and key masking", "mask.go"), ("log statements", "authorizerd.go:authorize")],
  (), ["glg output"])

p("C28", "Settings take effect as given; the Athenz server is contacted over https only",
  "Construction refuses an Athenz URL with a scheme other than http or https, a JWK URL that is not an absolute http(s) URL, a malformed duration, a refresh or purge period that is not positive, and a configuration with no enabled kind of credential; otherwise every setting given takes effect and every setting not given has its documented default, the last of repeated settings winning. Requests to the Athenz server for keys, policies and JSON web keys always go to https at exactly the configured host and path, whatever scheme was written in front of it.",
  ["configurations", "inputs"],
  "all URLs over a small grammar of schemes, hosts and paths, all durations over a small grammar, and all subsets of the enable/disable settings",
  "option tests set one field at a time and look at the private field, not at what is contacted or enforced",
  ["option.go", "policy/option.go", "pubkey/option.go", "jwk/option.go", "access/option.go", "internal/url/util.go"],
  [("scheme trimming and checking", "internal/url/util.go"), ("functional options over defaults", "option.go:New")],
  (), ["authorizerd.New", "HTTP requests seen by the server"])

p("C29", "The policy dump shows exactly the policies in force",
  "The policy data handed out for inspection contains, for every role of the policies in force, exactly that role's assertions (effect, action, resource; an allowance with the very texts of a denial of the role may be left out), denials first, and nothing for roles without unexpired assertions; taking it never changes a later decision. Taken during a refresh it shows the complete old or the complete new policies.",
  ["histories", "schedules"],
  "all small policy sets, refresh histories and expiry times, and interleavings up to a preemption bound of a dump with a refresh",
  "tests compare one stored map",
  ["policy/daemon.go", "authorizerd.go"],
  [("copy of the current cache", "policy/daemon.go:GetPolicyCache")],
  (), ["Authorizerd.GetPolicyCache", "policy.Daemon.GetPolicyCache"])

p("C30", "Concurrent checks do not influence one another",
  "Any number of authorisation checks running concurrently, with each other and with key and policy refreshes that do not change the data relevant to them, each return the decision and principal they would return if run alone.",
  ["schedules"],
  "all interleavings up to a preemption bound of two or three concurrent checks with different tokens, certificates, actions and resources, cold and warm memory",
  "tests never run two checks concurrently",
  ["authorizerd.go", "access/processor.go", "role/processor.go", "policy/daemon.go", "translator.go"],
  [("no shared mutable state besides concurrent caches", "authorizerd.go:authorize")],
  (), ["Authorizerd.AuthorizeAccessToken", "Authorizerd.AuthorizeRoleToken", "Authorizerd.Authorize"])

p("C31", "Every answer's body is closed when its refresh returns",
  "Whatever the servers answer (any status, header or body, also one that breaks off), and whenever the context is cancelled, the body of every response received for policies, public keys or key sets has been closed once the refresh that received it has returned, with the default and with the retrying HTTP transport, and no body is read after it was closed: refreshing never leaks connections.",
  ["faults", "schedules", "histories"],
  "every status, body shape and read failure at every request of a refresh, sequences over several refreshes, and cancellation at every point",
  "tests use servers whose answers are complete and do not look at the bodies",
  ["policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "client/exp_rt.go"],
  [("bodies are drained and closed", "policy/fetcher.go:flushAndClose"), ("key set client", "jwk/daemon.go:Update"), ("retries", "client/exp_rt.go:RoundTrip")],
  (), ["policy.Daemon.Update", "pubkey.Daemon.Update", "jwk.Daemon.Update", "Authorizerd.Init"])

p("C32", "Authorizers created in one process are independent of each other",
  "What one authorizer is configured with, has loaded, has accepted or refused, and its being created, started, refreshed or stopped, never changes a decision or principal of another authorizer in the same process, even if both use the same server address, domains, key ids, ETags and tokens; creating one sends no request.",
  ["histories", "schedules"],
  "all short histories of publishing, loading, stopping, waiting and creating with two authorizers that differ in their data and in one setting of each kind, and interleavings of their requests and refreshes",
  "tests create one authorizer at a time and look at it alone",
  ["authorizerd.go", "option.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "role/processor.go", "access/processor.go", "translator.go"],
  [("all state is in the authority", "authorizerd.go:New"), ("default options are not changed", "option.go:defaultOptions")],
  (), ["authorizerd.New", "Authorizerd.Init", "Authorizerd.Start", "Authorizerd.Authorize"])

p("C33", "Memory and goroutines in use do not grow with requests and refreshes served",
  "In a started authorizer, requests and refreshes leave nothing behind for good: however many requests with ever new tokens, certificates, actions, resources and queries are accepted or refused, and however often keys, key sets and policies with ever new names and tags are loaded, fail to load or expire, the memory in use and the goroutines alive return, once the memory lifetime and the purge periods have passed, to what the settings and the data in force need.",
  ["histories", "faults"],
  "every kind of request and refresh, and combinations of them, repeated hundreds of times with ever new texts under several settings, comparing the heap in use and the goroutines alive from round to round",
  "tests run each operation a few times and never look at what stays in memory",
  ["authorizerd.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "role/processor.go", "access/processor.go", "translator.go", "client/exp_rt.go"],
  [("purge of remembered acceptances", "authorizerd.go:Start"), ("replaced tables", "policy/daemon.go:Update"), ("keys no longer published are removed", "pubkey/daemon.go:Update")],
  (), ["Authorizerd.Start", "Authorizerd.Init", "Authorizerd.Authorize"])



out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
