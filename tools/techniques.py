DEF_T="bounded exhaustive exploration of the real code (stateless model checking under a controlled scheduler and environment)"
DEF_N="every execution below the stated bounds is run on the real code and compared with a reference model"
TECH={
 'C01':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every document of up to 3 (thorough 4) assertions over roles x effects x actions x resources, in every order and every placement into policies, is signed, fetched, verified and loaded by the real code; every listed request is compared with a reference interpreter. Bounds: texts incl. commas, mixed case, wildcards and unknown effects; requests over 3 roles in every list of up to 3. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C02':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock',"Space: every pattern and every string over a letter/upper case/wildcard/metacharacter alphabet up to a length, in the place of action, resource and domain, through load and check, against a recursive glob matcher. Bounds: strings up to length 3-4 (thorough one more); all 95 printable characters alone and next to wildcards; a newline in a request is outside the statement (the library's `*` does not match it). Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16)."),
 'C03':('stateless model checking of the real code under a controlled scheduler and virtual clock',"Space: every interleaving (bounded preemptions, every map and select order) of the goroutines which load documents, evaluate roles and re-fetch expired documents; every execution's decision must be that of the sequential reference, and every execution must end. Bounds: 1-3 policies, 1-2 roles, 1-2 domains; preemption bounds per scenario below, switches at blocking points unbounded in the small scenarios. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16)."),
 'C04':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every interleaving of one or two refreshes (successful, failing) with checks, and every sequence of refreshes over an answer alphabet; each check must equal the decision under one refresh of its real-time window. Bounds: 1-2 refreshes, 1-2 checks, 2 domains; preemption bounds per scenario below. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C05':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every combination of expiry x signing key x named key x signed content x tampering for both signatures with and without a document held, every single-byte mutation of a valid document (also presented while the valid one is held), and every history of 14 documents to depth 3 (thorough 4); real signatures, against an independent validity predicate. Bounds: RSA and EC keys, both key tables; mutations: every byte x several replacements. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C06':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock',"Space: every sequence of server behaviours, refreshes, purges and clock advances to just before, at and just after expiry, every version's decision after every step; every document shape x lifetime x probe time. Bounds: depth 5 (thorough 6); lifetimes from a nanosecond up. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16)."),
 'C07':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every sequence of answers to the single attempts of up to 3 refreshes x clock advances x configurations, compared request by request with an explicit fetcher state machine (conditional headers, held document, result). Bounds: attempts 0-2; answers 200/304/other statuses/transport errors/garbage with every entity tag variant. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C08':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every sequence of server states x answer modes for one key service combined with every behaviour class of the other, clock advances past the tag lifetime, and every interleaving of two refreshes during a rotation, against a reference key table. Bounds: depth 3 (thorough 4); key sets incl. empty, undecodable and same ids with other keys. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C09':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every interleaving of refreshes (rotation, removal, failure) with lookups and signature verifications: each lookup returns the key before or after, a key published in both is never absent. Bounds: preemption bounds per scenario below, 1-2 lookups, 1-2 services. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C10':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every sequence of per-URL answers over three key-set URLs, every (key id, URL) lookup after every refresh, every interleaving of refreshes with lookups, against a table of the last good set per URL. Bounds: depth 3 (thorough 4). Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C11':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every combination of named algorithm x actual signer x key id x key-set URL, every combination of times around now, every exchange of parts between tokens, every replacement/insertion/deletion of a character, against an independent verifier with real cryptography. Bounds: 12 algorithms; header values of every JSON type; times at whole seconds and fractions of one. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C12':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every combination of configuration x confirmation x client id x certificate (absent, thumbprint, names, issue time around every boundary, URIs), on the processor and through the authorizer, against a reference predicate. Bounds: issue times at every boundary +-1 s; URI and name alphabets with near misses. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C13':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every combination of configured lists x common name x client id x other checks enabled, on the processor and through the authorizer, against a reference predicate. Bounds: lists of up to 2 names x 2 ids, near misses in case and blanks. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C14':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every order and selection of fields, every boundary value of the times, every key id against every key table, every replacement/insertion/deletion of a character, every exchange of signatures, against an independent parser and verifier. Bounds: times at whole seconds and fractions; times beyond int64 and the very instant of expiry are outside the statement. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C15':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock',"Space: every ordered pair of requests over adversarial alphabets (delimiters inside every field): the answer with remembered acceptances equals that of a fresh instance. Bounds: strings over {letter, ':', '\\\\'} up to length 2 (thorough 3) as action and resource; tokens, certificate names and queries with delimiters. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16)."),
 'C16':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every sequence of requests, clock advances and changes of policies and keys to a depth, for several lifetimes; an acceptance needs a true evaluation within the lifetime; plus the conformance of the cache stand-in with the real third-party cache (every operation sequence, every interleaving). Bounds: depth 5 (thorough 6); lifetimes incl. absent, tiny and not positive. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C17':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every configuration x Authorization header x role header x TLS state x requested action against the disjunction of the enabled kinds; every verify form against its authorize form. Bounds: headers with schemes in every case, several values, missing parts; a token without scheme or after two blanks is outside the statement. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C18':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every list of up to two (thorough three) certificates over an alphabet of common names and URIs x documents x prefixes x map orders against a reference role extraction and decision. Bounds: 5-9 names and 7-9 URIs. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C19':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every rule over the field alphabets (validity), every one- and two-rule set x every request over the segment and query alphabets, every map order for several placeholders, against an independent parser, first-match search and single-pass substitution. Bounds: paths of up to 3 segments, two query parameters; texts that look like placeholders, escapes, flags. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C20':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every configuration x token x action, resource and query, evaluated cold, from memory in the opposite order and after the lifetime; the complete principal is compared with the credential and the reference decision. Bounds: role lists of up to 4, both kinds of token, prefix and translator. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C21':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every script of refresh results up to the length bound for each refresher on the virtual clock: bounds on every gap between requests, a report per failed refresh, data in force after each recovery; long and unread failure runs. Bounds: 7 results, length 4 (thorough 6); up to 450 failures in a row, read, read late and unread. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C22':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: cancellation at every instant of a grid over two cycles x server behaviour x way of reading, and every interleaving of a cancellation with start, tick, running request, retry and expiry; then no goroutine is left, streams end with the cancellation error and are closed, no request afterwards. Bounds: preemption bounds per scenario below. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C23':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every combination of enabled sources x outcome of each request of the first loading followed by a loading with a healthy server, and every interleaving of the parallel loading, against the conjunction of the outcomes and the order of the requests. Bounds: outcomes: success, every failure class, unpublished keys, cancellation while answered. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C24':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every sequence of per-attempt outcomes up to the attempt bound x attempt bounds x time limits x factors on the virtual clock against an explicit retry automaton; every body tracked; also through http.Client. Bounds: up to 5 attempts (thorough 6); all status classes, temporary and permanent errors, responses together with errors. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C25':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every answer of a shape grammar to key, policy and JWK requests before and after good data, every credential shape through every entry point in every combination of enabled parts, every setting of every option: no panic, no endless wait, data unchanged after an error. Bounds: JSON shapes: every field absent/null/of every other type, correctly signed where needed; statuses x tags. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C26':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every interleaving of a check over up to three roles with a cancellation (two checks sharing the context; a refresh), and every placement of a cancelled context over longer role lists; grant only with the full correct decision, always return. Bounds: preemption bounds per scenario below. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C27':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every ordered pair (thorough triple) of requests over accepted, remembered, rejected and malformed tokens of both kinds in every position x configurations with everything logged captured: no signature in any of several encodings, nor all its pieces. Bounds: every log level of glg. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C28':('exhaustive enumeration of bounded operation sequences and inputs on the real code under a controlled scheduler, server and virtual clock','Space: every URL of a grammar of schemes, hosts and paths, every duration of a grammar for every duration setting, every sequence of up to 4 enable/disable settings, every setting absent, once, twice, through the authorizer and the daemons alone; against the URLs, times and headers the server sees. Bounds: upper case and doubled schemes may be refused or accepted; trailing slash, empty URL and host-less key set URL are outside the statement. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C29':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every document of up to 3 (thorough 4) assertions, dumped and compared, decisions before and after; every history of refreshes, failures and clock advances with a dump after each step; every interleaving of dumps with refreshes, expiry and checks: each dump is one complete generation. Bounds: preemption bounds per scenario below. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C30':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every pair (and chosen triples) of requests of a pool with shared and different tokens, certificates, actions and resources, cold, half warm and warm memory: every interleaving of them, alone and with refreshes of unrelated data; reference: each request alone in an authorizer of its own. Bounds: preemption bounds per scenario below, switches also at shared memory accesses. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C31':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every status x body shape x read failure at every request of a refresh, with and without data held, directly and through the retrying transport; every sequence of answers over several refreshes; cancellation at every scheduling point of a refresh; oracle: a recording body per response, closed when the refresh has returned and never read afterwards. Bounds: sequences of up to 3 answers, 1 preemption for cancellations. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C32':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: two authorizers with the same address, domains, key ids, tags and tokens, different data and one setting of each kind given differently: every sequence of publish, load, stop, wait and create-another with every request to both after each step; every interleaving of a request to one with a request to, or a refresh of, the other; reference: the decision each authorizer would make alone. Bounds: sequences of 3 (thorough 4) operations, 1 (thorough 2) preemptions, switches also at shared memory accesses. Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
 'C33':('stateless model checking of the real code under a controlled scheduler and virtual clock','Space: every kind of request and refresh (40 kinds; thorough: every ordered pair) repeated in rounds with ever new tokens, certificates, actions, resources, queries, keys, policies and tags, and all requests together with each kind of refresh under every one of five further settings; after each round the lifetimes pass on the virtual clock, garbage is collected, and the heap in use and the goroutines alive are compared. Bounds: up to 500 repetitions per round, 6 to 16 rounds; growth counts when it is seen in several rounds of three successive windows of four rounds (this leaves out single growths of the runtime, and leaks below about 4 bytes per request). Exhaustive below these bounds (evidence: exhaustive, completed_bound per scenario), nothing is claimed above them. Trusts the instrumentor, the virtual scheduler (sequentially consistent memory) and the gache/fastime stand-ins (conformance checked in C16).'),
}
NA={}
