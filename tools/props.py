NET = ("A loopback HTTP world serves statements signed by an independent JOSE implementation; the library under test is the real one, "
       "with its real HTTP client. ")
EXPL = "Runtime exploration of generated executions; nothing is proved beyond the executions observed. "

prop("C01", "Only genuinely valid trust chains are ever returned",
 "Every trust chain handed out as valid starts with a self-signed configuration of the requested entity and ends at one of the "
 "configured trust anchors, each link being a currently valid statement of the required token type that is about the right subject, "
 "is issued by an entity named in the subordinate's authority hints, and is signed with a key that the next superior statement (or the "
 "anchor's own configuration, and the pinned anchor keys if given) attests. No forged, replayed, re-signed, re-typed, expired or "
 "key-confused statement, and no collusion of entities below the anchor, can put another chain into the result. Without a cache this "
 "is judged by what is published now, whatever was published when the same entities were resolved before.",
 ["inputs", "configurations"],
 "all federations (graphs of anchors, intermediates, leaves, cycles), all hostile statements on any position, all anchor configurations, all ways to run a resolver",
 "the tests use a handful of honest mock federations; the property is about every hostile statement at every position",
 ["trustresolver.go", "trustchain.go", "entitystatement.go", "internal/jwx/jws.go", "jwks/jwks.go"],
 [("tree resolution and signature verification", "trustresolver.go: TrustResolver, trustTree"),
  ("signature and type verification", "internal/jwx/jws.go: ParsedJWT"), ("time validity", "entitystatement.go: TimeValid")],
 "runtime monitor: returned chains vs independent three-valued reference resolver under attack workloads",
 NET + EXPL + "Chains whose validity depends on the instant or on unspecified key selection are judged undecided and never alarm.")

prop("C02", "Every valid trust chain is found and resolution always terminates",
 "If published statements form a valid chain from the entity to a configured trust anchor, that chain is among the results, "
 "whatever other superiors are broken, unreachable, hostile or cyclic. Resolution ends for every finite federation graph, including "
 "cyclic, very deep and very wide ones, and a federation that changes is resolved as it is now where nothing is cached; local metadata resolving agrees with the chains and prefers the shortest.",
 ["inputs", "configurations", "fault_sequences"],
 "all federation graphs incl. cycles, repeated hints, dead and hostile superiors, deep lines",
 "the tests know three fixed federations without cycles or broken superiors",
 ["trustresolver.go", "trustchain.go", "metadata_resolver.go"],
 [("tree resolution", "trustresolver.go: trustTree.resolve"), ("chain enumeration", "trustresolver.go: trustTree.chains"),
  ("local resolving", "metadata_resolver.go: LocalMetadataResolver")],
 "runtime monitor: completeness against independent reference resolver; hang watchdog",
 NET + EXPL + "Termination is judged by request bounds and a watchdog that counts 300 ticks for cases that take milliseconds.")

prop("C03", "Superiors' constraints are enforced exactly",
 "A chain is accepted if and only if it satisfies the maximum path length, the permitted and excluded name constraints and the "
 "allowed entity types of every statement in it, each counted from and applied to everything below the position where it stands. "
 "No constraint of a superior can be escaped by a subordinate and no chain that satisfies them is refused.",
 ["inputs", "configurations"], "all constraints on any position of a chain of any length, all host names, all entity types",
 "the tests check single constraints on few chains; the positions, combinations and name forms are unbounded",
 ["trustresolver.go", "entitystatement.go"],
 [("constraint checks", "trustresolver.go: checkConstraints"), ("constraint specification", "entitystatement.go: ConstraintSpecification")],
 "runtime monitor: accept/reject vs independent constraint evaluator",
 NET + EXPL + "The allowed_entity_types semantics follow the specification (federation_entity always allowed).")

prop("C04", "Nothing expired is used and nothing is cached beyond its expiry",
 "A statement whose lifetime has ended or not begun never takes part in an accepted chain, from the network or from any cache. "
 "Whatever is put into a cache (statements, trust trees, chains, resolved metadata) gets a positive lifetime not beyond the earliest "
 "expiry of the statements it was derived from, so that results disappear from the cache no later than they become invalid.",
 ["inputs", "histories"], "all combinations of issue and expiry times, all sequences of resolutions and passing of time",
 "tests use statements with one fixed lifetime and do not observe the cache",
 ["entitystatement.go", "trustresolver.go", "trustchain.go", "cache/cache.go"],
 [("time validity", "entitystatement.go: TimeValid"), ("cache lifetimes", "trustresolver.go, trustchain.go, entitystatement.go: cache.Set calls")],
 "runtime monitor: cache event log with embedded tokens decoded, virtual clock in the cache, live expiry",
 NET + EXPL + "The library's clock cannot be moved without hooks; real expiry is observed on short-lived statements, cache expiry with a movable clock.")

prop("C05", "Caching never changes what a user sees",
 "Resolving with a cache, whatever was resolved before with whatever parameters, gives the same chains, the same parsed statements "
 "and the same metadata as resolving without one, as long as the published statements do not change. A cache that fails, loses "
 "entries or returns garbage may cost time but never changes the outcome, and changes the user makes to results never leak into later ones.",
 ["histories", "configurations", "fault_sequences"], "all sequences of calls with different anchors, pins, types and entry points; all cache failures",
 "tests use one in-memory cache with one sequence and do not compare",
 ["trustresolver.go", "trustchain.go", "entitystatement.go", "metadata.go", "cache/cache.go"],
 [("cached trees, chains, metadata, statements", "trustresolver.go, trustchain.go, entitystatement.go"),
  ("binary encoding of cached values", "metadata_generated.go, jwks/jwks.go, unixtime/unixtime.go")],
 "runtime differential monitor: cached vs uncached runs over call histories and injected cache faults",
 NET + EXPL + "Incl. a comparison of both with the reference resolver.")

prop("C06", "Metadata policies are merged and applied as specified",
 "The metadata resolved from a chain is exactly what the policies of all superiors prescribe for the claims of the subject, for every "
 "combination of policy operators (also those, and policy verifiers, that a program registers), claim types and entity types known or unknown, and "
 "resolution fails exactly if the policies conflict or the metadata violates them. The outcome is the same through the exported merge and apply functions, through chains and "
 "through the local resolver.",
 ["inputs"], "all policies on chains of any length, all metadata values, all entity types and claims",
 "the repository has 2019 vectors for two policies on four claims of one entity type; other claims, types and depths are not covered",
 ["metadataPolicy.go", "policyoperators.go", "policyverifiers.go", "metadata.go", "internal/utils/slices.go", "trustchain.go"],
 [("merging", "metadataPolicy.go: MergeMetadataPolicies"), ("operators", "policyoperators.go"), ("combination checks", "policyverifiers.go"),
  ("application", "metadata.go: Metadata.ApplyPolicy")],
 "runtime monitor: outcome vs independent policy interpreter (validated on the published vectors)",
 EXPL + "Policies are only generated for entity types the subject has and operators only for claims of a suitable type; empty struct-backed claims equal absent ones.")

prop("C07", "No subordinate can loosen a superior's metadata policy",
 "Whenever metadata is resolved, every operator that any superior in the chain put on a claim holds for the resolved claim, no matter "
 "what intermediates and the subject say; claims without policy stay as published. Unknown operators are ignored unless a superior "
 "declares them critical, in which case no metadata results from the chain.",
 ["inputs", "configurations"], "all policies of all superiors, all metadata, all unknown and critical operators",
 "tests check merge results of pairs of policies, not the guarantee to each single superior",
 ["metadataPolicy.go", "policyoperators.go", "policyverifiers.go", "metadata.go", "trustchain.go"],
 [("critical operators", "trustchain.go: TrustChain.Metadata"), ("unknown operators", "metadataPolicy.go: mergeMetadataPolicyEntries")],
 "online checker: every operator of every statement of the chain against the resolved metadata",
 EXPL + "The checker never merges policies, so it is independent of C06's model.")

prop("C08", "Computing metadata has no side effects on statements or other results",
 "Resolving metadata leaves policies, metadata and statements as they were signed; the result for one chain does not depend on which "
 "other chains were evaluated before or at the same time, results already handed out do not change, and neither do the lists policy operators "
 "were registered with.",
 ["histories", "schedules"], "all orders and interleavings of metadata computations over chains that share statements",
 "tests apply one policy once; aliasing shows only on shared inputs, and races only under concurrency",
 ["metadata.go", "metadataPolicy.go", "internal/utils/slices.go", "trustchain.go"],
 [("set operations", "internal/utils/slices.go"), ("application", "metadata.go: applyPolicy")],
 "race detector and snapshot oracles over repeated, permuted and concurrent evaluation",
 NET + EXPL + "Interleavings are those the Go scheduler produced under stress with the race detector.")

prop("C09", "Trust marks and delegations are accepted exactly if they are genuine",
 "A trust mark verifies in a federation exactly if it is correctly signed and typed, in its validity period, about the entity that presents it, "
 "and issued by an entity the trust anchor authorizes for that type: listed as issuer or, where the type has an owner, carrying a delegation "
 "genuinely issued by that owner to that issuer for that type; a type that the anchor says nothing about may be issued by any entity of the "
 "federation. The same holds for delegations alone, for verification with external keys, "
 "and for the trust marks that filters, resolve responses and collectors report; without a cache, keys, issuers and owners count as they "
 "are published now.",
 ["inputs", "configurations", "histories"], "all trust marks, delegations, owner and issuer tables, keys and mutations of any of them",
 "tests use a handful of marks; every check must be there for every way a mark can be forged, replayed, lent or outdated",
 ["trustmark.go", "delegation.go", "entitystatement.go", "trustmarkinfo.go", "jwks/jwks.go"],
 [("verification in a federation", "trustmark.go: TrustMarkInfo.VerifyFederation"), ("delegation", "delegation.go: DelegationJWT.VerifyFederation"),
  ("trust marks of an entity", "trustmark.go: TrustMarkInfos")],
 "runtime monitor: verdicts vs an independent mark verifier over generated and mutated marks",
 NET + EXPL)

prop("C10", "Issued trust marks and delegations say what was configured and verify",
 "Every trust mark and delegation the library issues is a correctly typed and signed JWT with exactly the configured claims: issuer, subject, "
 "type, logo, ref, delegation, extra claims, issue time, and the lifetime asked for (or none). It verifies with the issuer's keys, and nothing is "
 "issued for types the issuer does not know. Types may be added and replaced at any time; what is issued follows the current specification.",
 ["inputs", "configurations"], "all issuer configurations, types, subjects, lifetimes, algorithms",
 "tests issue single marks and read back a few claims",
 ["trustmarkissuer.go", "trustmarkowner.go", "jwx.go", "internal/jwx/jwx.go"],
 [("issuing", "trustmarkissuer.go: IssueTrustMark"), ("delegating", "trustmarkowner.go: DelegationJWT"), ("signing", "jwx.go: GeneralJWTSigner")],
 "runtime monitor: issued JWTs decoded and verified by independent JOSE against the configuration",
 EXPL)

prop("C11", "An entity's own trust marks stay fresh and are never served expired",
 "The trust mark a leaf publishes about itself is the configured one while that is valid, is replaced by a fresh one from the trust mark endpoint "
 "when it gets old, and an expired trust mark is never published. Failing or hostile trust mark endpoints cost at most that mark, and any number of "
 "concurrent uses see a consistent mark without data races.",
 ["histories", "schedules", "fault_sequences"], "all lifetimes, refresh settings, endpoint answers, and interleavings of concurrent uses",
 "tests never refresh, never expire, never use a mark concurrently",
 ["trustmark.go", "leaf.go", "internal/http/http.go"],
 [("refresh", "trustmark.go: EntityConfigurationTrustMarkConfig.TrustMarkJWT"), ("publication", "leaf.go: FederationEntity.EntityConfigurationPayload")],
 "race detector and lifetime automaton over endpoint and result logs",
 NET + "Interleavings are those the Go scheduler produced with the race detector.")

prop("C12", "Entity collections are complete, exact and honest about every entity",
 "Collecting the entities of a federation yields exactly the entities listed below the anchor that match the request and pass every filter, each once, "
 "with exactly the claims asked for: their own entity types, names and UI information, only valid trust marks, only valid trust chains. "
 "Remote collectors ask for exactly what was requested and fall back in order; failing servers cost only what they serve and only while they fail, "
 "and concurrent collections do not disturb each other.",
 ["inputs", "configurations", "fault_sequences", "schedules"], "all federations and listings, all requests and filters, failing servers, concurrent collections",
 "tests collect from two small mock federations sequentially and without faults",
 ["discovery.go", "metadata.go", "apimodel/collection.go", "internal/http/http.go", "metadata_resolver.go", "trustmark.go"],
 [("collection", "discovery.go: SimpleEntityCollector.collect"), ("filters", "discovery.go: FilterableVerifiedChainsEntityCollector"),
  ("remote collection", "discovery.go: SmartRemoteEntityCollector"), ("ui infos", "discovery.go: setUIInfoField, metadata.go: IterateStringClaim")],
 "runtime monitor: collections vs independent walk over served listings, with faults, under the race detector",
 NET + EXPL)

prop("C13", "Concurrent use changes nothing",
 "Resolving, computing metadata, filtering and encoding shared chains, verifying trust marks against a shared anchor, authorisation and token "
 "requests of one client, collecting, and issuing with shared signers give at once, with any cache and background refreshes, the results they give alone. "
 "No two of them race on memory, and what a caller was given is the caller's: nothing reads or changes it later.",
 ["schedules", "inputs", "configurations"], "all interleavings of calls of the library on shared and on different objects, with and without cache, background refreshes at any point",
 "tests are sequential and run without the race detector; interleavings of callers and background refreshes are not tried",
 ["trustresolver.go", "trustchain.go", "metadata.go", "metadataPolicy.go", "policyoperators.go", "trustmark.go", "federation.go", "authcode.go", "discovery.go",
  "jwtsigning.go", "internal/http/http.go", "cache/cache.go"],
 [("background refresh", "trustresolver.go: getEntityStatementOrConfiguration"), ("chain metadata", "trustchain.go: TrustChain.Metadata"),
  ("collection", "discovery.go: SimpleEntityCollector.collect"), ("shared client", "authcode.go: GetAuthorizationURL, CodeExchange"),
  ("http client", "internal/http/http.go: Do")],
 "race detector (go build -race), and a monitor that compares every outcome under concurrency with the sequential one",
 NET + EXPL)

prop("C14", "Hostile input never makes the library panic or hang",
 "Nothing that a remote party, a cache or a caller supplies makes the library panic, in the calling goroutine or any other, or keeps a call from returning: "
 "malformed or extreme documents, metadata, policies, tokens and answers, even if correctly signed, damaged cache entries, odd arguments. Whatever was "
 "accepted can be filtered, encoded, verified and used further.",
 ["inputs", "fault_sequences"], "all documents, answers, cache entries and arguments, well-formed or not, signed by any party of the federation",
 "tests feed well-formed documents and a few malformed ones to single functions; a panic needs an unusual value at one of hundreds of places",
 ["entitystatement.go", "metadata.go", "metadata_generated.go", "metadataPolicy.go", "policyoperators.go", "trustmark.go", "trustresolver.go", "discovery.go",
  "requestobject.go", "authcode.go", "jwks/jwks.go", "internal/jwx/jws.go", "unixtime/unixtime.go", "cache/cache.go"],
 [("decoding", "entitystatement.go: UnmarshalJSON, unmarshalWithExtra"), ("policy operators", "policyoperators.go"), ("policy application", "metadataPolicy.go: applyPolicy"),
  ("resolving", "trustresolver.go: TrustResolver.Resolve"), ("collecting", "discovery.go: SimpleEntityCollector.collect"), ("verification", "internal/jwx/jws.go: ParsedJWT")],
 "runtime monitor for panics, fatal errors and calls that do not return, under mutated documents, answers, cache entries and arguments",
 NET + EXPL)

prop("C15", "Documents survive decoding, encoding and caching unchanged",
 "Every federation document (statements, metadata, policies, constraints, trust marks, responses, key sets) says after decoding exactly what was "
 "written: known claims in their fields, all others in Extra; what gives a known claim a value of a wrong kind is refused. Encoding it again, putting it through the cache, or through YAML where it is used as "
 "configuration, gives the same document: no claim is lost, added, renamed or changed, and signatures verify as before. "
 "(Claim names that differ from known ones by more than case, and numbers that JSON carries exactly, up to 2^53.)",
 ["inputs"], "all documents of all types with any known and unknown claims, odd names and values, all key types",
 "tests round-trip a handful of fixed documents of some of the types; the loss of one claim in one encoding goes unnoticed",
 ["entitystatement.go", "metadata.go", "metadata_generated.go", "metadataPolicy.go", "trustmark.go", "trustresolver.go", "discovery.go", "jwks/jwks.go",
  "sliceorsinglevalue.go", "internal/jwx/jws.go"],
 [("extra claims", "entitystatement.go: unmarshalWithExtra, extraMarshalHelper"), ("metadata with presence", "metadata_generated.go: fromPointers, wasSet"),
  ("msgpack", "entitystatement.go, jwks/jwks.go, internal/jwx/jws.go: MarshalMsgpack"), ("yaml", "trustmark.go, jwks/jwks.go: MarshalYAML")],
 "runtime monitor: round trips of generated documents vs the document and an independent table of claims",
 EXPL)

prop("C16", "Times and durations mean exactly the number that was written",
 "A numeric date or duration is read as exactly that moment or length, for every magnitude, fraction and sign, and written as the same number; values "
 "no clock can represent stay on their side of now. So a document is valid exactly if iat is not in the future and exp not in the past, and caching "
 "or re-encoding it never changes that.",
 ["inputs"], "all JSON numbers as iat, exp and lifetime, in JSON, YAML and the cache",
 "tests use a few times of this decade; overflow and truncation only show at extreme or fractional values",
 ["unixtime/unixtime.go", "entitystatement.go", "trustmark.go"],
 [("times", "unixtime/unixtime.go: Unixtime"), ("durations", "unixtime/unixtime.go: DurationInSeconds"), ("validity", "unixtime/unixtime.go: VerifyTime")],
 "runtime monitor: decoded times, durations and validity verdicts vs exact arithmetic",
 EXPL)

prop("C17", "Entities publish what they are configured to publish and it verifies",
 "An entity's own configuration, fetched at any time and signed with any supported key type, is a currently valid self-signed statement with "
 "the configured lifetime, metadata, authority hints, extra claims and trust marks and exactly its public keys, no private part of a key ever "
 "leaving the process. Statements, trust marks, delegations and responses made with the library's signers verify under the published keys, and "
 "federations built of them resolve.",
 ["inputs", "configurations"], "all configurations of an entity, all signing algorithms and key sets, all documents a user gives to a signer",
 "tests sign few fixed documents with one algorithm and read them back with the same library",
 ["federation.go", "jwtsigning.go", "entitystatement.go", "jwks/jwks.go"],
 [("own entity configuration", "federation.go: FederationEntity.EntityConfigurationPayload / EntityConfigurationJWT"),
  ("signers", "jwtsigning.go: GeneralJWTSigner, EntityStatementSigner, TrustMarkSigner, ResolveResponseSigner"), ("public keys", "jwks/jwks.go: KeyToJWKS")],
 "runtime monitor: issued JWTs vs independent JOSE verification and a plain json model of the configuration",
 NET + EXPL)

prop("C18", "A client's OpenID Connect artefacts are genuine and say what was asked",
 "Request objects and client assertions are signed with the client's key, are short-lived, carry a fresh identifier, the right audience and exactly "
 "the given values; the authorization URL is the provider's endpoint with exactly the given parameters, and an authorization code goes with its "
 "redirect URI and a fresh assertion only to the token endpoint in the provider's resolved metadata (where that endpoint itself redirects to is its own "
 "affair). Tokens are reported only for a successful "
 "answer, failures are reported as what they are, and the values a caller passes are not modified.",
 ["inputs", "fault_sequences"], "all request values and parameters, all providers, all answers of token endpoints",
 "tests build one request object; nothing tests the authorization url, the code exchange or repeated use",
 ["authcode.go", "federation.go", "jwtsigning.go", "internal/http/http.go"],
 [("request objects and client assertions", "authcode.go: RequestObjectProducer"),
  ("authorization url and code exchange", "authcode.go, federation.go: FederationLeaf.GetAuthorizationURL, FederationLeaf.CodeExchange")],
 "runtime monitor: produced JWTs and recorded requests vs independent JOSE verification and plain json models of what was asked",
 NET + EXPL)

prop("C19", "Chains are filtered, sorted and selected exactly as asked",
 "Filtering keeps exactly the chains that satisfy the filter, in their order; sorting returns a permutation of the chains, ordered by the chosen "
 "criterion; path lengths and expiry times are those of the statements in the chain, and selecting a chain for an entity's metadata takes "
 "the shortest valid one, finding a trust mark the first that matches. None of these changes what it is given.",
 ["inputs"], "all lists of chains, all filters and their combinations, all sorters, all federations with several chains of different quality",
 "tests filter and sort a few handmade chains, in which wrong combinations and orders coincide with right ones",
 ["trustchain.go", "trustchainfilter.go", "metadata_resolver.go"],
 [("chain filters", "trustchainfilter.go: TrustChains.Filter, TrustChainsFilter implementations"), ("sorting", "trustchainfilter.go: TrustChains.SortAsc, SortDesc"),
  ("selection", "metadata_resolver.go: LocalMetadataResolver")],
 "runtime monitor: selected and sorted chains vs direct evaluation of the criterion on every chain",
 NET + EXPL)

prop("C20", "Remote resolution reports what a trustworthy resolver said, or falls back",
 "A resolve request asks for exactly what was requested; a response counts only if it is a well-formed, currently valid resolve response about the "
 "requested subject (and, from a trust anchor's own endpoint, signed by that anchor), and then its content is passed on unchanged. Without such a "
 "response nothing is confirmed valid or invalid, and the smart resolver goes on to the next endpoint and finally resolves locally; "
 "responses this library issues carry all claims and can be read back.",
 ["inputs", "fault_sequences"], "all answers of resolve endpoints (correct, expired, misdirected, forged, damaged, errors, failures) in all orders of anchors",
 "tests use one correct resolver; wrong answers and their combination with the fallback are never tried",
 ["metadata_resolver.go", "trustresolver.go", "internal/http/http.go", "apimodel/resolve.go", "jwtsigning.go"],
 [("remote resolver", "metadata_resolver.go: SimpleRemoteMetadataResolver"), ("fallback", "metadata_resolver.go: SmartRemoteMetadataResolver"),
  ("resolve responses", "trustresolver.go: ResolveResponse")],
 "runtime monitor: answers and requests of resolve endpoints vs an independent judgement of each answer and the reference resolver",
 NET + EXPL)

prop("C21", "Cached statements are refreshed in time without losing valid results",
 "A cached statement is used while it is valid; when its remaining lifetime gets short a fresh one is fetched in the background and takes "
 "its place, a failing refresh does no harm as long as the cached statement is valid, and no statement is served after it expired.",
 ["histories", "fault_sequences"], "all lifetimes, all ages at which a statement is asked for, failing and hostile refreshes",
 "tests never look at statements near the end of their lifetime",
 ["entitystatement.go", "trustresolver.go", "federation.go"],
 [("cached fetch with grace period", "trustresolver.go: getEntityStatementOrConfiguration")],
 "runtime monitor: request and cache event logs against a lifetime automaton",
 NET + EXPL)

prop("C22", "Transient network faults do not stick and do no harm",
 "A superior that is unreachable, answers with errors or garbage while a resolution runs costs only chains through it; it never makes an "
 "invalid chain valid, and once it works again, however often it was asked meanwhile, the next resolution finds everything that is valid. A server that never answers, or never "
 "comes to an end, counts as one that fails: calls return. Requests carry no state (cookies) of earlier answers.",
 ["fault_sequences", "histories"], "all sequences of connection failures, error statuses, truncated and garbage bodies on any request",
 "the tests' mock transport never fails",
 ["trustresolver.go", "entitystatement.go", "internal/http/http.go", "cache/cache.go"],
 [("fetching", "internal/http/http.go"), ("tree resolution and caching", "trustresolver.go")],
 "fault injection per request, outcome vs reference resolver during and after the faults",
 NET + EXPL + "Faults are drawn at random per request, not enumerated exhaustively.")

prop("C23", "Only genuine JWTs of the right kind are read, and verified as they are",
 "Each parser takes exactly the compact JWTs of its own token type with a decodable payload, so that no kind of document passes for another, "
 "and the parsed claims are those of the JWT. What was parsed verifies if and only if it is signed, with the algorithm its header names and without "
 "extensions that are not understood, by one of the given keys, also after it was cached and whatever happened to the buffer it came from.",
 ["inputs"], "all byte strings as JWTs (headers, encodings, serializations, algorithms, signatures, payloads), all key sets",
 "tests parse a handful of honest JWTs; parsers are attacked with the other infinitely many",
 ["internal/jwx/jws.go", "entitystatement.go", "trustmark.go", "metadata_resolver.go"],
 [("parsing and verification", "internal/jwx/jws.go: Parse, VerifyWithSet, VerifyType"), ("entity statements", "entitystatement.go: ParseEntityStatement"),
  ("trust marks and delegations", "trustmark.go: ParseTrustMark, TrustMark.Delegation"), ("resolve responses", "metadata_resolver.go: ParseResolveResponse")],
 "runtime monitor: parse and verify outcomes vs an independent JOSE parser and verifier on adversarial variants of genuine JWTs",
 NET + EXPL + "Odd encodings (padding, white space, duplicate names) may be refused or accepted, but must not verify as something that was not signed.")

prop("C24", "Caches return exactly what was stored, for as long as it was stored",
 "Both caches, the internal one and Redis, return for a key the value that was stored last, unchanged by what happens to the caller's copy, "
 "until its lifetime ends and never after, also under concurrent use; different things never share a key. Failures of the Redis server "
 "appear as errors or misses, never as other values, and a Redis server that cannot be reached is not put into use.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences and interleavings of operations on all keys and values, all lifetimes, all failures of the server",
 "no test touches the cache; races, expiry and failures need concurrency, time and a failing server",
 ["cache/cache.go", "cache/redis.go"],
 [("internal cache", "cache/cache.go: cacheWrapper"), ("redis cache", "cache/redis.go: redisCache, UseRedisCache"), ("cache keys", "cache/cache.go: Key, EntityStmtCacheKey")],
 "race detector; runtime monitor: operation logs vs a map model, interval-based expiry judgement and linearizability of register histories",
 NET + EXPL + "Redis is a small server written for this check, with a clock that only moves on demand. Eviction under memory pressure is not claimed.")
