NOTES = ("Every check is one run of the static analyser in /verif/analyzer over /repo's current source (go/packages + go/ssa, "
         "path-sensitive interprocedural dataflow and structural rules). Nothing of /repo is executed. Quick and thorough are the same "
         "exhaustive analysis: it has no budget to raise.")
DF = "path-sensitive interprocedural dataflow (typestate/provenance) over go/ssa"
TRUST = "Trusts go/packages and go/ssa, the analyser's transfer functions and the documented behaviour of the standard library and third-party calls."
PROPS = []


def P(id, title, statement, over, forall, tests, files, mech, level="proof", technique=DF, note="", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files,
                      mech=mech, level=level, technique=technique, note=(note + " " + TRUST).strip(), **kw))


def NA(id, title, statement, over, forall, tests, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech, na=reason))


# ---------------------------------------------------------------- cluster
CL = ["internal/cluster/ring.go", "internal/cluster/membership.go", "internal/cluster/node.go"]
P("C01", "The hash ring is a pure, complete function of its members",
  "The ownership ring built from a list of members depends only on their identities and the configured number of virtual nodes, not on the order of the list, on time or on the process. Every member contributes exactly the configured number of positions, each derived from its full identity and full position number, and positions are totally ordered by hash and then by member identity, so that peers with the same membership agree on every owner.",
  ["inputs", "configurations"], "for every member list, every order of it and every number of virtual nodes",
  "Tests build a few small rings with default settings; disagreement needs another list order, a hash tie or more than 256 virtual nodes.",
  CL[:1], [("ring build", "internal/cluster/ring.go Build"), ("virtual node hash", "internal/cluster/ring.go hashKey helper")],
  level="other", note="Decides determinism and completeness of construction on every path; collision-freeness of the hash is not claimed.")
P("C02", "Key lookup walks the ring from the key and returns distinct owners",
  "A lookup returns owners in ring order starting at the first position at or after the key's hash and wrapping around, without repeats, skipping no member on the way. It returns as many owners as the replication factor, or all members when there are fewer (the walk always ends), and nothing for an empty ring; replication below one is treated as one.",
  ["inputs", "configurations"], "for every ring content, key and replication factor",
  "Tests look up a handful of keys on two or three nodes; wrap-around, more replicas than members and adjacent positions of one member are input classes they rarely hit.",
  CL[:1], [("lookup", "internal/cluster/ring.go Lookup/LookupHash")], level="other",
  note="Decides the walk, bound, wrap and de-duplication as facts on every path.")
P("C03", "Ring and membership state is only touched under its lock",
  "Concurrent use of the ring and the membership table is free of data races and self-deadlock: every read and write of shared state happens while the owning object's lock is held in the right mode, every lock is released on every exit, and a published ring is never modified in place. Observers run after the lock has been released, so an observer may call back into the membership table.",
  ["schedules"], "for every interleaving of any number of callers of any operations",
  "Race tests see only the schedules that occur; a missing lock on a rare path stays invisible.",
  CL, [("ring lock", "internal/cluster/ring.go mu"), ("membership lock", "internal/cluster/membership.go mu")],
  technique="lock-set (guarded-by), lock balance and callback analysis on every path of every entry point")
P("C04", "Every membership change is reflected in the ring before anyone can act on it",
  "Whenever a member joins, leaves, or becomes or stops being dead, the ring is rebuilt from exactly the members not known dead, in the same exclusive section in which the membership changed. The ring handed to callers is the one that is rebuilt. No reader can observe the new membership with the old ring.",
  ["schedules", "histories"], "for every history of membership operations and every interleaving",
  "Tests perform one change at a time and look at the ring afterwards; a stale ring needs a state transition or interleaving they do not produce.",
  CL[:2], [("rebuild", "internal/cluster/membership.go Upsert/Remove/Mark/Refute"), ("ring build", "internal/cluster/ring.go Build")])
P("C05", "Membership transitions follow the incarnation rules and are announced once",
  "A status update of an unknown member is refused; a real transition sets the new status, advances the member's incarnation as the operation prescribes and the membership version exactly once, and tells every observer exactly once, in registration order; a repetition of the current status only refreshes the last-seen time. The version counter only ever grows.",
  ["histories", "inputs"], "for every sequence of membership operations",
  "Tests drive a few transitions; silent loss of an announcement or of an incarnation step needs particular combinations of prior status and operation.",
  CL[1:], [("transition functions", "internal/cluster/membership.go Upsert/Remove/Mark/Refute"), ("version", "internal/cluster/version.go")])
P("C06", "Membership readers hand out copies",
  "What listing, lookup and ring inspection return is fresh: callers can neither see later changes through it nor change the shared state with it, and a listing contains every member and the ring inspection every position.",
  ["histories", "schedules"], "for every caller and every later change",
  "Aliasing only shows when someone mutates a returned value at the wrong moment; tests read and drop it.",
  CL, [("readers", "internal/cluster/membership.go List/Get, ring.go readers")], technique="escape/alias analysis on every path of the readers")
P("C07", "Node identity and address validation are deterministic",
  "A node built without an explicit identity gets one derived from its whole address and nothing else; an explicit identity is kept unchanged. A new node is alive, at a positive incarnation, and counts as seen when it is built. Every empty or unparsable address is refused with the recognisable invalid-address error, every parsable one is accepted, and each node status has its own fixed name.",
  ["inputs"], "for every identity and address string",
  "Tests try a few addresses.",
  CL[2:], [("constructor and validation", "internal/cluster/node.go")])

# ---------------------------------------------------------------- event bus
EB = ["internal/eventbus/bus.go"]
P("E01", "Publishing never blocks and every lost event is counted",
  "Publishing offers the event exactly once to every current subscriber without ever waiting for one; a subscriber whose buffer is full loses that event and the loss counter grows by exactly one for it. Nothing else changes the loss counter, and no operation of the bus waits on anything while it holds the lock publishers need.",
  ["schedules", "histories"], "for every number, speed and order of subscribers and publishers",
  "Tests use one or two subscribers; miscounting or blocking needs a particular mix of full and idle subscribers.",
  EB, [("publish loop", "internal/eventbus Publish"), ("loss counter", "internal/eventbus dropped")])
P("E02", "Subscribers see events in version order with the publisher's content",
  "Every published event gets one version number larger than all earlier ones, which is also the number returned to the publisher. Each subscriber receives the events it gets in strictly increasing version order, with the publisher's type and payload unchanged and the timestamp filled in only when it was missing.",
  ["schedules"], "for every interleaving of concurrent publishers",
  "Out-of-order delivery needs two publishers preempted between numbering and delivery; tests publish from one goroutine or do not check order.",
  EB, [("publish critical section", "internal/eventbus Publish")])
P("E03", "Cancelling a subscription is safe at any time and happens exactly once",
  "A subscription is active before it is returned, under an identity no other subscription has. Cancelling it, by its cancel function or by its context, any number of times and concurrently with publishing, removes it and closes its channel exactly once, never while a publisher could still send on it.",
  ["schedules", "histories"], "for every interleaving of cancel calls, context ends and publishers",
  "A double close or a send on a closed channel needs a precise interleaving.",
  EB, [("subscribe and cancel", "internal/eventbus Subscribe")])

# ---------------------------------------------------------------- HTTP client
CT = ["pkg/client/transport.go", "pkg/client/client.go", "pkg/client/batch.go", "pkg/client/topology.go"]
P("K01", "Client commands fail over to every endpoint before giving up",
  "Every client command sends its request to the endpoints of the current view, or of the seed list when that view is empty, one after another in random order and each at most once. A transport failure, a request that cannot be built or an answer of 500 or above moves on to the next endpoint; any other answer is final and never repeated elsewhere. A command gives up only when every endpoint has failed, and its error then is recognisable both as the all-endpoints-failed error and as the last failure. Requests run under the caller's context and end with it.",
  ["inputs", "faults", "configurations"], "for every endpoint view, every sequence of endpoint failures and every command",
  "Tests use one or two stub servers; skipped, repeated or wrongly final endpoints need a particular order of particular failures.",
  CT, [("dispatch loop", "pkg/client/transport.go do/tryOnce"), ("retry classification", "pkg/client/errors.go isRetryable"), ("random order", "pkg/client/transport.go order")])
P("K02", "Client errors tell status and family of the server's answer exactly",
  "A command succeeds only on the statuses defined for it; any other answer becomes a status error that carries the answer's HTTP status and, when the answer has the cache's error envelope, its code, message and details; otherwise it has an empty code and a message of bounded length taken from the answer; no answer, however short or malformed, makes a command panic. A transport failure stays recognisable in the returned error. A status error matches the not-found, unauthorized, forbidden, draining, bad-request and internal error families exactly when its code or status says so (status 503 is draining, not internal) and matches nothing else.",
  ["inputs"], "for every status, every response body and every error family",
  "Tests try a few statuses per command; a wrong family or lost envelope shows only for the untested combinations.",
  CT + ["pkg/client/errors.go"], [("classification", "pkg/client/transport.go classifyResponse"), ("families", "pkg/client/errors.go StatusError.Is")])
P("K03", "Every client command puts exactly the documented request on the wire",
  "Each command uses its documented method, path and headers, with keys and capabilities escaped so that no key can change the request's path or query, and with the time to live attached exactly when it is positive. Every attempt, including each retry, sends the complete payload: the caller's bytes for a single write, the encoded batch for a batch, nothing for reads. What a successful command returns is the corresponding part of that attempt's response, and a failed command returns no result.",
  ["inputs", "faults"], "for every key, value, time to live, response and number of retries",
  "Tests use simple keys and rarely retry a write; an escaping slip or a truncated retry needs an odd key or a failure after the first attempt.",
  CT, [("commands", "pkg/client/client.go, batch.go, topology.go"), ("payload replay", "pkg/client/transport.go repeatableReader")])
P("K04", "The client closes every response body exactly when it is done with it",
  "Every response the client receives has its body closed before the next endpoint is tried and before the command returns, on every path including decoding failures; the body is never read after it was closed, and the response is never touched when the dispatch itself failed.",
  ["faults", "inputs"], "for every sequence of answers and failures",
  "A leaked connection does not fail any assertion; it shows under load or on an error path that tests skip.",
  CT, [("responses", "pkg/client/transport.go tryOnce/classifyResponse, commands")],
  technique="typestate analysis of every response on every path")
P("K05", "Batch commands map items and results one to one",
  "A batch request lists every item the caller gave once and in order, each with its own key, its value in an encoding that preserves every byte, and its lifetime, where a positive lifetime never becomes no expiry. The results list every entry of the response once and in order with its own fields; an entry carries an error exactly when it is not a clean success, and that error has the entry's code and message and the matching status. An empty batch sends nothing and succeeds.",
  ["inputs"], "for every batch and every response",
  "Tests send small uniform batches; a mix-up needs mixed outcomes, sub-millisecond lifetimes or binary values.",
  ["pkg/client/batch.go"], [("batch requests", "pkg/client/batch.go BatchSet/BatchGet/BatchDelete"), ("row decoding", "pkg/client/batch.go")])
P("K06", "The endpoint view follows live membership and refresh starts and stops cleanly",
  "Creating a client trims the seeds, drops blank ones and keeps the rest in order as the first view; with none left it fails with the no-endpoints error. Every option is applied once and in order, and an option's error is returned with no client. Without an HTTP client of the caller's, requests have a time limit. The background refresh runs exactly when a positive interval was set. A topology refresh replaces the view only after the membership list was decoded, by one endpoint for each member that has an address and is not dead, in order, and never by an empty list; an address that already carries a scheme is kept, any other gets the scheme of the first seed that has one, or https. A failed refresh reports its error and leaves the view as it was. The refresh loop refreshes once per tick under a time limit, survives failures and ends only when the client is closed; Close stops it once, waits for its end and never blocks or fails otherwise.",
  ["inputs", "schedules", "faults"], "for every seed list, membership answer and order of ticks, failures and Close calls",
  "Tests use one member list and one Close; an emptied view, a dead endpoint or a refresh loop that never ends needs a partial answer or a particular moment.",
  ["pkg/client/topology.go", "pkg/client/client.go"], [("refresh", "pkg/client/topology.go RefreshTopology"), ("loop", "pkg/client/topology.go topologyRefreshLoop"), ("New and Close", "pkg/client/client.go")])
P("K07", "Client credentials are complete, sent on every request and never leaked",
  "An option with an empty token, user name, password, client id, client secret or token URL, a nil HTTP client or a positive refresh interval below one second is rejected and leaves the client unchanged; complete settings are accepted. The credential option applied last decides: every request carries exactly its Authorization header (bearer token, basic user and password, or a token from the configured source), sent through the transport that was configured, with the time-out, cookie and redirect settings of the previous HTTP client, without modifying the caller's request or HTTP client. Tokens are requested through the same transport without credentials of an earlier option. Errors of transport and token source stay recognisable. No token, password or secret reaches a log line or an error.",
  ["inputs", "configurations"], "for every combination and order of options and every request",
  "Tests apply one option at a time; a wrong layering, a lost setting or a leak appears only in combinations and error paths.",
  ["pkg/client/options.go", "pkg/client/client.go", "pkg/client/oidc_logging.go"], [("options", "pkg/client/options.go"), ("transport", "pkg/client/client.go headerAuthTransport"), ("token source", "pkg/client/oidc_logging.go")])
P("K08", "A client can be shared: snapshots are private and shared state is guarded",
  "The endpoint list handed out is always a copy of the current view. Lists once published as view or seeds are never modified; no field of a client is written after its construction except through atomic replacement of the view. The shared random source is used only under its lock, the token rotation state only under its own, no lock is held while waiting for the network, and every lock taken is released.",
  ["schedules"], "for every interleaving of calls on one client",
  "A data race or a list changed under a reader needs two goroutines at a particular instant.",
  CT + ["pkg/client/oidc_logging.go"], [("views", "pkg/client/client.go Endpoints"), ("random source", "pkg/client/transport.go failoverShuffler"), ("token log state", "pkg/client/oidc_logging.go")],
  technique="write-set, escape and guarded-by analysis over all entry points")

# ---------------------------------------------------------------- HTTP auth
AP = ["pkg/httpauth/policy.go"]
P("A01", "A request is granted exactly the identity its credentials prove",
  "The gate tries the credentials of a request in the documented order: bearer token, basic user and password, verified client certificate, custom hook, anonymous access. It grants the identity (name and scopes of one and the same configured entry) of the first class whose credentials match: a token equal to the whole header value after 'Bearer ', a user whose password hash matches, a certificate subject that equals a configured one, a hook that returned without error, or the anonymous identity with all scopes when that is allowed. A request that proves something is not refused, and one that proves nothing is refused.",
  ["inputs", "configurations"], "for every policy and every request",
  "Tests try each class alone with one entry; a wrong row, a wrong order or a fail-open path needs a combination of classes and failures.",
  AP, [("credential chain", "pkg/httpauth/policy.go resolve"), ("classes", "pkg/httpauth/policy.go resolveBearer/resolveBasic/resolveCert")])
P("A02", "Bearer tokens are compared in constant time against every token",
  "A configured token and the presented header are compared only by the constant-time comparison. Whenever a bearer token is checked, it is compared with every configured token, whichever of them matches.",
  ["inputs", "environment"], "for every token list and every presented token",
  "Timing differences fail no assertion.",
  AP, [("token loop", "pkg/httpauth/policy.go resolveBearer")], technique="information-flow and loop-completeness analysis over all paths")
P("A03", "A route's required scope is enforced and refusals never fall through",
  "A request passes the gate only when the identity it proved holds the exact scope the route requires (no scope required: any proven identity). The identity is then stored under the published key and the next handler runs exactly once. Every other request ends with a non-nil error, status 401 without a proven identity and 403 when only the scope is missing; no identity is stored for it and the next handler does not run.",
  ["inputs", "configurations"], "for every policy, scope and request",
  "Tests try few combinations of scopes; a fall-through shows only for the untested one.",
  AP, [("gate", "pkg/httpauth/policy.go Verify/Middleware")])
P("A04", "Loading an auth policy is strict and never fails open",
  "When the config variable (HYPERCACHE_AUTH_CONFIG) is set, the policy comes from that file alone and any failure to open, decode or validate it is an error that is recognisable as an invalid policy and comes with no policy; otherwise a legacy token (HYPERCACHE_AUTH_TOKEN) gives exactly one identity named default with that token and all scopes; with neither the policy is empty. The file is decoded strictly (unknown fields rejected), every listed entry becomes one identity in order with its own fields, its scope list must be non-empty and name only read, write or admin, and the flags are copied. Validation fails with the insecure-config error exactly when an entry has an empty token, name, user name or subject or a malformed password hash.",
  ["inputs", "configurations", "faults"], "for every environment and every config file",
  "Tests load a handful of files; a dropped row or an unchecked entry shows only for a particular file.",
  ["pkg/httpauth/loader.go"] + AP, [("loader", "pkg/httpauth/loader.go LoadFromEnv/loadFromFile/schemaToPolicy"), ("validation", "pkg/httpauth/policy.go Validate")])
P("A05", "Passwords need TLS and certificates count only when verified",
  "A password is checked only when the connection uses TLS or the policy opts out explicitly, only for the entry whose user name equals the presented one exactly, and only the password from that same header, up to the first colon being the user name; a malformed header or one without a colon proves nothing. A connection without TLS state, or without verified chains, never panics the gate. A certificate identity is granted only for the non-empty common name of the first certificate of the first verified chain, compared exactly.",
  ["inputs", "configurations"], "for every policy, connection and header",
  "Tests use one user and stubbed TLS state; accepting an unverified certificate or a plaintext password needs an unusual connection.",
  AP, [("basic", "pkg/httpauth/policy.go resolveBasic/parseBasicHeader"), ("certificates", "pkg/httpauth/policy.go resolveCert")])
P("A06", "No token, password or password hash appears in an error or log",
  "No error the auth package returns, and nothing it logs or prints, contains a configured token, a password hash, a presented credential or text of the config file that may be one of them (parser messages quote it).",
  ["inputs", "faults"], "for every config file, environment and request",
  "Tests look for one canary in a few errors; other error paths and the parser's quoting are not sampled.",
  ["pkg/httpauth/loader.go"] + AP, [("error construction", "pkg/httpauth/loader.go, policy.go")], technique="taint analysis over all paths of all entry points")
P("A07", "Scope and capability queries answer exactly what the identity holds",
  "An identity has a scope exactly when it is in its scope list; its capabilities are, in order, one 'cache.'-prefixed string for each scope and never a nil list; it has a capability exactly when it is among them. A policy counts as configured exactly when it has a token, a basic user, a certificate identity or a custom hook.",
  ["inputs", "configurations"], "for every identity and policy",
  "Tests use the three usual scopes; an omitted class or an off-by-one shows for others.",
  AP, [("identity", "pkg/httpauth/policy.go HasScope/Capabilities/HasCapability"), ("policy", "pkg/httpauth/policy.go IsConfigured")])

# ---------------------------------------------------------------- statistics
ST = ["pkg/stats/stats.go", "pkg/stats/collector.go", "pkg/stats/histogramcollector.go"]
P("S01", "No recorded value is lost from a statistic's sum, count and extremes",
  "Every recorded value is added exactly once, with its sign, to the sum of the statistic it was recorded for and to no other, raises that statistic's count by exactly one, and moves its minimum and maximum only ever outward and never past a recorded value, before the value is counted, whatever other recorders do at the same time. All recorders of one statistic work on the same aggregate, also when it is first created by several of them at once.",
  ["schedules", "inputs"], "for every interleaving of recorders and every value",
  "A lost update needs two recorders interleaved between a read and a write; tests that run recorders concurrently sample a few schedules.",
  ["pkg/stats/histogramcollector.go"], [("recorders", "pkg/stats Incr/Decr/Timing/Gauge/Histogram"), ("aggregate", "pkg/stats shard record/updateMin/updateMax")])
P("S02", "Mean, median and percentile follow their definitions for every sample",
  "The mean of a statistic is its sum over its count (zero without values); the median is the middle of the sorted sample, or the mean of the two middle ones when there is an even number; a percentile is the sorted sample at the documented rank, clamped to the sample. All are computed over the named statistic only, on a private copy, and are defined (no panic) for every percentile asked, including NaN, negative and above one.",
  ["inputs"], "for every sample, statistic and percentile",
  "Tests use a few small samples; an unsorted view, an off-by-one rank or an out-of-range percentile shows only for particular lengths and ranks.",
  ["pkg/stats/histogramcollector.go"], [("queries", "pkg/stats Mean/Median/Percentile")])
P("S03", "The sample window stays bounded, guarded and private",
  "The sample window of a statistic never holds more than its configured capacity, keeps the most recent values that were sampled, and is only touched under its own lock, which is released on every path and for which no recorder ever waits. No query hands out the live window, so that neither a caller nor a later recording changes the other's data.",
  ["schedules", "histories"], "for every number of recordings and every interleaving",
  "Tests record fewer values than wrap the window, or record from one goroutine.",
  ["pkg/stats/histogramcollector.go"], [("sample window", "pkg/stats shard samples ring")])
P("S04", "A statistics report has every statistic once with its own numbers",
  "The report has exactly one entry for each statistic that has recorded a value, under its own name, with the count, sum, mean, median, minimum, maximum, variance and sampled values of that same statistic, each by its defining formula; a statistic that was never recorded has none, and the minimum and maximum are never the initial markers.",
  ["inputs", "schedules"], "for every set of statistics and recordings",
  "Tests check a few fields for one statistic; swapped fields or a wrong variance show only for other data.",
  ["pkg/stats/histogramcollector.go", "pkg/stats/stats.go"], [("report", "pkg/stats GetStats")])
P("S05", "Collectors are created by name exactly as registered",
  "Asking for a collector by name calls exactly the constructor registered under that name; a blank name and an unknown name are refused with their own documented errors and no collector. A new registry holds the default collector, an empty one nothing, and registering changes only the name given. A histogram collector gets the capacity asked for, or the default for a capacity that is not positive.",
  ["inputs", "configurations"], "for every name, capacity and registry",
  "Tests ask for the default and one unknown name.",
  ["pkg/stats/collector.go", "pkg/stats/histogramcollector.go"], [("registry", "pkg/stats collector registry"), ("constructors", "pkg/stats NewHistogramStatsCollector*")])

# ---------------------------------------------------------------- serializers, Redis stores, sentinels
P("R01", "Serializers are made by name and never lose or invent data",
  "Asking for a serializer by name calls exactly the constructor registered under that name; a blank name and an unknown name are refused with their own documented errors and no serializer. A new registry holds the documented serializers, an empty one none, and registering changes only the name given. The JSON serializer encodes exactly the value given and decodes exactly the data given into the value given; it returns the library's result or reports its failure, never both. The disabled msgpack serializer always reports an error and never yields data.",
  ["inputs", "configurations", "faults"], "for every name, value and byte sequence",
  "Tests ask for known names and round-trip small values; a swallowed decoding error or data returned beside an error shows only for input that fails.",
  ["internal/libs/serializer/serializer.go", "internal/libs/serializer/json.go", "internal/libs/serializer/msgpack.go"],
  [("registry", "internal/libs/serializer/serializer.go Registry"), ("serializers", "internal/libs/serializer/json.go, msgpack.go")])
P("R02", "Redis store options take effect exactly as given",
  "Each option of the single-node and the cluster Redis store sets exactly the setting it is named after to the value given, and no other. A new store starts from the documented defaults, then applies every option exactly once in the order given and changes no setting afterwards, so what the caller asked for (TLS, credentials, time-outs included) is what the client is made with. A blank address and a cluster without addresses are refused with an error and no store.",
  ["configurations", "inputs"], "for every combination and order of options",
  "There are no tests of the options; a swapped or overridden setting compiles and connects.",
  ["pkg/backend/redis/options.go", "pkg/backend/redis/store.go", "pkg/backend/rediscluster/options.go", "pkg/backend/rediscluster/store.go", "internal/constants/redis.go"],
  [("options", "pkg/backend/redis/options.go, pkg/backend/rediscluster/options.go"), ("constructors", "pkg/backend/redis.New, pkg/backend/rediscluster.New")],
  technique="per-option effect analysis (write set) and path-sensitive ordering analysis over go/ssa")
P("R03", "Every sentinel error has its own identity",
  "Each documented sentinel error is a distinct error value with its own message, created once and never replaced, so testing an error against one sentinel never matches another.",
  ["histories"], "for every pair of sentinel errors and every run of the program",
  "Tests compare single sentinels; two that share an identity, or one that is reassigned, still pass them.",
  ["internal/sentinel/sentinel.go"], [("sentinels", "internal/sentinel/sentinel.go")],
  technique="whole-module write-set analysis of package-level error variables")

# ---------------------------------------------------------------- middleware, typed facade
MWF = ["pkg/middleware/logging.go", "pkg/middleware/middleware.go", "pkg/middleware/otel_metrics.go", "pkg/middleware/otel_tracing.go", "pkg/middleware/stats.go"]
P("D01", "Middleware never changes what the cache does",
  "Every middleware passes each operation of the cache service on to the service it wraps exactly once, unchanged (the context may carry more), performs no other operation of it, and returns exactly what it returned. A constructor wraps the service it is given, and applying a list of middlewares applies each once, in order, around the service decorated so far.",
  ["inputs", "histories"], "for every operation, argument and list of middlewares",
  "Tests of the middlewares look at what they record for a few operations; a dropped argument, a swallowed error or a retried write in another operation is not seen.",
  MWF + ["service.go"], [("middlewares", "pkg/middleware/*.go"), ("composition", "service.go ApplyMiddleware")])
P("T01", "The typed facade returns only values of its type and never hides an error",
  "The typed cache asks the wrapped cache exactly once with the caller's arguments. A stored value of the facade's type is returned as it is; a miss and a value of another type are answered with the zero value and the documented outcome of that operation (a miss, not-found or type-mismatch), an error of the wrapped cache is passed on, and of several keys each lands in exactly one of hits and errors.",
  ["inputs", "configurations"], "for every value type, stored value and set of keys",
  "Tests use two value types; a mismatch answered as a hit with the zero value needs a value of another type under the key.",
  ["hypercache_typed.go"], [("facade", "hypercache_typed.go Typed methods")])

# ---------------------------------------------------------------- sharded map, items
CM = ["pkg/cache/v2/cmap.go", "pkg/cache/v2/hash.go"]
P("M01", "The sharded map keeps each key in one shard, under its lock, and counts it once",
  "Every operation on a key uses the same, existing shard; a shard's entries and counter are only touched under that shard's lock in the right mode, which is released on every path; the counter moves with membership in the same exclusive section. Each operation has the meaning of the map operation it is named after, copies handed out are private, and operations over the whole map visit every shard, iteration stopping when told to.",
  ["schedules", "inputs", "histories"], "for every key, interleaving and sequence of operations",
  "Tests run few keys and schedules; a count that drifts on overwrite, or an entry touched outside the lock, needs particular histories or interleavings.",
  CM, [("shards", "pkg/cache/v2/cmap.go"), ("shard choice", "pkg/cache/v2/hash.go")])
P("M02", "Item validity, expiry and size follow their definitions",
  "Validation refuses exactly blank keys, nil values and, after resetting it, a negative expiration. An item counts as expired exactly when it has a positive expiration and more than that has passed since its last access; touching it sets the last access to now and counts one access. Its recorded size is that of its serialized value, reported in the named unit. A pooled item is cleared before it is reused.",
  ["inputs", "histories"], "for every item",
  "Tests check a handful of items; the boundary cases and a pooled item keeping an old field are not among them.",
  ["pkg/cache/v2/item.go"], [("item", "pkg/cache/v2/item.go"), ("pool", "pkg/cache/v2/item.go ItemPoolManager")])

# ---------------------------------------------------------------- worker pool, cache core
P("W01", "The worker pool runs each accepted job once and always shuts down",
  "Every job accepted is run exactly once by one worker and its error offered once without blocking; a job offered after shutdown is dropped, not run and not a panic. The channels are closed once, under the lock, by the shutdown only, after the last worker has left; resizing starts or stops exactly the difference and never touches a pool that is shut down.",
  ["schedules", "histories"], "for every interleaving of enqueue, resize and shutdown",
  "Tests run a few jobs and resizes in order; a send on a closed channel, a lost job or a hang needs a particular interleaving.",
  ["pool.go"], [("pool", "pool.go WorkerPool")])
P("X01", "Reads answer live items only, and touch exactly those",
  "Every read asks the backend once for the key the caller gave. An absent or expired item is answered as a miss (with the documented error where there is one), never with a value; an expired one also triggers an expiration. A live one is answered with its own value and its access is recorded once in the item and in the backend. Of several keys, each lands in exactly one of hits and failures. A read changes nothing else.",
  ["inputs", "histories", "configurations"], "for every key, item state and backend",
  "Tests read a few live, missing and expired keys; a stale value for one key among several, or a lost expiration trigger, needs a particular mix.",
  ["hypercache_io.go", "hypercache_expiration.go"], [("reads", "hypercache_io.go Get, GetWithInfo, GetOrSet, GetMultiple, List")])
P("X02", "Writes store what was given, are charged once and tracked for eviction",
  "A write stores one item carrying exactly the key, value and expiration given, stamped with the current time. Its size is measured, charged to the allocation once, and refunded in the same amount exactly when the item is not stored; an item that takes the total over the size limit never reaches the backend and is refused as such; a backend refusal is passed on. A stored item is tracked for eviction under its key and not returned to the pool, and one item is evicted exactly when immediate eviction is on and the cache is over capacity. Overwriting gives back the size of the item replaced.",
  ["inputs", "histories", "faults"], "for every item, limit, backend outcome and prior content",
  "Tests write few items to a healthy backend; a leaked charge or an untracked item shows only after refusals or long histories.",
  ["hypercache_io.go"], [("writes", "hypercache_io.go Set, GetOrSet, setItemSize")])
P("X03", "Removal and clearing keep tracking and allocation in step with the backend",
  "Removing keys looks each up, takes each one found out of the eviction tracking, has the backend remove exactly the keys given, and gives back the size of each distinct item found once, and only after the backend has removed it. Clearing lists the items, clears the backend, untracks every item listed and resets the allocation, in that order. Failures of the backend are passed on and leave the allocation alone. Nothing else writes the allocation.",
  ["inputs", "histories", "faults"], "for every set of keys and backend outcome",
  "Tests remove distinct keys from a healthy backend.",
  ["hypercache_io.go"], [("removal", "hypercache_io.go Remove, Clear"), ("allocation", "hypercache.go HyperCache.memoryAllocation")])
P("X04", "Eviction keeps to capacity, limit and tracking",
  "Every single eviction of a pass follows a fresh look that the cache is over its capacity and that fewer than the limit have been evicted in this pass; the key the algorithm gives up is removed from the cache, and no other. A pass ends only when the cache is within capacity, the limit is reached, nothing is left to evict, or a removal fails, which is reported. Changing the capacity sets it in the backend, decides anew whether evictions are immediate (no interval, and a capacity to keep to), and is followed by a pass when the cache is over it. Triggering by hand never waits.",
  ["histories", "schedules", "faults"], "for every number of items, limit, capacity and backend outcome",
  "Tests run a pass over few items with a healthy backend; an overshoot by one or a pass that stops early needs particular counts or failures.",
  ["hypercache_eviction.go"], [("eviction pass", "hypercache_eviction.go evictionLoop"), ("capacity", "hypercache_eviction.go SetCapacity"), ("trigger", "hypercache_eviction.go TriggerEviction")])
P("X05", "Exactly the expired items are expired, and no trigger is lost",
  "An expiration pass lists the items once, by a filter that holds exactly for expired items, and removes every one of them; failures are reported. A trigger is dropped only within the debounce interval, while another is pending, or when the channel is full of them; it never waits and only the one that sets the pending flag is sent. The loop clears the flag after the last trigger it has received and runs a pass after that, so every trigger is followed by a pass.",
  ["schedules", "histories", "faults"], "for every interleaving of triggers and passes, and every item",
  "Tests trigger a few times in order; a trigger lost between draining and clearing, or an item on the boundary of expiry, needs particular timing.",
  ["hypercache_expiration.go"], [("expiration pass", "hypercache_expiration.go expirationLoop"), ("trigger", "hypercache_expiration.go execTriggerExpiration"), ("loop", "hypercache_expiration.go handleExpirationSelect")])
P("X06", "Stopping the cache ends every background loop and frees its resources",
  "Stop signals without waiting, cancels the background context, then shuts the worker pool down once, shuts the management server down when there is one, and reports its failure. Every background loop waits only while listening to both the stop signal and the cancellation, ends on either, does nothing after it, and serves each tick and trigger with the pass it stands for before it waits again.",
  ["schedules", "histories"], "for every interleaving of stop, ticks and triggers",
  "Tests stop an idle cache; a loop that survives or a job after shutdown needs particular timing.",
  ["hypercache.go", "hypercache_eviction.go", "hypercache_expiration.go"], [("stop", "hypercache.go Stop"), ("loops", "hypercache_eviction.go startEvictionRoutine, hypercache_expiration.go startExpirationRoutine")])

# ---- distributed backend -----------------------------------------------------
P("Q05", "The distributed backend's shared state is only touched under its lock",
  "The hint queue and its two totals, each shard's tombstones, its record of first primary and owners and of lost keys, and the read-repair queue's entries are read and written only while their own lock is held; every lock is released on every path and never taken twice. Every other field that goroutines read without a lock is set during construction only; what Stop tears down, nobody else uses.",
  ["schedules"], "for every interleaving of requests, background loops and Stop",
  "Tests run few goroutines over few keys; an unguarded access only fails under a particular interleaving (in the worst case it ends the process).",
  ["pkg/backend/dist_memory.go", "pkg/backend/dist_read_repair.go"],
  [("hints", "pkg/backend/dist_memory.go DistMemory.hintsMu"), ("tombstones", "pkg/backend/dist_memory.go distShard.tombsMu"), ("read repair", "pkg/backend/dist_read_repair.go repairQueue.mu")])
P("Q01", "A distributed write is stored, copied and acknowledged as its level asks",
  "A write of an invalid item, or on a draining node, has no effect. It is handled by the key's first owner: any other node forwards it there once, and only a replica whose first owner failed takes over. The one that handles it stores one item with the caller's content, a fresh version and itself as origin, and sends that same item to every other owner, leaving a hint for each that it could not reach. It reports success only when the item was forwarded without error or stored with as many acknowledgements as the write level asks for (one, more than half, all of the owners), each counted once for an owner that accepted it, and a failed quorum only when there were fewer.",
  ["inputs", "histories", "faults", "configurations"], "for every key, number of owners, consistency level and failure of any of them",
  "Tests run two or three in-process nodes with few failures; an acknowledgement counted twice, a hint left out or a wrong quorum needs particular failures among particular numbers of owners.",
  ["pkg/backend/dist_memory.go"],
  [("write", "pkg/backend/dist_memory.go Set, setImpl, handleForwardPrimary"), ("copies", "pkg/backend/dist_memory.go replicateTo, applySet"), ("quorum", "pkg/backend/dist_memory.go requiredAcks")])
P("Q02", "A distributed read answers with the newest of as many copies as its level asks",
  "At level one a read asks the owners in order, this node from its own copy, and the first that has the key answers it. Otherwise each owner is asked at most once, one after the other or all at once; as many must have the key as the level asks for (more than half, all), and the answer is the newest of what they had, by version and then by origin. A miss is answered only after every owner had its turn with none, or too few, having the key. With the answer every owner is brought up to date: this node's own copy is replaced only when it is missing or older, the others are sent the answer, not to be replicated onwards. Nothing else is changed by a read.",
  ["inputs", "histories", "schedules", "faults"], "for every key, number of owners, level, set of answers in any order, and failure of any owner",
  "Tests read keys that two or three in-process nodes agree on; a stale answer needs copies that differ, arriving in a particular order, with particular owners failing.",
  ["pkg/backend/dist_memory.go"],
  [("read", "pkg/backend/dist_memory.go Get, getImpl, getOne"), ("quorum", "pkg/backend/dist_memory.go collectQuorum, getWithConsistencyParallel, chooseNewer"), ("repair", "pkg/backend/dist_memory.go repairReplicas, repairStaleOwners")])
P("Q03", "A hint is kept until its node took it or its lifetime is over, and counted once",
  "A copy that a node could not be sent is queued for it as a copy of the item, to expire one hint lifetime later, unless the cap on all hints or on their bytes is reached; only a node's full queue gives up its oldest hint. A replay gives every hint of every node its turn: one past its lifetime is let go without being sent; any other is sent once to its node, not to be replicated onwards, and let go only if the node took it; the rest stays queued, each once. The totals of hints and bytes change exactly by what comes and goes, and nothing else touches queues or totals.",
  ["histories", "faults", "inputs"], "for every sequence of failed writes, replays, caps and failures of any node",
  "Tests queue a hint or two for one node; a hint lost, sent twice or counted wrong shows only when caps, expiry and failures meet in one queue.",
  ["pkg/backend/dist_memory.go"],
  [("queue", "pkg/backend/dist_memory.go queueHint, adjustHintAccounting"), ("replay", "pkg/backend/dist_memory.go replayHints, processHint")])
P("Q04", "A removal reaches every owner and is not undone by a stale copy",
  "Remove does nothing on a draining node. Each key in turn is removed by its first owner, or forwarded to it once to be replicated, or, if that fails, removed by a replica in its place; every failure that nobody took over is reported. Where it is applied, the key leaves its shard, a tombstone newer than what was removed takes its place (a tombstone's version never goes down), and every other owner but the first is told once, not to tell others. What a peer has is pulled exactly when it is newer than this node's copy and tombstone; only then is a tombstone forgotten, or when it is compacted: once it is as old as the retention. A key is dropped because a peer answered not to have it, never because the peer failed, and leaves a newer tombstone.",
  ["inputs", "histories", "faults"], "for every list of keys, ownership, failure of any peer and sequence of writes, removals and syncs",
  "Tests remove a key once, with every node up; a deleted key that comes back needs a second removal, a failing owner, or a peer whose copy has a particular version.",
  ["pkg/backend/dist_memory.go"],
  [("removal", "pkg/backend/dist_memory.go Remove, removeImpl, forwardOrPromoteRemove, applyRemove"), ("tombstones", "pkg/backend/dist_memory.go distShard.setTombstone, compactTombstones"), ("pull", "pkg/backend/dist_memory.go fetchAndAdopt")])

# ---- eviction algorithms -----------------------------------------------------
EV = ["pkg/eviction/lru.go", "pkg/eviction/lfu.go", "pkg/eviction/cawolfu.go", "pkg/eviction/clock.go"]
P("V01", "Eviction algorithms are only touched under their lock",
  "The index, list, heap, slots and counters of every eviction algorithm are read and written only while its own lock is held, for writing where anything changes; every lock is released on every path, never taken twice, and nothing blocks while it is held.",
  ["schedules"], "for every interleaving of calls",
  "Tests call an algorithm from few goroutines; an unguarded access only fails under a particular interleaving (in the worst case it ends the process).",
  EV + ["pkg/eviction/arc.go"], [("locks", "pkg/eviction LRU.RWMutex, LFUAlgorithm.mutex, CAWOLFU.mutex, ClockAlgorithm.mutex, ARC.mutex")])
P("V02", "An eviction algorithm tracks exactly the keys set, never more than its capacity",
  "For LRU, LFU, CAWOLFU and Clock: after Set the key is tracked with its value; setting a key that is tracked replaces its value and changes nothing else about what is tracked; a new key takes the place of exactly one other when the algorithm is full and of none otherwise; with capacity zero nothing is ever tracked. Get gives the value set for exactly the keys tracked and changes no membership. Delete drops exactly its key. Evict drops exactly one tracked key and names it, and names none only when no key is tracked. Counters and slots stay in step with the index. A negative capacity is refused.",
  ["inputs", "histories"], "for every capacity and sequence of operations",
  "Tests run a few operations over a handful of keys; a key evicted twice, a counter that drifts or an eviction that finds nothing needs a particular history.",
  EV, [("set, get, delete, evict", "pkg/eviction LRU, LFUAlgorithm, CAWOLFU, ClockAlgorithm")])
P("V03", "Each eviction algorithm gives up the key its policy says",
  "LRU and CAWOLFU keep their keys in the order of their last use: a use makes a key the first, everything else keeps its order, and the last is the one given up; their linked list stays whole in both directions, and a node goes back to the pool only once it is out of it. LFU counts and dates each use, tells its heap of every change, and gives up the key used least, of those the one used longest ago; its heap orders by exactly that and keeps every node's position. Clock gives a key a second chance when it is set and at each use; its hand moves on by one slot, takes one second chance from each key it passes, and stops at the first that has none, which is given up.",
  ["inputs", "histories"], "for every sequence of operations",
  "Tests check the victim of a few short histories; a broken link or a stale heap position shows only after particular longer ones.",
  EV, [("list", "pkg/eviction/lru.go, pkg/eviction/cawolfu.go"), ("heap", "pkg/eviction/lfu.go FrequencyHeap"), ("hand", "pkg/eviction/clock.go")])
P("V04", "The sharded algorithm sends each key to one shard and evicts from any",
  "Set, Get and Delete of a key each make exactly one call, of the same method with the same arguments of the shard that the key alone determines, the same for all three, and pass its answer on. Evict tries every shard once until one gives a key, which it passes on, and gives up only when none had any. There is a positive power of two of shards, each made by the name asked for with an equal part of the capacity, rounded up; anything else is refused. Algorithms are made by name exactly as registered: unknown and blank names and negative capacities are refused, and the built-in names make their own algorithm.",
  ["inputs", "configurations"], "for every key, number of shards, capacity and name",
  "Tests use a few shard counts and keys; a shard that is never tried or a key that moves between shards needs particular counts.",
  ["pkg/eviction/sharded.go", "pkg/eviction/eviction.go"], [("shards", "pkg/eviction/sharded.go Sharded"), ("registry", "pkg/eviction/eviction.go AlgorithmRegistry")])

# ---------------------------------------------------------------- HTTP servers
HD = ["pkg/backend/dist_http_server.go"]
P("H01", "No peer request is served before the configured policy admits it",
  "On the dist HTTP server every route runs its handler, reads the node or answers anything but 401 only after the configured policy admitted that very request: the custom verifier when there is one (whatever token is also set), else the whole Authorization header equal, in constant time, to 'Bearer ' and the token; a request the policy admits, or any when none is configured, is never refused. Every route peers use is there, under its method, before the port opens, and no other. The server has the node's own policy, and TLS whenever a TLS configuration was given; a node that signs but verifies nothing is refused at construction without the explicit opt-in, before anything starts. Outgoing requests carry what the custom signer puts, else the token, else nothing.",
  ["inputs", "configurations"], "for every policy, route and request",
  "Tests probe a few routes under a few policies; one route registered without the wrapper, or one combination of verifier and token, goes unnoticed.",
  HD + ["pkg/backend/dist_memory.go"], [("routes and gate", "pkg/backend/dist_http_server.go start/wrapAuth/verify"), ("construction", "pkg/backend/dist_http_server.go validate, pkg/backend/dist_memory.go NewDistMemory/tryStartHTTP")])
P("H02", "A peer request does exactly what its route says, or is refused undone",
  "A set stores exactly the decoded item (its expiration in milliseconds, its version, origin and replicate flag) once; a removal removes the key with the given flag once; a body or parameter that does not parse, a missing key or target is answered 400 and nothing is done; a get answers found with the item exactly when the key's shard has it, and 404 when the key has no owners; health answers 503 exactly while draining; drain, probe, gossip and merkle answer with the outcome of their one operation; a key listing answers the keys of the one shard the cursor names that pass the filter, at most the limit, says when it was cut, and names the same shard, the next one, or the end accordingly. Work done for a request runs under the server's lifetime, not the request's. A limit not given falls back to its own default, and all reach the server.",
  ["inputs", "configurations"], "for every request, key and limit",
  "Tests exchange well-formed requests between nodes of this version; a dropped field, a wrong unit or a malformed request needs another peer.",
  HD, [("handlers", "pkg/backend/dist_http_server.go handleSet/handleGet/handleRemove/register*"), ("listing", "pkg/backend/dist_http_server.go handleKeys/collectShardKeys"), ("limits", "pkg/backend/dist_http_server.go withDefaults")])
HM = ["management_http.go"]
P("G01", "The management port serves what it says, and only past the right gate",
  "Every route of the management server but /health runs its handler only after its gate admitted that very request: the control gate for evict, expire and clear when one is configured, otherwise the common gate, otherwise none; a refused request gets the gate's error and nothing is done; /health needs none. Each route answers with the named figures of the cache and no others, 404 without the capability, 400 without a key; evict, expire and clear each run their one operation once, under the server's lifetime, and report its failure. All routes, and no others, are there before the port is served. Options set their own field before the server is built from them. Start is idempotent and keeps its lifetime and listener; Shutdown ends the lifetime, then stops serving.",
  ["inputs", "configurations"], "for every gate, route, cache and request",
  "Tests probe a few routes with one gate; one route registered without it, or under the weaker one, goes unnoticed.",
  HM, [("routes and gates", "management_http.go mountRoutes/register*/wrap*"), ("options and lifetime", "management_http.go NewManagementHTTPServer/With*/Start/Shutdown")])
P("G02", "The topology event stream misses nothing and always ends",
  "A client of /cluster/events is subscribed before the snapshots it is first sent are taken; it gets the retry hint, the members and the heartbeat once each, then every event taken from the subscription, as it is, in order and flushed before the next is taken. The stream ends when the server's lifetime, the subscription or the client ends, at the first failed write, and whichever way it ends its subscription and context are released. A cache without events is answered 503.",
  ["schedules", "faults"], "for every history of events and every point of failure",
  "A test reads a few frames from one well-behaved client; an event between snapshot and subscription, or a leak after a failed write, needs particular timing.",
  HM, [("stream", "management_http.go handleClusterEvents/streamEventsLoop/writeSSEEvent")])

# ---------------------------------------------------------------- server binary
SV = ["cmd/hypercache-server/main.go"]
P("Z01", "The server's client, management and peer ports open only behind their gates",
  "The client API registers exactly its routes, each once, the key listing before the route that would shadow it; every one but /healthz and /v1/openapi.yaml stands behind the configured policy's gate for its scope, read for what reads and write for what changes, and its handler runs after the gate. The routes stand before the port opens; no port opens when the TLS configuration fails, and with one the port speaks only TLS with it. TLS is off only when neither certificate nor key is set, one without the other is refused, the configured pair is served from TLS 1.2 on, and with a client CA that was read in full clients must present a certificate it signed. The management port gets a gate that is the policy's own verdict for the read scope, its control routes for the admin scope, and the dist server demands the peers' token whenever one is set.",
  ["inputs", "configurations"], "for every configuration and route",
  "Tests exercise a few routes under a few policies; one route under the weaker scope or one TLS misconfiguration that falls back to plaintext goes unnoticed.",
  SV, [("routes", "cmd/hypercache-server/main.go registerClientRoutes"), ("TLS", "cmd/hypercache-server/main.go buildAPITLSConfig/runClientAPI"), ("gates", "cmd/hypercache-server/main.go buildHyperCache")])
P("Z02", "A client request does what its route says and is answered truly",
  "Each keyed route takes the key from the path percent-decoded, so it names the key a batch names; a PUT stores the whole body under it with the ttl of the query, once; a DELETE removes it, a GET or HEAD looks it up. An empty key, a ttl or a body that does not parse is a 400 and nothing is done; success is answered with 200 exactly when the cache reported success, a miss with 404, a draining node with 503 and DRAINING, a key without owners with 503, anything else with 500; a hit carries the value, version and origin of the item found and the owners of its key. In a batch every entry is looked at in turn, gets the operation at most once with its own key, decoded value and ttl in milliseconds, and exactly one answer that says what the cache said of it, with the code of its failure; one failing entry stops no other.",
  ["inputs", "faults"], "for every request and every outcome of the cache",
  "Tests send well-formed requests to a healthy one-node cluster; failures, malformed entries and keys that need escaping are sampled at best.",
  SV, [("single-key handlers", "cmd/hypercache-server/main.go handlePut/handleGet/handleHead/handleDelete/handleOwners"), ("batches", "cmd/hypercache-server/main.go handleBatch*"), ("errors", "cmd/hypercache-server/main.go classifyAndRespond/classifyErrCode")])
P("Z03", "Nothing the cache keeps points into a request's buffer",
  "No string or byte slice that fiber hands a handler (a path or query parameter, a header, the body) is given as it is to an operation of the cache or the distributed backend that may keep it, stored into a map or memory that outlives the request, or sent on a channel: it is copied first. fiber reuses that memory for the next request, so a kept key silently becomes another key.",
  ["inputs", "schedules"], "for every request, on every server of the module",
  "In a test each request has a buffer of its own; the corruption needs two requests on one connection and a later look at what was kept.",
  SV + ["pkg/backend/dist_http_server.go", "management_http.go"], [("keys", "cmd/hypercache-server/main.go pathKey, pkg/backend/dist_http_server.go handleRemove"), ("body", "cmd/hypercache-server/main.go handlePut")])
P("Z04", "Key listings page exactly and identity probes tell the truth",
  "GET /v1/cache/keys lists once, for the pattern and within the cap the query asks for (the default without one, never above the hard limit), and answers the stretch of the listing that starts at the cursor and is at most the limit long, with the listing's own total, cut flag and missing nodes; a next cursor is given exactly when keys remain and is where the page ends, so following cursors visits every listed key once. A cursor, limit or max that is no number in range is a 400 and nothing is listed. GET /v1/me shows the identity the gate resolved, all its scopes and its capabilities; GET /v1/me/can answers whether that identity holds the capability asked, and refuses names outside the closed set.",
  ["inputs"], "for every query, listing and identity",
  "Tests page through one small listing and ask for a few capabilities; off-by-one pages at the edges and one wrong pairing of scope and answer go unnoticed.",
  SV, [("listing", "cmd/hypercache-server/main.go handleListKeys/parseListKeysQuery"), ("identity", "cmd/hypercache-server/main.go handleMe/handleCan")])
P("Q06", "A cluster key listing is complete, or says what is missing",
  "Listing the cluster's keys asks every alive member once, this node's own shards directly and a peer over the transport, each for the same pattern. Every member's keys go into the result, or the member is named as missing, never neither and never both; one failing member fails nothing else. The result is read only after every answer is in; it has each key once, in order, and the cut flag is up whenever keys were left out for the cap. A node lists every key of every shard that matches: everything without a pattern, by prefix without glob characters, else by the glob, and a malformed glob is an error. A peer's listing is all its pages up to the last one, or an error, never a part passed off as the whole.",
  ["inputs", "schedules", "faults"], "for every membership, pattern, cap and failing peer",
  "Tests list a few keys on a healthy cluster; a peer silently left out, a cut that is not flagged or a paging loop that ends early shows only at scale or under faults.",
  ["pkg/backend/dist_keys.go", "pkg/backend/dist_http_transport.go", "pkg/backend/dist_transport.go", "hypercache_dist.go"], [("fan-out", "pkg/backend/dist_keys.go DistMemory.ListKeys/collectPeerKeys"), ("merge", "pkg/backend/dist_keys.go listKeysAccumulator"), ("pages", "pkg/backend/dist_http_transport.go DistHTTPTransport.ListKeys")])
P("Z05", "The server never opens by accident and ends in order",
  "Anonymous access is switched on at start only when the policy in force, with the OIDC verifier attached, has no credential class at all: no token, no basic identity, no certificate identity, no verifier. Both the management and the client port are built with that one policy. A configuration that does not load, an OIDC verifier that cannot be built, a cache or a client API that cannot be constructed ends the start with a nonzero code before any later step, and a cache already built is stopped. After a signal the node is drained, then the client API shut down, then the cache stopped, each once and whatever the step before reported.",
  ["configurations", "faults"], "for every configuration and every failing step",
  "Tests build policies and apps piecemeal; the order of the steps in the main body, which decides whether an OIDC-only server is open to all, is run by none.",
  SV + ["pkg/httpauth/policy.go"], [("start", "cmd/hypercache-server/main.go run/attachOIDCVerifier"), ("end", "cmd/hypercache-server/main.go awaitShutdown")])
