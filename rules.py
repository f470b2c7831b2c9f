"""Per property: how the cases are made and what makes one non-trivial (copied into the evidence)."""
SIM = ("the control plane is an in-memory implementation of the generated ADS client interface",
       "virtual time (testing/synctest): back-off, deadlines and sweeps are exact",
       "Go 1.25 builds the harness, the repository's own tests use Go 1.23")
RULES = {
    "C01": dict(
        rule="random scripted histories (lookups, good/bad/burst/unknown responses, name tables, stream failures, outages, time) "
             "of 60 steps against the real manager and client; after every step the dumped cache, and now and then a lookup of "
             "every subscribed name, is compared with the fold of the accepted responses. Also concurrent histories, registrations of "
             "hundreds of names, and initialisations against control planes that first reject, break or answer undecodably. Non-trivial: at least "
             "8 steps with at least 3 responses processed; distinct by the sequence of abstract steps.",
        assumptions=list(SIM)),
    "C02": dict(
        rule="as C01 with mostly rejected, mixed and unknown responses; every request on the wire is matched with the response "
             "whose nonce it echoes, and the dump before and after a rejected response is compared byte for byte; every stamp and name "
             "table of a rejected response is watched for the rest of the history. Also: responses before, between and after evictions (types "
             "whose last name was withdrawn, rejected responses between sweeps), bursts read while the sender is stalled, initialisations "
             "whose first responses are rejected, empty versions, long error details. Non-trivial: at least 8 steps with at least one rejected "
             "response; distinct by the sequence of abstract steps.",
        assumptions=list(SIM)),
    "C03": dict(
        rule="as C01 with mostly lookups, failing sends, outages and sweeps; the names and the node of every request are compared "
             "with the model's interest set, and again once the client is quiescent; and timetables of sweeps (as C19) with stream failures, and initialisations over failing streams. "
             "Non-trivial: at least 8 steps with at least 3 requests; distinct by the sequence of abstract steps.",
        assumptions=list(SIM)),
    "C04": dict(
        rule="as C01 with stream failures, failing sends, outages (up to 50 minutes), stuck sends, failures of every kind during the "
             "initialisation, and authentication rejections (of the stream, of its creation, at start-up, after outages). Non-trivial: at least "
             "8 steps with at least one reconnection, or an authentication rejection; distinct by the sequence of abstract steps.",
        assumptions=list(SIM)),
}

_EX = ("Held on the generated executions only, nothing is proved. Trusted: the fake control plane (in-memory implementation of "
       "the generated client interface), the reference model, testing/synctest virtual time. ")
TECH = {
    "C01": "runtime monitoring: model-based random and concurrent histories against an in-memory control plane, cache compared with the fold of accepted responses",
    "C02": "runtime monitoring: wire monitor matching every request with the response it echoes, cache dumps around rejected responses",
    "C03": "runtime monitoring: wire monitor comparing names and node of every request with the model's interest set",
    "C04": "runtime monitoring with fault injection: per-stream wire monitor, lookups during outages, virtual-time watchdog",
}
NOTE = {
    "C01": _EX + "The fold is exact after every step of a scripted history and after the resynchronisation of a concurrent one.",
    "C02": _EX + "In concurrent phases a later subscription request may legitimately repeat a nonce, so only the first echo must be the acknowledgement.",
    "C03": _EX + "A request sent while a lookup is in flight may or may not list its name; the final request must.",
    "C04": _EX + "Failures are injected at the ADS client interface (stream creation, Send, Recv, stalls), not on sockets.",
}
NA = {}
RULES["C05"] = dict(
    rule="timetables in virtual time of lookups (own deadlines, cancellations) against responses that supply, withhold, withdraw or corrupt "
         "names, with delays injected between the steps of a lookup; lookups of unknown kinds and hostile names; after Close, after "
         "authentication rejections, with a stalled sender. Every lookup of every scenario is checked for value xor error, kind, "
         "known stamp and its exact virtual deadline. Non-trivial: at least one lookup and one accepted response; distinct by the timetable.",
    assumptions=list(SIM))
RULES["C06"] = dict(
    rule="timetables in virtual time: 1-264 lookups of 1-3 names with own deadlines/cancellations against 1-10 deliveries, random delays "
         "at the four VerifYield points, plus the complete grid of two lookups x cancellation x delivery x delay placement (11520 "
         "timetables). A lookup to which a supply is accepted strictly before its deadline must return it at that instant plus injected "
         "delays. Non-trivial: at least one lookup and one accepted response; distinct by the timetable.",
    assumptions=list(SIM) + ["a delivery and a deadline of the same virtual instant may be ordered either way"])
TECH["C05"] = "runtime monitoring: every lookup of hostile scenarios checked for value xor error, kind and exact virtual-time deadline"
TECH["C06"] = "runtime monitoring with controlled delays: timetables of waiters and deliveries in virtual time, wake-up oracle over the recorded instants"
NOTE["C05"] = _EX + "The deadline is exact because time is virtual; injected delays are added to it."
NOTE["C06"] = _EX + "Delays at the VerifYield hooks place deliveries between the steps of a lookup; no verdict needs a hook to be reached."
RULES["C19"] = dict(
    rule="timetables of 3-9 virtual minutes (then 20 minutes of idleness): lookups with periods around the expiry period, on the edge "
         "of sweeps, concurrent with sweeps, updates, withdrawals and stream failures, behind a control plane that answers every subscription or "
         "only what the client does not know yet; crowds of up to a thousand names left idle together, also with responses arriving in the middle of "
         "the sweep; the dumped cache and the last request on the "
         "wire are checked after every step. Non-trivial: at least one eviction observed, or a lookup waiting across a sweep; "
         "distinct by the timetable.",
    assumptions=list(SIM) + ["the expiry period is 30 s and a sweep happens at least every 30 s"])
TECH["C19"] = "runtime monitoring in virtual time: cache snapshots and wire requests around real sweeps compared with access bounds"
NOTE["C19"] = _EX + "The expiry period (30 s) is part of the oracle; the phase of the sweeps is not."
_DEC = ("the reference summary is computed from the protos by the harness (Go regexp.MatchString for regular expressions)",)
RULES["C11"] = dict(
    rule="generated listeners and route tables (several per response; virtual hosts, routes in order, all path specifiers, several "
         "conditions per header, weighted clusters, retry policies, filter chains and default chain, Thrift proxies, inline and named "
         "tables, buckets at any position as LocalRateLimit or TypedStruct among other filters) decoded by the real functions and compared "
         "field by field with a summary computed from the protos; matchers are compared by probing (all hold, one violated, one absent, random). "
         "Non-trivial: at least one route or filter; distinct by the protos.",
    assumptions=list(_DEC))
RULES["C12"] = dict(
    rule="generated clusters, load assignments and name tables (1-40 resources per response) decoded by the real functions and compared "
         "field by field with the protos. Non-trivial: at least one endpoint, host or cluster; distinct by the protos.",
    assumptions=["the reference summary is computed from the protos by the harness"])
TECH["C11"] = "runtime monitoring: differential oracle, decoded fields and matcher behaviour against a summary of the generated protos"
TECH["C12"] = "runtime monitoring: differential oracle, decoded fields against a summary of the generated protos"
NOTE["C11"] = "Held on the generated protos only. Trusted: the proto library and the reference summary. Conditions of unsupported kinds are only required not to weaken the supported ones."
NOTE["C12"] = "Held on the generated protos only. Trusted: the proto library and the reference summary. The mapping of discovery types and policies the repository cannot represent is not judged."
RULES["C08"] = dict(
    rule="generated listeners (HTTP and Thrift filter at random chains) and route tables with overlapping predicates from small pools, 25 "
         "calls each (most aimed at a random route, some near misses), all transports, metadata through metainfo or a custom extractor; the "
         "cluster and timeout chosen by XDSRouter.Route are compared with a reference matcher over the protos. Some cases run through the "
         "real manager with three successive configurations. Non-trivial: a call of an existing listener; distinct by configuration and call.",
    assumptions=list(_DEC) + ["at most one HTTP and one Thrift filter per listener"])
TECH["C08"] = "runtime monitoring: differential oracle, the route chosen for generated calls against a reference matcher over the protos"
NOTE["C08"] = _EX + "Cluster names are unique, so the cluster chosen identifies the route."
RULES["C09"] = dict(
    rule="the random source of the router is replaced by one the monitor decides: for every vector of up to 4 weights below 6 (5 below 8 in the "
         "thorough tier), every value of every draw is tried, which gives the exact probability of each cluster; for random vectors of any "
         "magnitude, length (up to 600) and order, the draw is probed at every cumulative boundary (several orders), power of two and random "
         "values, and the pieces between the changes are measured (error below 1e-6). Besides, without control: every vector of up to 3 weights "
         "from {0,1,2,5,2^31} and random ones on 1-3 routes drawn alternately from 1-4 goroutines, through the router or the middleware, HTTP "
         "and Thrift, with exact support checks and frequency bounds of 12 standard deviations + 40. Non-trivial: a vector decided exactly, "
         "measured, or drawn from with at least two clusters; distinct by the vector.",
    assumptions=["the draws are controlled when they come from the functions of github.com/bytedance/gopkg/lang/fastrand; any other source is left "
                 "to the statistical oracle, which does not see a deviation below 12 standard deviations"])
TECH["C09"] = "runtime monitoring: the selections of the real router observed under every value of its (replaced) random source, and a statistical oracle without it"
NOTE["C09"] = _EX + "False-alarm probability of the statistical part below 1e-15 per vector."
RULES["C10"] = dict(
    rule="generated clusters (EDS with and without service name, inline, static) and load assignments (0-4 localities, 0-60 endpoints, IPv4, "
         "IPv6, host names, weights) resolved through XDSResolver: over decoded resources, and end to end through the real manager against a "
         "control plane that answers what is requested, with updates, removals, stream failures, idle time, updates racing with resolutions, "
         "and withheld resources. Non-trivial: a resolution with a defined expected list; distinct by that list.",
    assumptions=list(SIM) + ["an empty inline load assignment together with endpoints under the EDS name is not generated"])
TECH["C10"] = "runtime monitoring: differential oracle over resolver results, end to end against an in-memory control plane with updates and faults"
NOTE["C10"] = _EX + "A resolution racing with updates may mix a cluster and an endpoint state that were both in force while it ran."

RULES["C15"] = dict(
    rule="calls through the routing middleware, retry container and resolver a real client suite installs: generated configurations (as C08) "
         "with the destination undecided, decided before, decided by the retry key, decided before an update, or absent, and next steps that fail; "
         "structurally mutated configurations (fields cleared, emptied, repeated, edge values, also inside packed messages; only what the "
         "decoders accept), over the decoders and end to end; twelve ways of withholding (nothing, listener only, no match, no cluster, zero weights, "
         "withdrawn, rejected response, outage, rejected client, cancellation ...) in virtual time; calls racing with updates. A recording next "
         "step sees destination, lock and timeout at the moment it is entered. Non-trivial: every call; distinct by configuration and call.",
    assumptions=list(SIM) + ["the rpcinfo of a call is built by the harness as Kitex builds it"])
TECH["C15"] = "runtime monitoring: recording next endpoint and reference matcher around the real middleware, retry key and resolver; mutated and withheld configurations"
NOTE["C15"] = _EX + "A call whose rpcinfo itself is missing is outside the property."
RULES["C16"] = dict(
    rule="histories of 14 steps through the real manager and client (updates, small changes, repetitions, empty and rejected updates, bursts, "
         "reconnections, other types, suites with service- or instance-level breaker created before, between and while updates arrive); after "
         "every step the breaker configurations dumped from every real client suite are compared with those derived from the latest accepted "
         "update, and at the end calls are driven through the breakers and every decision is compared with a reference breaker. "
         "Non-trivial: at least one cluster with outlier detection was accepted; distinct by the history.",
    assumptions=list(SIM))
TECH["C16"] = "runtime monitoring: dumps and decisions of the real breakers compared with the fold of accepted cluster updates"
NOTE["C16"] = _EX + "A cluster that no update configured for a suite may have Kitex's default configuration or be disabled."
RULES["C17"] = dict(
    rule="histories through the real manager and client (full and partial pushes, several tables sharing clusters, replacements, removals of "
         "routes and clusters, rejected updates, evictions, reconnections, suites created before, between and during updates); after every "
         "step the policies dumped from every retry container are compared with those derived from the tables in force, and calls with "
         "recorded attempts probe the installed policies. Non-trivial: at least one accepted table; distinct by the history.",
    assumptions=list(SIM) + ["when routes to one cluster disagree, the policy of any of them is accepted",
                             "after an eviction, judged only from the next accepted route-table update"])
TECH["C17"] = "runtime monitoring: dumps and attempts of the real retry containers compared with the policies derived from the tables in force"
NOTE["C17"] = _EX + "Values outside the ranges Kitex accepts (more than 5 attempts, a fixed back-off of 0) are not generated."
RULES["C18"] = dict(
    rule="histories of 14 steps through the real manager and client (inbound listeners with chains with and without ports, zero and non-zero "
         "buckets, inbound listener missing and back, rejected updates, reconnections, name tables, idle time, other types, bursts; servers "
         "created before, between and while updates arrive); after every step the limit.Option of every real server suite and the last call its "
         "recording updater received are compared with the limit derived from the latest accepted listeners. Non-trivial: every history; "
         "distinct by the history.",
    assumptions=list(SIM) + ["when several chains or buckets apply to a port, the limit of any of them is accepted"])
TECH["C18"] = "runtime monitoring: limit.Option and recorded updater calls of the real server suites compared with the fold of accepted listeners"
NOTE["C18"] = _EX + "The limiter itself is Kitex's; what it is told is checked."
RULES["C13"] = dict(
    rule="responses of 0-5 resources of every type: well-formed ones (also with unsupported matchers, specifiers, filters), structural "
         "mutations of the messages (also inside packed messages), byte mutations, truncations, merged and unknown fields, other messages, "
         "type URLs, random and wire-shaped bytes, deep nesting, and aimed faults (routes without match or action in tables, inline tables and "
         "Thrift proxies, undecodable filters and rate limits) at random positions, decoded by the real functions and, in other cases, sent "
         "through the real client, which must reject or acknowledge each and afterwards still apply a good response of every type. "
         "The verdict comes from the harness's own reading of the bytes. Non-trivial: at least one resource; distinct by the bytes.",
    assumptions=["a response holds no nil resource (none can come from the wire)",
                 "an HTTP connection manager without table name, an API listener, and a rate limit behind a bucket may be rejected or not"])
TECH["C13"] = "runtime monitoring: structure-aware fuzzing of the real decoders and client with an independent three-valued verdict and panic monitor"
NOTE["C13"] = _EX + "The independent reading uses the same proto library as the repository."
RULES["C14"] = dict(
    rule="histories of 12 steps of 2-13 addresses (hosts of 1-5 labels, related to each other, mixed case, ports; hostile spellings) under "
         "random namespaces, NAMESPACE overrides and domains: name tables (empty, split, with hosts without address, mixed case, IPv6), listener sets "
         "with the designated listeners and decoys (other addresses, other ports, literal hosts), both in any order, rejected ones, "
         "reconnections, lookups before, during and after updates; after every step the stamp of every lookup is compared with that of the listener "
         "the reference designates. Plus all hosts of up to 4 (thorough: 5) labels over {a, svc, ns1}. Non-trivial: at least one address bound; "
         "distinct by the history.",
    assumptions=list(SIM) + ["an address looked up since the last listener response may be bound at once or by the next response",
                             "the keys of a table do not differ only in case"])
TECH["C14"] = "runtime monitoring: stamped listeners, the stamp every lookup returns compared with a reference binding over generated name tables"
NOTE["C14"] = _EX + "Hosts with three labels that are not <name>.<namespace>.svc are taken as complete, as the repository documents."
RULES["C20"] = dict(
    rule="bootstrap environments (each variable present, empty or absent; addresses that are prefixes and suffixes of one another, format verbs, "
         "metadata of every JSON kind, cut and malformed metadata, INSTANCE_IPS lists and other kinds, NAMESPACE of every kind) through the real "
         "constructor; every request the client sends (subscriptions, acknowledgements, rejections, evictions, reconnections) has its node "
         "compared with the environment, and the namespace in force is read off the listener a one-label host is bound to; all 27 ways of "
         "presence of the required variables x 16; histories of Init and SetXDSResourceManager (failing, repeated, concurrent) each in a "
         "process of its own, the manager identified by who answers a lookup. Non-trivial: requests were sent, or a history of initialisations; "
         "distinct by environment and kinds of requests.",
    assumptions=list(SIM) + ["an INSTANCE_IPS entry that is not a string only has to hold the pod IP afterwards",
                             "metadata that is not valid JSON counts as none given"])
TECH["C20"] = "runtime monitoring: node of every request compared with the environment; initialisation histories in separate processes"
NOTE["C20"] = _EX + "Environment variables consisting of blanks are not generated."
RULES["C07"] = dict(
    rule="(1) every schedule of 3 actions (and random ones of 7; thorough: every one of 5) out of: two lookups of a name each advanced to its "
         "next VerifYield point, a response with the name, without it, a rejected one, cancellation, a sweep, a broken stream, another lookup; for "
         "every kind of resource, never looked up, wanted or cached; (2) 3-12 lookup goroutines, updates, bursts, rejected responses, handler "
         "and suite registrations, dumps and stream failures on a grid of virtual instants, with delays at the yield points, also over several "
         "sweeps: all lookups and dumps are recorded with begin and end stamps of one atomic counter and checked for linearizability against "
         "the sequence of responses (begin: Recv returns, end: Recv is entered again), and every lookup for handlers and suite policies in "
         "force; (3) Close at the instant of a failure or an answer; (4) the same mix, with router, resolver, retry and breaker calls, under the "
         "race detector against a control plane that shares nothing, and the decoders of several clients in parallel. Non-trivial: every history; distinct by the order of begins and ends (1: the "
         "points reached; 4: what every goroutine read).",
    modes=["plain", "race"],
    assumptions=list(SIM) + ["a race inside Kitex (its retryers read their policy again without their lock) is not the repository's",
                             "the absence of a name is only judged when it was looked up before the response and no sweep can have come between"])
TECH["C07"] = "runtime monitoring: race detector, virtual-time deadlock watchdog, and a linearizability checker over recorded histories, on controlled and random schedules"
NOTE["C07"] = _EX + "The schedules of (1) are complete up to their length; those of (2)-(4) are whatever the scheduler and the injected delays produce."
