COMMITS = []
def P(id, title, statement, over, qtext, why, files, mech, technique, note, **kw):
    return dict(id=id, title=title, statement=statement,
                quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                technique=technique, level_note=note)
LAWTECH = "summary-based value analysis (value numbering with loop summaries on SSA) with random interpretation of the summaries"
LAWNOTE = "Laws are decided on summaries computed from the current source, never by running it; group elements, scalars, hashes and signatures are modelled by their algebra (kyber trusted). Equality of summaries is a normal form identity or a randomised polynomial identity test with error below 2^-50 per sample. A law whose summary cannot be closed is reported as undecided in the evidence, not as holding."
PROPS = [
P("C04", "Errors are never swallowed",
  "Whenever a step of a computation reports an error (building, decoding or verifying data or proofs, sending a message, storing state), the operation that called it reports an error too; at the outermost goroutine or handler it is at least logged and the work stops. No operation reports success after one of its steps, including one done by a parallel worker, reported an error.",
  ["fault_sequences", "inputs"], "every call that can fail, on every control-flow path and for every failing step, in the library, protocols, services and command line",
  "Tests only take the paths on which the steps succeed; nearly all failure paths are never executed.",
  ["lib/crypto.go", "lib/shuffle/shuffle_proofs.go", "protocols/key_switching_protocol.go", "services/service.go", "cmd/unlynx/client.go"],
  [("error returned or wrapped by the caller", "all of lib, protocols, services, cmd"), ("worker error recorded under a mutex and checked after the join", "lib/*/..._proofs.go, protocols")],
  "path-sensitive error-value flow analysis on SSA",
  "Every error-returning call site is followed on all CFG paths. Trusts callees outside the module to report their failures through their error result."),

P("C05", "Parallel workers are joined and never race",
  "Every operation that splits its work over goroutines waits for all of them before it uses or returns their results, on every path; each spawned worker announces its end exactly once, also when it fails; and while workers run, no memory location is accessed by two of them (or by a worker and its spawner before the join) with at least one write, unless both hold a common lock or each worker owns its own element.",
  ["schedules"], "every interleaving of the workers of every parallel loop, protocol phase and service handler",
  "The default test configuration often runs with a single chunk, and a race needs a particular interleaving that the scheduler rarely picks; CGO-free builds have no race detector.",
  ["lib/crypto.go", "lib/constants.go", "lib/shuffle/shuffle.go", "lib/deterministic_tag/deterministic_tag_proofs.go", "protocols/deterministic_tagging_protocol.go", "services/service.go"],
  [("WaitGroup join of chunk workers", "lib/utils.go StartParallelize/EndParallelize, lib/*"), ("disjoint index ranges per worker", "lib/*, protocols/*")],
  "join / ownership / lockset analysis on SSA", "Index disjointness is decided for chunk loops and per-iteration variables; calls through interfaces outside the module are trusted not to retain their arguments."),
P("C06", "Locks are balanced and guarded state is only touched under its lock",
  "Every lock taken is released on every path out of the function that took it, panics excepted; and each piece of state that the code guards with a mutex (the discrete-logarithm table and its counters, the stored responses and their sequence counters, the survey's shared fields) is only read or written while that mutex is held, in every function.",
  ["schedules", "inputs"], "every control-flow path and every interleaving of concurrent callers",
  "Tests call these operations from one goroutine on success paths; a missed unlock or unguarded access only shows with a second concurrent caller.",
  ["lib/crypto.go", "lib/store/store.go", "services/service.go"],
  [("mutex of the decryption table", "lib/crypto.go discreteLog"), ("Store mutex", "lib/store/store.go")],
  "lock-state dataflow and guarded-by analysis on SSA", "The guarded-by relation is derived per package from the accesses made under each mutex and from the table in locks.go; services fields documented as written by one phase are out of scope."),
P("C07", "Waiting inside a protocol is bounded",
  "A protocol instance never waits forever for another server: each receive from the network and each wait for the result of a protocol phase is bounded by a timeout whose expiry is reported as an error, and the waiting time is the configured one.",
  ["fault_sequences", "schedules"], "every wait in a protocol or protocol-driving service phase, for every pattern of lost or late messages",
  "In the tests every peer answers, so the timeout branch of a wait never runs and a missing one goes unnoticed.",
  ["protocols/key_switching_protocol.go", "protocols/collective_aggregation_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "services/service.go", "lib/constants.go"],
  [("select with time.After(timeout)", "protocols/*"), ("TIMEOUT constants", "lib/constants.go")],
  "select / receive structure analysis on SSA", "Barriers between the phases of a survey at the service level (which wait for clients) are unbounded by design and not part of the property."),
P("C14", "Secrets stay with their owner",
  "A server's private key, its secret for a survey, the random scalars and permutations it draws, and a querier's private key never leave their owner: no message, reply, published proof, log line or error text carries one of them or a value it can be read off from. Only results that hide them may leave: a group element multiplied by the secret, or a zero-knowledge proof about it.",
  ["inputs", "histories"], "every message, reply, proof, log line and error of every operation, on every path including error paths",
  "Tests check what arrives, not what else could be read from it; a disclosure on an error path or in an extra field changes no tested result.",
  ["protocols/key_switching_protocol.go", "protocols/deterministic_tagging_protocol.go", "lib/key_switch/key_switch_proofs.go", "services/api.go", "services/service.go"],
  [("private key and survey secret (Private, SurveySecretKey, Pick)", "protocols/*, services/service.go"), ("message sends, replies, log and error texts", "protocols/*, services/*, lib/*"), ("Published... proof types", "lib/*/…_proofs.go")],
  "interprocedural information-flow (label propagation) analysis on SSA", "Explicit flows only; field-based memory, call contexts two sites deep. Trusts that kyber's proofs and scalar multiplication hide their secrets."),
P("C15", "Sensitive attributes leave the provider only encrypted",
  "An attribute that a data provider hands in as sensitive leaves the provider's client only inside a ciphertext blinded with a fresh secret scalar: never in a message field sent in clear, in an unblinded ciphertext, in a log line or in an error text.",
  ["inputs", "histories"], "all responses, whatever their attributes and values, on every path including error paths",
  "Tests decrypt what was sent and find the right value, which also succeeds when the value additionally, or only, travels in clear.",
  ["lib/structs.go", "lib/crypto.go", "services/api.go"],
  [("EncryptDpClearResponse", "lib/structs.go"), ("encryptPoint, IntToCipherText", "lib/crypto.go"), ("EncryptDataToSurvey", "services/api.go")],
  "interprocedural information-flow (label propagation) analysis on SSA", "Explicit flows only; field-based memory. A group element counts as encrypted when it was added to an element multiplied by a secret scalar."),
P("C16", "Cryptographic randomness is fresh and comes from the suite",
  "Every random scalar, point, permutation and blinding factor used by the cryptographic operations comes from the suite's cryptographic random stream (or, for proof challenges, from the hash of what is proved), never from a non-cryptographic or constant source; and each value that needs its own randomness gets a fresh draw in its own memory, so that no two ciphertexts, keys or list elements share one.",
  ["inputs", "histories"], "every random draw in the library, protocols and services",
  "Outputs drawn from a weak or reused source decrypt correctly, so functional tests cannot tell.",
  ["lib/crypto.go", "lib/shuffle/shuffle.go", "lib/key_switch/key_switch.go", "lib/differential_privacy/diffprivacy.go"],
  [("SuiTe.RandomStream / random.New passed to Pick", "lib/crypto.go, lib/shuffle/*"), ("imports of math/rand", "all packages")],
  "source-provenance dataflow on SSA, and freshness laws decided by " + LAWTECH, "Trusts kyber's random stream; the laws are decided on summaries computed from the source, never by running it. Simulation-only data generation may use other sources."),
P("C17", "Every message sent has a registered receiver",
  "Each message type a protocol or service sends is registered with the network layer and has a receiver in the same protocol or service (a registered channel that the protocol reads, a processor, or a client handler); every protocol constructor is registered under exactly one unique name; the service creates the instance matching the protocol name it is asked for and handles every message it registered for.",
  ["histories"], "all message types, channels, handlers, processors and protocol names of the code base",
  "A message that is never received only shows up as a hang in the one flow that uses it, and many flows are skipped by the tests.",
  ["protocols/key_switching_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "services/service.go", "services/api.go"],
  [("network.RegisterMessage / onet.GlobalProtocolRegister in init", "protocols/*, services/service.go"), ("RegisterChannel in New...Protocol", "protocols/*"), ("RegisterProcessor, RegisterHandler, Process, NewProtocol", "services/service.go")],
  "registration cross-reference over the type-checked program", "Exhaustive over the source; message types are resolved statically at each send."),
P("C18", "Package-level state is not changed while queries run",
  "Package-level variables hold configuration fixed at initialisation: no operation of the library, protocols or services writes one (or memory reachable from it) afterwards, so one query's run cannot influence another's; the only exceptions are the decryption table (guarded, and grown monotonically) and the explicit configuration setters.",
  ["histories", "schedules"], "every function reachable in the packages, for any interleaving of surveys in one process",
  "Tests run one query at a time in a fresh process, so leakage between queries through globals is invisible.",
  ["lib/crypto.go", "lib/constants.go", "protocols/*.go", "services/service.go"],
  [("global variables", "lib/constants.go, lib/crypto.go, protocols/*")],
  "global write-effect analysis on SSA", "Writes through aliases are followed through fields, slices and calls within the module."),

P("C01", "Ciphertext arithmetic matches arithmetic on the plaintexts",
  "For every key, plaintext and vector: an encryption (of an integer, a scalar or a vector, with or without returned randomness) is the ElGamal ciphertext of exactly that plaintext under exactly that key, so decryption gives it back; adding, subtracting, accumulating or multiplying ciphertexts or vectors, in place or not, does the same to the plaintexts of every element; equality tests of ciphertexts, vectors and tags hold exactly when every component is equal; generated key pairs match and sum to the collective key.",
  ["inputs"], "all keys, plaintexts, scalars, vector lengths, and both the sequential and the parallel code path",
  "Tests try a handful of small values and lengths; a wrong element at one position of a chunk, sign or length goes unnoticed.",
  ["lib/crypto.go", "lib/constants.go"],
  [("Add / Sub / MulCipherTextbyScalar / Acum", "lib/crypto.go"), ("EncryptInt / EncryptScalar / Encrypt*Vector / Decrypt*", "lib/crypto.go"), ("chunked parallel loops", "lib/crypto.go")],
  LAWTECH, LAWNOTE),
P("C02", "Collective transformations preserve what is encrypted",
  "Whatever the number of ciphertexts, a key switch to which every server has contributed yields the same plaintexts under the new key; deterministic tags depend only on the plaintext and the servers' secrets, in any order of the servers, and are equal for equal plaintexts; shuffling, with or without precomputed blinding, only re-randomises and reorders; adding or removing a server's share keeps the plaintext and changes the key by exactly that server's key.",
  ["inputs", "histories"], "all ciphertext vectors, secrets, blinding values and server orders",
  "Tests use one topology with a few small vectors; the algebra must hold for all values, positions and lengths.",
  ["lib/key_switch/key_switch.go", "lib/deterministic_tag/deterministic_tag.go", "lib/shuffle/shuffle.go", "protocols/utils/addrm_server_protocol.go"],
  [("KeySwitchSequence", "lib/key_switch"), ("DeterministicTagSequence", "lib/deterministic_tag"), ("ShuffleSequence, PrecomputeForShuffling", "lib/shuffle"), ("changeEncryption", "protocols/utils/addrm_server_protocol.go")],
  LAWTECH, LAWNOTE + " The per-server operations are decided; their composition over the network tree is not part of this property."),
P("C03", "Operations leave what they are given unchanged",
  "Computing with ciphertexts, vectors, keys, secrets, responses and lists of them never changes the values passed in: sums, differences, products, encryption, decryption, splitting a secret, key switching, tagging, shuffling, filtering, encoding, inserting into the store, and creating or verifying any proof leave their operands as they were, and a result handed to the caller is memory of its own, so that changing it later does not change what it was computed from.",
  ["inputs", "histories"], "all operand values, lengths and positions, including operands that are used again by a later operation",
  "Group elements are changed in place by the arithmetic library, so an operand that is silently overwritten still gives the right first result; only a later use of it, which tests rarely make, is wrong.",
  ["lib/crypto.go", "lib/structs.go", "lib/shuffle/shuffle.go", "lib/key_switch/key_switch.go", "lib/deterministic_tag/deterministic_tag.go", "lib/store/store.go"],
  [("fresh point or scalar as the receiver of every group operation", "lib/crypto.go, lib/*/*.go"), ("Clone before splitting a secret", "lib/crypto.go SplitScalar"), ("copies made by the store before it adds", "lib/store/store.go, lib/structs.go AddInMap")],
  LAWTECH, LAWNOTE + " Writes through references are tracked by the same summaries, element by element; a law whose effects cannot be tracked completely counts as undecided. Operations documented to work in place (the receiver of Add, noise added by the differential-privacy server to the pulled results) are excluded."),
P("C08", "A protocol run computes what it announces, at every server and in any order",
  "For any data and any position of a server in the tree or ring: key switching asks every server for its share of every ciphertext and gives ciphertexts that the new key opens to the same values, however many children a server has; collective aggregation adds up the same groups of all servers and keeps different ones, whatever order the children's messages arrive in, padding short vectors with encryptions of zero; each server of a shuffle re-randomises and reorders what it received under the collective key and hands it to the next server of the ring, the first one giving the result unchanged; tagging and shuffling-with-tagging let every server add its part and take out its key exactly once; local aggregation, adding or removing a server, and proof verification give the result of all the data they were given. Every run ends exactly once, and published proofs are about the data received and the data sent on.",
  ["inputs", "schedules"], "all data, keys, secrets, tree positions, numbers of children (key switching) and arrival orders of siblings' messages; compositions of two or three servers",
  "Tests run fixed topologies on one machine with a few values, where every node sees the same order of messages.",
  ["protocols/key_switching_protocol.go", "protocols/collective_aggregation_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling+ddt_protocol.go", "protocols/utils/"],
  [("Start / Dispatch", "protocols/*.go, protocols/utils/*.go"), ("ascending and descending phases", "protocols/key_switching_protocol.go, protocols/collective_aggregation_protocol.go"), ("NewShufflingProtocol and siblings: next node of the ring", "protocols/*.go")],
  LAWTECH + " over a model of the network", LAWNOTE + " Channels are queues, SendTo / SendToParent / SendToChildren record what is sent; onet's delivery itself, lost messages and time-outs are outside."),
P("C10", "Proof checks accept honest work and reject altered statements",
  "For each kind of proof (key switching, deterministic tagging and its added point, add/remove server, aggregation, shuffle): the proof made for an operation that was really done verifies; verification fails when any ciphertext, key or result named by the proof is replaced by another value; and verifying a list at threshold 1.0 succeeds only if every proof of the list verifies, for any list length.",
  ["inputs"], "all statements, witnesses, single-value alterations and list lengths",
  "Tests verify a few honest proofs and one or two wrong ones; each value a proof has to bind, in each position, is a separate case.",
  ["lib/key_switch/key_switch_proofs.go", "lib/deterministic_tag/deterministic_tag_proofs.go", "lib/add_rm_server/add_rm_server_proofs.go", "lib/aggregation/aggregation_proofs.go", "lib/shuffle/shuffle_proofs.go"],
  [("*ProofCreation / *ProofVerification", "lib/*/..._proofs.go"), ("*ListProofVerification", "lib/*/..._proofs.go")],
  LAWTECH, LAWNOTE + " A kyber proof is modelled as accepted exactly when the secrets satisfy the predicate over the published points (zero-knowledge soundness of kyber trusted)."),
P("C11", "Encoding and decoding give the same data back",
  "Everything the system turns into bytes, base64 text or map strings and back (points, scalars, ciphertexts, vectors, arrays of vectors, stored responses with or without tags, precomputed blinding, all protocol messages and their length tables, published proofs and lists of them) decodes to exactly the data that was encoded: same values, same order, same lengths.",
  ["inputs"], "all values and lengths, including empty parts",
  "Tests encode a few fixed values; sizes, offsets and empty components vary without bound.",
  ["lib/crypto.go", "lib/structs.go", "lib/structs_proofs.go", "lib/shuffle/shuffle_proofs.go", "lib/key_switch/key_switch_proofs.go", "lib/aggregation/aggregation_proofs.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling_protocol.go", "protocols/collective_aggregation_protocol.go"],
  [("ToBytes / FromBytes", "lib/*, protocols/*"), ("Serialize / Deserialize, MapBytesTo..., lengths tables", "lib/*")],
  LAWTECH, LAWNOTE + " Input bytes that were not produced by the encoder are out of scope."),
P("C12", "Reorganising data keeps every value in its place",
  "Flattening responses into ciphertext vectors or rows and rebuilding them, preparing the input of tagging, adapting arrays, permuting in a shuffle, and turning a data provider's answer into ciphertexts never drops, duplicates or exchanges a value: every value comes out at the position, in the response and in the role (grouping, where, aggregate) it went in, and shuffled responses are a permutation of the input in which whole responses move together.",
  ["inputs"], "all numbers of responses and attributes, including none",
  "Tests use a few fixed shapes; index arithmetic errors need other shapes.",
  ["lib/structs.go", "lib/shuffle/shuffle.go", "protocols/deterministic_tagging_protocol.go", "protocols/shuffling_protocol.go", "lib/crypto.go"],
  [("matrix / process response conversions", "protocols/*, lib/structs.go"), ("RandomPermutation, ShuffleSequence", "lib/shuffle/shuffle.go"), ("FromDpResponseToSend", "lib/structs.go")],
  LAWTECH, LAWNOTE),
P("C13", "A survey runs its phases on its own data and answers the asking client",
  "Each phase of a survey takes exactly what the survey has at that stage and stores its result for the next stage: responses sent to a server are filed once, under their survey; the shuffle, tagging, collective aggregation and key switching of a survey work on that survey's data only, each on everything the previous phase produced and with the survey's own keys and secrets; the predicate keeps exactly the responses whose attributes satisfy it; the phases follow each other in order and only the first server of the roster drives the collective ones. The results go to the client that asked for them and are switched to the key in its request. A server announces a new survey to all others and waits for each of them, and the barriers count every data provider and server once. The client encrypts what it says it does under the collective key, asks with its own key and reads every group and aggregate of the answer.",
  ["inputs", "histories"], "all survey descriptions, responses, keys and messages; every server position in the roster (phases taken one by one and in their fixed sequence)",
  "The service tests run whole surveys on a few fixed queries, most of them skipped in short runs; a wrong key, a phase left out for one kind of query or data of another survey needs particular queries or two surveys at once.",
  ["services/service.go", "services/api.go"],
  [("ShufflingPhase, TaggingPhase, AggregationPhase, DROPhase, KeySwitchingPhase", "services/service.go"), ("HandleSurvey*, NewProtocol, StartService, PushData", "services/service.go"), ("FilterResponses, CountDPs", "services/service.go"), ("EncryptDataToSurvey, SendSurvey*", "services/api.go")],
  LAWTECH + " over a model of onet's service layer", LAWNOTE + " Protocols are taken by their interface (what they are given, what they give back); C08 decides the protocols themselves. onet, the survey table's concurrency and noise distribution are outside."),
P("C19", "The store neither loses, duplicates nor mixes responses",
  "Every response given to the store at a stage comes out of that stage exactly once, in the right group: encrypted responses are kept one by one with exactly the attributes the query names; clear-text groups, locally tagged groups and collectively aggregated groups are merged by equality of their key, their aggregates added element by element; pulling empties the stage; noise is added to every aggregate exactly when asked for.",
  ["histories", "inputs"], "all sequences of stored responses, groups and attributes",
  "Tests push a few responses with fixed groups; grouping errors need particular collisions and sequences.",
  ["lib/store/store.go", "lib/structs.go"],
  [("Insert / Push / Pull of each stage", "lib/store/store.go"), ("AddInMap, FilteredResponse.Add", "lib/structs.go")],
  LAWTECH, LAWNOTE),
]
def N(id, title, statement, over, qtext, why, files, mech, reason):
    d = P(id, title, statement, over, qtext, why, files, mech, "", "")
    d['reason'] = reason
    return d
NA = [
N("C30", "Results carry noise of the configured distribution",
  "With differential privacy switched on, the noise added to each aggregate follows the configured (discretised Laplace) distribution, and no server knows which noise value was used.",
  ["inputs"], "all noise lists and parameters", "A statistical statement over all draws; the tests only look at list sizes.",
  ["lib/differential_privacy/diffprivacy.go"], [("GenerateNoiseValues", "lib/differential_privacy/diffprivacy.go")],
  "A distribution over random draws and floating-point densities is a runtime quantity that no sound static argument in reach bounds; that noise is added to every aggregate exactly when asked is part of C19, its shuffling of C08."),
N("C31", "A whole distributed query equals the plaintext query",
  "The decrypted result of a query over any roster, data and parameters equals the same query evaluated on the plaintext data.",
  ["inputs", "schedules", "configurations"], "all rosters, data sets, queries and schedules", "The tests run a handful of queries on a few servers.",
  ["services/service.go", "protocols/*.go"], [("Service.StartService", "services/service.go")],
  "The composition runs through onet's trees, sockets, gob and protobuf reflection and generated protocol instances, which no summary in reach closes; its parts are decided instead (C01 C02 C08 C10 C11 C12 C13 C19)."),
N("C32", "Published proofs cannot be forged and reveal nothing",
  "No prover without the secret makes a proof that is accepted, and a proof discloses nothing but the truth of its statement.",
  ["programs"], "all (also malicious) provers", "Tests use honest proofs and a few altered ones.",
  ["lib/shuffle/shuffle_proofs.go", "lib/key_switch/key_switch_proofs.go", "lib/deterministic_tag/deterministic_tag_proofs.go"], [("HashProve, HashVerify, PairShuffle", "go.dedis.ch/kyber/v3")],
  "Computational soundness and zero knowledge of kyber's sigma and shuffle proofs are cryptographic assumptions about a dependency, not facts of this source; what this code adds (which statement is checked) is C10, what it publishes is C14."),
N("C33", "Shuffling permutations are uniform",
  "Every permutation of the lines is equally likely, so that the output order discloses nothing.",
  ["inputs"], "all list lengths", "One run shows one permutation.",
  ["lib/crypto.go", "lib/shuffle/shuffle.go"], [("RandomPermutation", "lib/crypto.go")],
  "A probability over the random stream; statically decided are that the result is a permutation (C12) and the provenance of the randomness (C16)."),
N("C34", "Queries end despite crashed or slow servers",
  "When servers crash or messages are lost at any point, every participant ends its part of the query with a result or an error within a bounded time.",
  ["crash_points", "fault_sequences", "schedules"], "all crash points and message losses", "Tests have no failing server.",
  ["services/service.go", "protocols/*.go"], [("service barriers without timeout", "services/service.go")],
  "End-to-end termination depends on onet's transport and on barriers of the service that wait without bound by design; the bounded waiting inside protocols, which is a fact of the source, is C07."),
N("C35", "Every result in the decodable range is decoded",
  "Decryption returns the right integer for every plaintext within the supported range in reasonable time, whatever was decoded before.",
  ["inputs", "histories"], "all plaintexts and decoding histories", "Tests decode a few small integers.",
  ["lib/crypto.go"], [("discreteLog and its table", "lib/crypto.go")],
  "The table walk terminates by meeting a group element by value; how far it has to go is a runtime quantity (a discrete logarithm) that no static argument bounds. That decryption inverts encryption algebraically is C01, the guarding of the table C06 and C18."),
N("C36", "Malformed input never crashes a server",
  "Bytes of any content and length given to a decoder or a message handler are rejected with an error instead of stopping the server.",
  ["inputs", "fault_sequences"], "all byte strings", "Tests decode what was encoded.",
  ["lib/structs.go", "lib/crypto.go", "protocols/*.go"], [("FromBytes, ...FromBytes", "lib, protocols")],
  "The decoders take lengths from a separate message and slice without guards by design (they trust servers of the roster), so the property does not hold as a guarantee of this code base and no property narrower than a redesign would; recorded as a design-level issue in DESIGN.md."),
]
