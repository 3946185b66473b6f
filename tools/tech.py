"""Per property: the deciding method (MANIFEST technique) and what the level note adds to the general one."""
TECH = {
 'C01': ('dominance of guard facts over effect sites (path-sensitive dataflow over MIR; every registered endpoint closure)', 'Unbounded in requests and paths; signature verification is one opaque predicate of key, bytes and signature.'),
 'C02': ('must-hold facts at every accepting exit of every validator (path-sensitive dataflow over MIR); value provenance of header constructors', 'Unbounded in seeds, keys and signatures.'),
 'C03': ('must-hold facts at every accepting exit and indexing site (path-sensitive dataflow over MIR)', 'Unbounded in certificates and requests.'),
 'C04': ('value provenance (def-use through calls) of every success reply an endpoint can return', 'All endpoints, all paths.'),
 'C05': ('argument provenance at every routing-table and inbox call site of every endpoint', 'All endpoints, all paths.'),
 'C06': ('typestate (operation awaited and known Ok before success) on every path of every endpoint', 'Fault sequences are covered by the two-valued result of each operation, not sampled.'),
 'C07': ('argument and result provenance with ordered-fallback facts on every path of the lookup endpoint', 'All requests and routing-table answers.'),
 'C08': ('taint/sanitiser dataflow: reply data reaches a successful result only through validation against the own seed', 'All client operations and paths; loops by per-iteration summary.'),
 'C09': ('must-hold equality facts at successful exits, provenance of session fields', 'All replies, including self-consistent foreign ones.'),
 'C10': ('error-flow analysis: each failing branch reaches an error carrying the reply\'s fields', 'All error replies and transport failures.'),
 'C11': ('worklist loop rule: per-iteration summaries of requests, visited-set and queue updates, exit conditions', 'Unbounded in hint graphs: the rule holds for one arbitrary iteration in an arbitrary loop state.'),
 'C12': ('worklist loop rule on every traversal driver', 'Unbounded in network graphs, as C11.'),
 'C13': ('set comparison of registered and used endpoints (verb, path, generic request and reply types) from typed MIR', 'Complete for the endpoints; types are the compiler\'s.'),
 'C14': ('dataflow on the HTTP adapters\' handler closures: call sites dominated by successful decoding; reply provenance', 'axum, hyper, reqwest and serde_json are trusted models.'),
 'C15': ('must-hold facts at every accepting exit of Message::read; key provenance', 'Unbounded in messages; all algorithm combinations appear as paths.'),
 'C16': ('value provenance as wrapping terms, compared between writer and reader for every algorithm combination', 'All combinations; content an arbitrary value, codecs opaque with parameters.'),
 'C17': ('value provenance per cipher variant, error-flow analysis', 'AEADs opaque (their correctness is trusted).'),
 'C18': ('value provenance per codec, level and direction, with completeness of consumed input and finished streams', 'Codec inverse-ness itself is C50, not claimed.'),
 'C19': ('abstract evaluation over the finite enumerations plus must-hold facts at accepting exits for arbitrary text', 'Exhaustive in values, unbounded in text.'),
 'C20': ('abstract evaluation over all combinations plus must-hold facts at accepting exits for arbitrary text', 'Exhaustive in combinations, unbounded in text.'),
 'C21': ('abstract evaluation over the enumeration plus interval facts at accepting exits for arbitrary numbers', 'Exhaustive.'),
 'C22': ('census of construction sites with interprocedural facts about the status argument', 'Complete over all bodies of the crate.'),
 'C23': ('composition of the abstract JSON transfer functions of writer and reader, type by type (induction over types)', 'serde_json models and base64 inverse axioms are trusted.'),
 'C24': ('must-hold facts (presence, type, successful conversion) at every accepting exit of every reader', 'Unbounded in JSON.'),
 'C25': ('census of construction sites, must-hold version facts at every accepting exit', 'Complete over all bodies.'),
 'C26': ('byte-range provenance: abstract encodings and decoders compared with the documented layout', 'Unbounded in tokens and messages.'),
 'C27': ('panic-reachability: every panicking MIR terminator, call and index must be infeasible under interval and length facts of the paths reaching it', 'Over public entry points with arbitrary arguments; panics inside dependencies are excluded except where modelled as argument-dependent.'),
 'C28': ('provenance of randomness and bit-level interval analysis of seeds', 'Statistical quality of the generator is trusted.'),
 'C29': ('information-flow (taint) analysis from secret-typed values to every sink, with all log statements enabled', 'Explicit flows; branches on secrets are not sinks.'),
 'C30': ('census of unsafe constructs from HIR, reachability of the unchecked variant', 'Complete over the crate; dependencies excluded.'),
 'C31': ('provenance of every path argument of every file call, with a language of safe path components', 'Symbolic links inside the folder are outside the model.'),
 'C32': ('composition of the writing and listing functions of each table (path and record provenance, complete-iteration loop rule)', 'Sequential use; concurrency is C52, not claimed.'),
 'C33': ('must-hold facts on returned records, complete-search loop rule', 'Unbounded in tables.'),
 'C34': ('effect-order (typestate) analysis of add_message, provenance of index bytes', 'Unbounded in inbox contents.'),
 'C35': ('loop rule on the polling loop: per-step summary of reads, appended messages and index offsets; effect order of removals', 'Unbounded in inbox contents and limits.'),
 'C36': ('lockset analysis over the effect history of index updates', 'Locks are recognised by type; the two present unlocked updates are known findings.'),
 'C37': ('error-flow analysis: every file and JSON operation is known successful (or not-found) on successful paths', 'Complete over the storage functions and their loop steps.'),
 'C38': ('typestate of port mappings per protocol (opened, remembered, closed) on every path', 'The IGD gateway is a model.'),
 'C39': ('abstract evaluation of the parser on documented prefixes with an arbitrary rest, and of resolve composed with it', 'Unbounded in the rest of the URI.'),
 'C40': ('type checking under feature combinations with compile-time witness crates', 'Quick: a covering array of strength three over eight features; thorough: all 256 subsets.'),
 'C41': ('comparison of abstract data-model shapes between Serialize and Deserialize, provenance of the value read', 'serde\'s data model is trusted.'),
 'C42': ('derive census, and for hand-written pairs comparison of hasher inputs under the equality facts', 'Complete over local types.'),
 'C43': ('relational comparison of path summaries of two builds (with and without the feature)', 'Complete over public entry points; per-path matching up to renaming of call sites.'),
 'C44': ('value provenance of every request field, address and returned value on every path of the client operations', 'Unbounded in arguments and replies; HTTP client opaque.'),
 'C45': ('value provenance of the published lists and info on every path of the GET handlers', 'Routing table opaque.'),
 'C46': ('composition of the abstract writer and reader, and must-hold validation facts at accepting exits for arbitrary input', 'k256 parsing and base64 inverse axioms are trusted.'),
 'C47': ('value provenance of signatures and secrets, must-hold facts per verdict', 'k256, HKDF opaque (their correctness is trusted).'),
 'C48': ('value provenance of recorded times from clock readings', 'The system clock is trusted.'),
 'C49': ('infeasibility of every refusing exit under the documented acceptance conditions (facts of the path contradict them)', 'Unbounded in inputs; dual of C02, C03, C06 and C08.'),
 'C55': ('type-level witnesses decided by the compiler (auto traits of types and futures)', 'Generic over the HTTP client; two feature sets.'),
 'C56': ('relational abstract interpretation: the path summaries (results, effects, final state, panics) of every function in one build are matched with those of another build', 'All inputs; compared builds are every optional feature removed, all removed, and debug assertions off; the thorough tier adds every feature alone.'),
 'C57': ('value provenance of constructors, accessors, hand-written comparisons and copies, per field', 'Unbounded in field values.'),
 'C59': ('value provenance through the generated writers and readers: the tree of names, numbers and values one describes is put into the slots the other fills', 'Unbounded in values and formats; a format is trusted to hand each value to the name, number or position it was written under.'),
 'C58': ('must-hold facts at every error exit of the JSON readers (the named field is the one whose absence or shape the path established)', 'All JSON inputs; the names are read from the facts of the path.'),
}
