#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties_src.py > properties.jsonl)."""
import json

P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

SRV = "src/rest_api/middleware/server.rs"
CLI = "src/rest_api/middleware/client.rs"
REQ = "src/rest_api/requests"
TYP = "src/rest_api/types"
INBOX = "src/drivers/server/messages_inbox/stored_queue.rs"
TABLE = "src/drivers/server/router/global_table.rs"
ROUTER = "src/drivers/server/router/mod.rs"

# ------------------------------------------------------------------ server endpoints
p("C01", "POST endpoints act only on requests that prove key possession",
  "A server never reads, changes or discloses routing-table or inbox records, and never answers with success, on account of a POST request unless that request's proof holds: its seed has the top bit set and its signature over the seed verifies under the public key the request carries. A request whose proof does not hold gets an error reply.",
  ["inputs", "programs"], "every POST endpoint, every request body that parses, every path through the endpoint's code",
  "The middleware has no tests at all; a test could only try a few forged requests per endpoint and not every path.",
  [SRV, "src/rest_api/request.rs", "src/crypto/asymmetric/public_key.rs"],
  [("validate request, then error reply on failure, then driver call", SRV + " each POST closure"), ("Request::validate", "src/rest_api/request.rs")],
  observe=["calls on the routing table and inbox drivers", "reply status"])

p("C02", "A signed header is accepted only with a valid proof",
  "Validating a request, a server-info reply or a success reply answers 'valid' only if the seed has its top bit set and the carried signature verifies, over exactly the big-endian bytes of that seed, under the carried public key. For a reply the seed is the one given by the caller; a malformed signature is an error, never 'valid'. Headers built by the library from a secret key carry its public key and its signature of exactly those bytes.",
  ["inputs"], "all seeds, signatures and keys",
  "Tests try three invalid headers on one type; the reply and info validators are only exercised on valid data.",
  ["src/rest_api/request.rs", "src/rest_api/response.rs", REQ + "/info/response.rs", "src/crypto/asymmetric/public_key.rs", "src/crypto/asymmetric/secret_key.rs"],
  [("Request::validate", "src/rest_api/request.rs"), ("Response::validate", "src/rest_api/response.rs"), ("InfoResponse::validate", REQ + "/info/response.rs"), ("PublicKey::verify_signature", "src/crypto/asymmetric/public_key.rs")],
  observe=["return value of the validators"])

p("C03", "Connection certificates bind client, server and time",
  "A connection certificate is accepted only if it names the expected server and its signature over the whole token (time and server key) verifies under the client's key. A connect request is accepted only with a certificate made by the requester's own key for this server, and a client announcement only with a certificate valid for the announced client and server.",
  ["inputs"], "all certificates, keys and requests",
  "No test validates a forged or misdirected certificate, connect or announce request.",
  [TYP + "/connection_certificate.rs", TYP + "/connection_token.rs", REQ + "/connect/mod.rs", REQ + "/announce/mod.rs"],
  [("ConnectionCertificate::validate", TYP + "/connection_certificate.rs"), ("ConnectRequest::validate", REQ + "/connect/mod.rs"), ("AnnounceRequest::validate", REQ + "/announce/mod.rs")],
  observe=["return value of the validators"])

p("C04", "Success replies are bound to the request and signed by the server",
  "Every success reply a server gives to a POST request carries the server's own public key together with a signature, made with the server's own secret key, of the big-endian bytes of the proof seed of the very request being answered.",
  ["inputs", "programs"], "every endpoint, every request, every path to a success reply",
  "No test runs an endpoint; the reply constructors are tested only for JSON round trips.",
  [SRV, "src/rest_api/response.rs", REQ], [("XResponse::success(status, server secret, request seed, ..)", REQ + "/*/mod.rs"), ("driver.params().secret_key", SRV)],
  observe=["fields of the success reply"])

p("C05", "Endpoints act for the identity that signed the request",
  "Polling reads and deletes only messages addressed to the key that signed the poll, in the requested channel and up to the requested limit; disconnecting removes only the signer's records; connecting indexes the signer's key with the submitted certificate and info. Announcing indexes exactly the announced client and server, and sending stores exactly the submitted sender, receiver, channel and message.",
  ["inputs", "programs"], "every request on connect, disconnect, announce, send and poll",
  "No test runs an endpoint.",
  [SRV], [("arguments of index_*, disconnect, add_message, poll_messages", SRV)],
  observe=["arguments the routing table and inbox drivers receive", "the poll reply's messages and remaining count"])

p("C06", "An acknowledged request has taken effect",
  "A server answers connect, disconnect, announce, send, poll or lookup with success only after the corresponding routing-table or inbox operation completed without error. If that operation fails, the reply is an error reply.",
  ["inputs", "fault_sequences"], "every endpoint and every failure of the storage behind it",
  "No test injects storage failures or runs an endpoint.",
  [SRV], [("if let Err(err) = driver...await { return error }", SRV)],
  observe=["order of driver calls and reply"])

p("C07", "Lookup answers about the client that was asked for",
  "A lookup reply is computed for the public key and client type named in the lookup request, not for anyone else. A locally known client is answered first, then a remote one together with its server, each with the availability the routing table gave; only when neither is known is the list of hinted servers returned.",
  ["inputs"], "every lookup request and routing-table state",
  "No test runs the lookup endpoint.",
  [SRV, REQ + "/lookup/request.rs"], [("lookup_local_client / lookup_remote_client / lookup_remote_client_hint", SRV)],
  observe=["arguments of the routing table lookups", "lookup reply body"])

# ------------------------------------------------------------------ client
p("C08", "A client believes only replies that answer its own request",
  "No client operation (info, connect, disconnect, announce, lookup, send, poll) reports success or hands out data from a signed reply unless that reply was validated against the proof seed of the request just sent (for info: against its own seed) and found valid. A reply that fails validation is reported as an invalid proof, or for lookup is ignored.",
  ["inputs", "programs"], "every client operation, every reply a server can give, every path",
  "No test runs the client middleware.",
  [CLI], [("response.validate(proof_seed) before use", CLI)],
  observe=["result of the client operations"])

p("C09", "A client's session is with the server it expects",
  "Connecting with an expected server key, disconnecting, and polling succeed only if the success reply is signed by that server's key; a valid signature by any other key is refused. The session remembers the expected key, the address used and the certificate that was submitted.",
  ["inputs"], "every reply, in particular self-consistent replies signed by a foreign key",
  "No test runs the client middleware.",
  [CLI], [("comparison of the reply's key with the expected key", CLI + " connect_to, disconnect, poll")],
  observe=["result of connect_to, disconnect, poll"])

p("C10", "Error replies surface as errors with the server's status and reason",
  "When the server answers connect, disconnect, announce, send or poll with an error reply, the client operation fails with exactly that reply's status and reason. A transport or decoding failure is likewise reported to the caller, never turned into success. The HTTP client hands on the reply received whatever HTTP status it came with.",
  ["inputs", "fault_sequences"], "every client operation and every error reply or transport failure",
  "No test runs the client middleware.",
  [CLI, "src/http/client.rs"], [("Response::Error { status, reason } => RequestFailed { status, reason }", CLI)],
  observe=["error returned by the client operations"])

p("C11", "Client lookup asks each server at most once and survives bad hints",
  "A lookup sends its request to each server address at most once, whatever hints are returned, starting from the connected server and following every address of every accepted hint. A hinted server that is unreachable, or whose reply is invalid or an error, does not end the search; the result is 'not found' only when no unasked server remains.",
  ["inputs", "histories"], "every graph of hints, including cycles, duplicates and failing servers",
  "No test runs a lookup over several servers.",
  [CLI], [("queue of hints and set of used servers", CLI + " lookup")],
  state=[("used_servers", "addresses already asked", CLI + " lookup"), ("queue", "addresses still to ask", CLI + " lookup")],
  observe=["POST lookup requests sent", "lookup result"])

p("C12", "Network traversal contacts each server at most once",
  "A traversal of the server network requests the server list of each server at most once, so it ends on every finite network, cyclic or not. Every server it starts from or discovers is indexed in the routing table, and an unreachable server does not stop it.",
  ["inputs", "histories"], "every network graph, including two servers that know each other",
  "No test runs a traversal.",
  ["src/drivers/server/traversal/bfs_recursion.rs"], [("breadth-first queue with visited set", "src/drivers/server/traversal/bfs_recursion.rs")],
  observe=["GET servers requests sent", "servers indexed"])

p("C13", "Client and server agree on every endpoint",
  "For every REST operation the client uses exactly the verb, path, request type and reply type that the server registers for it, and every endpoint the server registers has its client operation. Operations on the connected server go to that server's address.",
  ["programs"], "all endpoints of client and server",
  "Paths are string literals on both sides and no test connects the two.",
  [CLI, SRV], [("http_server.get/post(path)", SRV), ("get_request/post_request(format!(..path))", CLI)],
  observe=["verb, URL and body types of requests"])

p("C14", "The HTTP layer runs a handler only on a decoded request",
  "The HTTP server runs a POST handler only with a request decoded from the received body: a body that is not JSON, or JSON that does not decode, gets a status-500 reply and no handler call. A handler's reply is sent as JSON, and a reply that cannot be encoded gives status 500. The HTTP client yields a decoded reply only from a received body, and reports every send or decode failure.",
  ["inputs"], "every HTTP body, verb and reply",
  "No test runs the HTTP client or server.",
  ["src/http/server.rs", "src/http/client.rs"], [("AxumHttpServer::get/post", "src/http/server.rs"), ("HttpClient::get_request/post_request", "src/http/client.rs")],
  observe=["HTTP status and body", "handler invocations"])

# ------------------------------------------------------------------ crypto
p("C15", "Reading a message returns only content its sender signed",
  "Reading a message returns content only if the message's own decrypted signature verifies over exactly that content under the given sender's key; otherwise it fails. The decryption key is derived from the receiver's secret and the sender's public key only.",
  ["inputs"], "every message, key pair and encoding",
  "Tests read back only honest messages.",
  [TYP + "/message.rs"], [("Message::read", TYP + "/message.rs")], observe=["result of reading a message"])

p("C16", "Opening a message undoes exactly what sealing did",
  "A created message carries the content and the sender's signature of the original content, both compressed, then encrypted under the key shared by sender and receiver, then text-encoded, with the algorithms its encoding names. Opening applies the inverse steps, of the same algorithms, in reverse order with the same key, for content and signature alike.",
  ["inputs", "configurations"], "every encoding/encryption/compression combination and every content",
  "Tests use one short content and cannot see e.g. a signature made over the compressed form on both sides.",
  [TYP + "/message.rs", TYP + "/message_encoding.rs"], [("MessageEncoding::forward / backward", TYP + "/message_encoding.rs"), ("Message::create / read", TYP + "/message.rs")],
  observe=["message content and sign fields"])

p("C17", "A selected cipher is always applied and always authenticated",
  "When a cipher is selected, encryption returns only the output of that cipher's authenticated encryption of the given data under the given key, and decryption returns data only when that same cipher's authentication under the given key succeeded, with the same nonce on both sides. Only the explicit 'none' choice passes data through, and a cipher failure is always reported.",
  ["inputs", "configurations"], "every cipher, key and data",
  "Tests encrypt one short text and never present tampered data.",
  ["src/crypto/encryption/mod.rs", "src/crypto/encryption/aes256_gcm.rs", "src/crypto/encryption/chacha20_poly1305.rs"],
  [("Encryption::encrypt / decrypt", "src/crypto/encryption/mod.rs")], observe=["result of encrypt and decrypt"])

p("C18", "Compression and text encoding process the whole input, paired by algorithm",
  "For each compression algorithm and level, compressing feeds the whole input to that algorithm's encoder, finishes the stream and returns its complete output; decompressing does the same with the matching decoder. Text encoding and decoding use one and the same alphabet, and every codec failure is reported.",
  ["inputs", "configurations"], "every algorithm, level and input",
  "Tests compress 13 bytes, which hides a missing flush, a bounded read or a swapped codec on larger input.",
  ["src/crypto/compression/mod.rs", "src/crypto/compression/deflate.rs", "src/crypto/compression/brotli.rs", "src/crypto/encoding/mod.rs", "src/crypto/encoding/base64.rs"],
  [("write_all + finish", "src/crypto/compression/deflate.rs"), ("BrotliCompress / BrotliDecompress", "src/crypto/compression/brotli.rs"), ("BASE64 engine", "src/crypto/encoding/base64.rs")],
  observe=["result of compress/decompress, encode/decode"])

p("C19", "Algorithm and client-type names parse back to what they name",
  "For every encoding, encryption, compression and client type, the printed name parses back to the same value, distinct values print distinct names, the documented names ('none' and 'plain' both meaning no processing) are accepted, and every other text is rejected with an error. No encryption other than none shares a name with a compression.",
  ["inputs"], "all values of the four enumerations and all strings",
  "Tests check the printed names they list; they check neither rejection nor name clashes between families.",
  ["src/crypto/encoding/mod.rs", "src/crypto/encryption/mod.rs", "src/crypto/compression/mod.rs", TYP + "/client_type.rs"],
  [("FromStr / Display pairs", "src/crypto/*/mod.rs, " + TYP + "/client_type.rs")], observe=["to_string, from_str"])

p("C20", "Message encoding strings round-trip for every combination",
  "For every combination of encoding, encryption and compression, the printed form parses back to exactly that combination. A one-, two- or three-part text is read as encoding, encoding plus encryption or compression, and encoding, encryption, compression in this order; a part that names nothing, or any other number of parts, is rejected.",
  ["inputs", "configurations"], "all combinations and all strings",
  "Tests list nine forms and one bad string.",
  [TYP + "/message_encoding.rs"], [("FromStr / Display of MessageEncoding", TYP + "/message_encoding.rs")], observe=["to_string, from_str"])

p("C21", "Status codes map one-to-one",
  "Every response status has one distinct numeric code, that code reads back as the same status, and every other number is rejected. Exactly the codes from 100 to 199 count as success.",
  ["inputs"], "all statuses and all 64-bit codes",
  "No test covers the code table; the JSON round-trip tests use two statuses.",
  ["src/rest_api/status.rs"], [("from_code / to_code / is_success", "src/rest_api/status.rs")], observe=["to_code, from_code, is_success"])

p("C22", "Success-shaped replies carry success statuses and vice versa",
  "Everywhere the library builds a success reply its status is a success status, and everywhere it builds an error reply its status is not; reading a reply yields the success shape exactly for success statuses. So a reply never changes shape on the wire.",
  ["programs", "inputs"], "every place a reply is built and every reply read",
  "No test runs the code that builds replies.",
  [SRV, "src/rest_api/response.rs", REQ], [("Response::success / error call sites", SRV), ("Response::from_json", "src/rest_api/response.rs")],
  observe=["status and shape of replies"])

# ------------------------------------------------------------------ JSON / binary formats
p("C23", "JSON writers and readers agree field by field",
  "For every type exchanged over the REST API and every variant of it, each field is written under one JSON key and read back from that same key, through inverse conversions, into that same field; the tag written for a variant is the tag read for it. Hence reading what was written gives back the same value.",
  ["inputs"], "every API type, variant and field value",
  "Round-trip tests use one or two sample values per type, many fields of which are default, equal or random keys.",
  [TYP, REQ, "src/rest_api/request.rs", "src/rest_api/response.rs"], [("AsJson::to_json / from_json pairs", "src/rest_api/**")],
  observe=["to_json, from_json"])

p("C24", "JSON readers reject missing or mistyped required fields",
  "Reading an API value from JSON fails unless every required field is present with the right JSON type and a valid value; no required field is ever replaced by a default. Only the client address and the lookup's client type are optional, and a message limit may be null; a client type that is given but names none is refused.",
  ["inputs"], "all JSON values",
  "No test reads malformed JSON.",
  [TYP, REQ, "src/rest_api/request.rs", "src/rest_api/response.rs"], [("FieldNotFound / FieldValueInvalid", "src/rest_api/**")],
  observe=["result of from_json"])

p("C25", "Only the supported standard version is written or read",
  "Every versioned header and reply is created with the library's standard version, is written with that number, and is read only if it declares a version the library supports; any other version, written or read, is rejected as an invalid standard. The version the library creates is one it accepts.",
  ["inputs"], "every versioned type and every version number",
  "No test uses another version number.",
  ["src/rest_api/request.rs", "src/rest_api/response.rs", REQ + "/info/response.rs", REQ + "/clients/response.rs", REQ + "/servers/response.rs", "src/lib.rs"],
  [("match standard { 1 => .., _ => InvalidStandard }", "src/rest_api/**")], observe=["to_json, from_json"])

p("C26", "Binary token and signature-capsule layouts agree on both sides",
  "The token's bytes are its time as eight big-endian bytes followed by the server's public key, and are read back by exactly that layout. A signature capsule is the signature's length as eight big-endian bytes, the signature, then the message; it is split the same way, and the message is returned only if the signature verifies over it.",
  ["inputs"], "all times, keys and messages",
  "Tests round-trip one value; an agreeing mistake on both sides or a skipped verification passes.",
  [TYP + "/connection_token.rs", "src/crypto/asymmetric/public_key.rs", "src/crypto/asymmetric/secret_key.rs"],
  [("ConnectionToken::to_bytes / from_bytes", TYP + "/connection_token.rs"), ("create_ / decode_encapsulated_signature", "src/crypto/asymmetric")],
  observe=["the bytes", "result of decoding"])

p("C27", "Decoding received data never panics",
  "Decoding, validating, decrypting or reading any bytes, text or JSON received from outside (keys, tokens, capsules, signatures, messages, API bodies, encodings, addresses) returns a value or an error for every input, and never panics, whatever its length or content.",
  ["inputs"], "all byte strings, texts and JSON values",
  "Tests decode only well-formed data.",
  ["src/crypto", "src/rest_api", "src/address.rs"], [("length checks, error returns", "src/rest_api/types/connection_token.rs, src/crypto/asymmetric/public_key.rs")],
  observe=["panics"])

p("C28", "Seeds and keys come from a secure generator, seeds with the top bit set",
  "Every random key, proof seed and message id is drawn from an operating-system-seeded cryptographic generator (or from the cryptographic generator the caller supplies), afresh on every use, and a seed or message id carries at least 63 random bits. Every proof seed the library generates is at least 2^63, so that it passes its own validators.",
  ["inputs", "programs"], "every draw and every value drawn",
  "Tests cannot judge randomness, and see a few draws only.",
  ["src/crypto/utils.rs", "src/crypto/asymmetric/secret_key.rs", "src/rest_api/request.rs", REQ + "/info/response.rs", INBOX],
  [("ChaCha20Rng::from_entropy", "src/crypto/utils.rs"), ("(1 << 63) | ...", "src/crypto/utils.rs")], observe=["generated seeds and keys"])

p("C29", "Secret keys are never logged, sent or stored",
  "No secret key, shared secret or value encoding one ever reaches a log or trace record, a request, reply or URL, an error message, or a file written by the library. Secret key bytes leave only through the explicit serialisation functions of the key itself.",
  ["programs", "inputs"], "every log statement, network message, error and file write on every path",
  "Tests do not look at trace output; a leak leaves results unchanged.",
  [CLI, SRV, "src/crypto/asymmetric/secret_key.rs", "src/drivers"], [("tracing fields", CLI + ", " + SRV), ("to_base64/serialize of SecretKey", "src/crypto/asymmetric/secret_key.rs")],
  observe=["trace events and spans", "wire and file contents"])

p("C30", "Unsafe code is limited to the proven key expansion",
  "The library performs no unsafe operation except skipping the error check of the shared-secret key expansion, and there the requested length is always within what the expansion can produce, so that no input leads to undefined behaviour.",
  ["programs", "inputs"], "all unsafe operations of the crate",
  "Undefined behaviour need not show in tests.",
  ["src/crypto/asymmetric/secret_key.rs"], [("generator.expand(..).unwrap_unchecked()", "src/crypto/asymmetric/secret_key.rs")], observe=["undefined behaviour"])

# ------------------------------------------------------------------ storage
p("C31", "Storage never leaves its folder",
  "Whatever keys, channel names, records or messages peers send, the routing table and inbox create, read, write and delete files only inside their own storage folder: every path component derived from received data is free of separators and parent references.",
  ["inputs"], "all channel names, keys and messages",
  "Tests use two harmless channel names.",
  [INBOX, TABLE], [("folder.join(receiver base64).join(channel)", INBOX), ("folder.join(table).join(key base64)", TABLE)],
  observe=["file system paths used"])

p("C32", "Routing table tables are written and read consistently",
  "An index call that completes has written the given record, replacing an earlier one: a client indexed as local is listed among local clients, one indexed as remote is listed among remote clients with its server, and an indexed server is listed among servers, each as the record that was indexed and keyed by its own public key. Disconnecting a key removes that key's record from all three. A router without a table of remote clients keeps them as local ones.",
  ["inputs", "histories"], "all records and orders of operations",
  "The only test indexes 32 copies of one record per table and never disconnects.",
  [TABLE], [("local / remote / servers folders", TABLE)], observe=["local_clients, remote_clients, servers"])

p("C33", "Lookups return only the record that was asked for",
  "Looking up a local or remote client returns only a record whose public key is the requested one and, when a type is requested, whose client type is that type; looking up a server returns only a server with the requested key. A listed record that matches is found. By default the servers that may know a client are all the servers listed.",
  ["inputs"], "all tables, keys and type filters",
  "The test's tables hold a single distinct record, so any lookup finds the right one.",
  [ROUTER], [("filter by key, find by type", ROUTER)], observe=["lookup results"])

p("C34", "An accepted message is stored before it is announced, in arrival order",
  "Adding a message stores it completely before its id becomes visible in the inbox index, appends that id after all earlier ones and keeps those, and succeeds only if both writes succeeded. It stores the given sender, channel and message under the receiver and channel they were sent to, where polling the same receiver and channel looks for them.",
  ["inputs", "crash_points", "fault_sequences", "schedules"], "all messages, a crash or concurrent poll between any two steps, any failing file operation",
  "The test is sequential, and free of crashes and I/O errors.",
  [INBOX], [("write message file, then index", INBOX + " add_message")], state=[("index", "ordered list of 8-byte message ids", INBOX)],
  observe=["file operations of add_message"])

p("C35", "Polling deletes exactly what it returns, and a failed poll loses nothing",
  "Polling returns messages oldest first, as many as are stored but never more than the limit, deletes only messages it returns, and drops from the index only ids it handled, reporting how many remain. If any message cannot be read or decoded, or the index cannot be updated, the poll fails before anything was deleted.",
  ["inputs", "crash_points", "fault_sequences"], "all inbox contents and limits, any failing file operation, a crash between any two steps",
  "The test is sequential, with readable messages only.",
  [INBOX], [("read selected, rewrite index, then remove files", INBOX + " poll_messages")], observe=["file operations and result of poll_messages"])

p("C36", "Concurrent inbox operations on one channel do not lose messages",
  "When messages are added to, or polled from, the same inbox channel concurrently, no accepted message disappears: the read-modify-write of the channel's index is atomic with respect to other operations on it, and every message is written to a file that no concurrent operation can be writing.",
  ["schedules"], "all interleavings of inbox operations",
  "The test is sequential.",
  [INBOX], [("index read ... index write", INBOX)], state=[("index", "ordered list of message ids", INBOX)], observe=["messages polled over time"])

p("C37", "No storage or network failure is silently dropped",
  "Every failure of a file operation in the routing table and inbox is reported to their caller, except that a file that does not exist may mean 'nothing stored' or 'already removed'; the same holds for a stored record that cannot be decoded. In particular an unreadable inbox index is never taken for an empty one, and an undeletable record is never reported as disconnected. A request whose routing table or inbox operation fails is answered as a failure of the server.",
  ["fault_sequences"], "every file operation and every error it can return",
  "Tests inject no I/O errors.",
  [TABLE, INBOX], [("? on every tokio::fs call", TABLE + ", " + INBOX)], observe=["results of routing table and inbox operations"])

# ------------------------------------------------------------------ others
p("C38", "Every opened port can be closed again",
  "Opening a port for TCP, UDP or both maps exactly the requested protocols, for the requested time or the longest the gateway interface can express, and remembers each mapping; closing a port for TCP, UDP or both removes exactly those mappings from the gateway. A mapping is remembered only if it was opened, and not once the gateway has removed it, and discarding asks the gateway to remove all remembered mappings, and reports success only when none of them failed.",
  ["inputs", "histories"], "all ports, protocols, durations and sequences of open, close and discard",
  "The port forwarder has no tests (it needs a gateway).",
  ["src/port_forward/upnp.rs"], [("forwarded table keyed by (port, protocol)", "src/port_forward/upnp.rs")],
  state=[("forwarded", "mappings to undo", "src/port_forward/upnp.rs")], observe=["gateway calls"])

p("C39", "Address schemes parse as documented and resolve back",
  "Each documented URI scheme and prefix parses to the documented kind of address and client type with the key decoded from the rest of the URI; an undecodable key is an error. Resolving an http, https or unsupported URI gives back that URI verbatim, and resolving a hyperborea address looks up exactly its key and type and gives that client's server, or the lookup's own failure.",
  ["inputs"], "all URIs",
  "Tests parse one well-formed key per scheme and never resolve.",
  ["src/address.rs"], [("Address::from_str / resolve", "src/address.rs")], observe=["parse, resolve"])

p("C40", "Every combination of features compiles",
  "The crate type-checks under every subset of its optional features, and each feature makes available the public items it is documented to provide.",
  ["configurations"], "all 256 subsets of the eight features",
  "The tests build only the default (full) feature set.",
  ["Cargo.toml", "src"], [("cfg(feature = ..) gates", "src/**")], observe=["cargo check"])

p("C41", "Keys survive generic serialisation",
  "A secret or public key serialised with a self-describing serialisation format is read back from that format as the same key; invalid data is rejected with an error.",
  ["inputs"], "all keys",
  "No test serialises keys through the generic serialisation interface.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs"], [("Serialize / Deserialize of SecretKey", "src/crypto/asymmetric/secret_key.rs")], observe=["serialise, deserialise"])

p("C42", "Equal keys hash equally",
  "For every type with both equality and hashing, values that compare equal have equal hashes, so keys, clients, servers and requests can be used in hash sets and maps.",
  ["inputs"], "all values of all public types with Eq and Hash",
  "No test hashes values.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs"], [("manual Hash beside derived Eq", "src/crypto/asymmetric")], observe=["Hash, Eq"])

p("C43", "Tracing only observes",
  "Enabling or disabling the tracing feature changes no request, reply, stored data, result or error of any operation.",
  ["configurations", "programs"], "every function with and without the feature",
  "The tests build with tracing always on.",
  ["src"], [("cfg(feature = \"tracing\") statements", "src/**")], observe=["results and effects with and without the feature"])

p("C44", "The client asks for exactly what its caller asked, as itself",
  "Every client operation sends its documented request to the server it was told to use (or the connected one), in the name of the client's own key and signed by it, with exactly the caller's arguments and the session's own certificate, info and server; connecting submits a certificate made by the client's own key for the expected server, and sending and polling make their request once only. A sent message describes its sender as a thin client, which discloses no address to receivers. A server acting as a client does so under its own key and describes itself, at its own address. What a successful operation returns (info, lists, looked-up client with its server and availability, polled messages with the remaining count) is exactly what the accepted reply said.",
  ["inputs", "programs"], "every client operation, argument and reply, every path",
  "No test runs a client operation.",
  [CLI, REQ, TYP + "/connection_certificate.rs", "src/address.rs"],
  [("the ten operations of Client and ConnectedClient", CLI), ("XRequest::new", REQ + "/*/mod.rs")],
  observe=["the request handed to the HTTP client", "the operation's result"])
p("C45", "Public listings publish exactly what the routing table holds",
  "The public info endpoint gives the server's own key with that key's signature of a fresh seed. The public client and server lists are exactly the local clients and the servers the routing table lists at that moment (nothing if it cannot list them), and no public endpoint changes or discloses anything else.",
  ["inputs", "programs"], "every GET endpoint, every path and routing table content",
  "The middleware has no tests.",
  [SRV, REQ + "/info/response.rs", REQ + "/clients/response.rs", REQ + "/servers/response.rs"],
  [("GET closures", SRV)], observe=["GET replies", "routing table calls"])
p("C46", "Key encodings are faithful and only valid keys are read",
  "Reading the bytes or base64 text written for a secret or public key always succeeds and gives that key. Reading anything else gives a key only if the curve library validated exactly the given (decoded) bytes as one, and is refused only if it did not; the public key of a secret key is its own public half.",
  ["inputs"], "all keys, bytes and texts",
  "Tests round-trip one random key per encoding and try no invalid input.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs", "src/crypto/encoding/base64.rs"],
  [("SecretKey::serialize/deserialize/to_base64/from_base64", "src/crypto/asymmetric/secret_key.rs"), ("PublicKey::to_bytes/from_bytes/to_base64/from_base64", "src/crypto/asymmetric/public_key.rs")],
  observe=["written forms", "keys read"])
p("C47", "Signatures and shared secrets depend on exactly what they should",
  "A signature is made by the given key over exactly the given message. Verification answers true exactly when the signature verifies over exactly the given message under the given key, false when it does not, and an error only for a malformed signature. A shared secret is the full 32 bytes derived from this secret key, the other side's public key and the given salt, and from nothing else that varies.",
  ["inputs"], "all keys, messages, signatures and salts",
  "Tests sign one message and derive one secret without a salt.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs"],
  [("SecretKey::create_signature, create_shared_secret", "src/crypto/asymmetric/secret_key.rs"), ("PublicKey::verify_signature", "src/crypto/asymmetric/public_key.rs")],
  observe=["signatures, verdicts, secrets"])
p("C48", "Recorded times are the current Unix time in seconds",
  "A connection certificate records, as its time, the whole seconds since the Unix epoch at the moment it is made, and a stored message likewise the moment it was received. A record built with an explicit time carries exactly that time.",
  ["inputs", "programs"], "every constructor that stamps a record, every path",
  "No test looks at the recorded times.",
  ["src/time.rs", TYP + "/connection_token.rs", TYP + "/message_info.rs", INBOX],
  [("timestamp", "src/time.rs"), ("ConnectionToken::now", TYP + "/connection_token.rs"), ("MessageInfo::now", TYP + "/message_info.rs")],
  observe=["auth_date, received_at"])
p("C49", "Everything valid is accepted",
  "A request, reply, info or certificate whose proof holds is always judged valid: no valid seed, signature, key or time is refused. A server answers every valid request whose routing-table and inbox operations succeed with success, and a client operation that received a valid success reply from the expected server succeeds.",
  ["inputs", "programs"], "every valid header, certificate, request and reply",
  "Tests validate a few freshly made values; a rule refusing some valid values would go unnoticed.",
  [SRV, CLI, "src/rest_api/request.rs", "src/rest_api/response.rs", REQ, TYP + "/connection_certificate.rs"],
  [("validate methods", REQ + "/*/mod.rs"), ("error exits of the endpoints", SRV), ("error exits of the operations", CLI)],
  observe=["verdicts, reply shapes, operation results"])
p("C55", "Records and operations can be used from any thread",
  "Keys, messages, records, requests, replies, drivers and client handles can be sent to and shared between threads. Every client operation, address resolution, routing table and inbox operation in progress can be moved between threads, for every HTTP client implementation, with and without tracing.",
  ["programs", "configurations"], "every listed type and operation, every HTTP client type",
  "The tests run on one thread and await nothing of this.",
  [CLI, "src/address.rs", "src/drivers", TYP, "src/crypto/asymmetric"],
  [("async operations", CLI), ("async_trait drivers", "src/drivers/server")], observe=["type checker verdicts on the witnesses"])

p("C56", "Features and build profile change no behaviour",
  "Every operation gives the same results and has the same effects whichever of the library's optional features are enabled (a feature only makes more items available), and with and without debug assertions: an optimised build does what the tested build does, apart from skipping assertions that hold.",
  ["configurations", "programs"], "every function, handler and path, in builds with each feature removed, with none, and without debug assertions",
  "The tests run in one configuration: all features, debug profile.",
  ["Cargo.toml", "src"], [("cfg(feature), cfg(debug_assertions)", "src/**")], observe=["results and effects of each build"])

p("C57", "Records hold exactly what they are given, and compare by all of it",
  "A record, request or reply body, token, driver or client handle built from given values holds exactly those values, and its accessors give back exactly what it holds. A copy equals its original, and two values compare equal exactly when all of their parts do.",
  ["inputs"], "every public constructor, accessor, copy and comparison of the library's types, all values",
  "Tests build a few records and mostly compare them with themselves.",
  [TYP, "src/rest_api/requests", "src/drivers", CLI], [("constructors and accessors", "src/rest_api/types, src/rest_api/requests, src/drivers"), ("PartialEq / Clone impls", "src/**")], observe=["fields of the value built", "== and clone"])

p("C58", "JSON decoding errors name the field at fault",
  "When reading an API value from JSON is refused because a field is missing, the named field is one that is absent or has the wrong JSON type in what was read; when a named field is called invalid, that field's value is the one that was not acceptable.",
  ["inputs"], "all JSON texts, every API type, every refusing path",
  "Tests check that some readers refuse, never what they say.",
  ["src/rest_api/requests", TYP, "src/rest_api/request.rs", "src/rest_api/response.rs"], [("AsJsonError::FieldNotFound / FieldValueInvalid", "src/rest_api/**")], observe=["the error of from_json"])

p("C59", "Records survive generic serialisation",
  "With the serde feature, every record, request, reply, status and algorithm selector that is written through serde reads back as an equal value, in self-describing and in positional formats: every part and every variant is written, and what is read under a name or position is what was written there.",
  ["inputs"], "every type that implements Serialize and Deserialize, all values, all formats",
  "No test uses the serde implementations.",
  [TYP, "src/rest_api/requests", "src/rest_api/request.rs", "src/rest_api/response.rs", "src/crypto"], [("derived Serialize / Deserialize", "src/**, feature serde")], observe=["serde round trips"])

# ------------------------------------------------------------------ declined
p("C50", "Decompressing gives back the compressed data",
  "For every byte string, algorithm and level, decompressing the compressed data yields the original bytes, and likewise for decrypting encrypted and decoding encoded data.",
  ["inputs"], "all byte strings", "Tests use one 13-byte string.",
  ["src/crypto"], [("flate2, brotli, aes-gcm, chacha20poly1305, base64", "dependencies")], observe=["round trips"])
p("C51", "Both sides derive the same shared secret, and nobody else does",
  "For every two key pairs and salt, the secret derived from one side's secret key and the other's public key equals that derived on the other side, and it is infeasible to compute without one of the secret keys.",
  ["inputs"], "all key pairs", "Tests use one random pair.",
  ["src/crypto/asymmetric/secret_key.rs"], [("ECDH + HKDF", "src/crypto/asymmetric/secret_key.rs")], observe=["create_shared_secret"])
p("C52", "Routing table operations are linearizable",
  "Concurrent index, list, lookup and disconnect operations on one routing table behave as if executed one after the other; in particular a listing never fails or sees a partial record because another operation is in progress.",
  ["schedules"], "all interleavings", "The test is sequential.",
  [TABLE], [("one file per record", TABLE)], observe=["operation results"])
p("C53", "Stored data survives power loss",
  "Once an operation was acknowledged, its effect on the inbox or routing table survives a crash of the machine at any later moment, and a crash never leaves a partially written record or index.",
  ["crash_points"], "all crash points", "Tests never crash.",
  [INBOX, TABLE], [("tokio::fs::write", INBOX)], observe=["file system contents after a crash"])
p("C54", "Every operation ends in bounded time",
  "Every client operation and traversal returns within a bounded time even if peers stall, and the server keeps answering while some requests stall.",
  ["schedules", "fault_sequences"], "all peer behaviours", "Tests use no network.",
  [CLI, "src/http/client.rs"], [("none", "-")], observe=["latency"])

if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        print(json.dumps(x, ensure_ascii=False))
