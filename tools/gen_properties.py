#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

M = "src/mechanisms/"
prop("C01", "Identities and secrets reach the server application unaltered",
 "For every mechanism, whenever an exchange between a client and a server reaches the server application's validation, the identity, authorization identity, password, token, key/value pairs or trace token seen there are exactly what the client application supplied (after only the preparation documented for the mechanism), however the messages were fragmented, delayed or base64-wrapped on the way. A value the mechanism cannot carry faithfully ends the exchange with an error; it never arrives truncated, escaped, merged with another field or attributed to someone else. Values valid for the mechanism are accepted.",
 ["inputs", "configurations", "fault_sequences"],
 "All mechanisms, all strings/bytes for every credential field (including separators, escapes, NUL, control characters, non-UTF-8, empty), all ways to supply them (callback or built-in credentials), raw or base64 stepping, all short-write/interrupt patterns of the writer.",
 "The unit tests step one side of three mechanisms with one fixed literal; none runs a client against a server and none uses a value that contains a separator or an escape.",
 [M+"plain/client.rs", M+"plain/server.rs", M+"login/client.rs", M+"login/server.rs", M+"scram/client.rs", M+"scram/server.rs", M+"scram/parser.rs", M+"oauthbearer/client.rs", M+"oauthbearer/server.rs", M+"oauthbearer/parser.rs", M+"xoauth2/client.rs", M+"xoauth2/server.rs", M+"anonymous/client.rs", M+"external/client.rs", "src/config.rs"],
 [("field encoding and separators", M+"*/client.rs step"), ("message parsing and context providers", M+"*/server.rs step"), ("saslname escaping", M+"scram/parser.rs SaslName"), ("scatter/gather writer", "src/vectored_io.rs")],
 ["context handed to the server's validate and property callbacks", "client callback answers", "result of both sessions"])

prop("C02", "A SCRAM server accepts only a proof of the stored key over its own exchange",
 "A SCRAM server session reports success (server signature sent, validation invoked, validation value available) only if the final client message proves knowledge of the key stored for exactly the user named in that session, over exactly the messages that session received and sent, and the user and authorization identity it reports are the ones that proof covers. This holds under every interleaving of sessions and every replayed, reordered, spliced or modified message, for unknown users, for wrong passwords and for unusable stored credentials. An undisturbed client holding the right password is accepted.",
 ["schedules", "inputs", "histories", "fault_sequences"],
 "All interleavings of several honest and hostile sessions against a server with several users, all message modifications, replays across and within sessions, all salts, iteration counts and hash functions.",
 "No existing test runs the SCRAM server at all; the only SCRAM tests check flag parsing and mechanism selection.",
 [M+"scram/server.rs", M+"scram/parser.rs", M+"scram/tools.rs"],
 [("proof verification against the stored key", M+"scram/server.rs handle_client_final"), ("nonce and channel-binding comparison", M+"scram/server.rs handle_client_final"), ("signature over the transcript", M+"scram/tools.rs compute_signatures")],
 ["bytes written by the server session", "validate callback and validation()", "step result"],
 [("session state", "client-first / client-final progress and the data saved between them", M+"scram/server.rs ScramServerState")])

prop("C03", "A SCRAM client finishes only with a server that proved it knows the key",
 "A SCRAM client session completes successfully only if the last message it received carries the server signature computed with the key of that client's password over exactly the messages that session sent and received, with a nonce that extends the client's own fresh nonce, a non-zero iteration count and no extension it was required to understand. Any other final message, including a missing, truncated, replayed, reflected or error one, makes the session fail, and the client never releases a proof for a nonce that is not its own. An undisturbed server that knows the key is accepted.",
 ["inputs", "histories", "fault_sequences"],
 "All behaviours of a hostile or impersonating server and of a man in the middle: every modification, replay, splice, truncation and omission of server messages, all key sources (password, salted password, cached keys).",
 "No existing test drives the SCRAM client past mechanism selection.",
 [M+"scram/client.rs", M+"scram/parser.rs", M+"scram/tools.rs"],
 [("nonce prefix and iteration checks", M+"scram/client.rs handle_server_first"), ("verifier comparison", M+"scram/client.rs handle_server_final")],
 ["step result of the client session", "bytes written by the client session"],
 [("session state", "what the client remembers between messages", M+"scram/client.rs ScramClientState")])

prop("C04", "Channel binding is enforced and cannot be stripped or downgraded",
 "If client and server disagree about the channel (different binding data, different binding type, or an endpoint in the middle), no exchange that uses channel binding succeeds on either side, and an exchange under a channel-binding mechanism succeeds only if binding data was really exchanged and equal. When both sides can bind, removing the binding mechanisms from the offered list or editing the binding flag in transit makes the server refuse instead of silently continuing unbound. A side that is asked to bind but has no binding data fails before authenticating.",
 ["configurations", "inputs", "fault_sequences"],
 "All combinations of client/server binding support, binding types and data sources, offered lists edited by an attacker, edited gs2 headers, and relayed (man-in-the-middle) channels.",
 "Two tests check that the -PLUS mechanism wins selection when offered; none looks at binding data, flags or downgrade handling.",
 [M+"scram/client.rs", M+"scram/server.rs", M+"scram/mechinfo.rs", "src/channel_bindings.rs", "src/session.rs", "src/registry.rs"],
 [("gs2 flag chosen from offered mechanisms", M+"scram/mechinfo.rs selectors"), ("server downgrade check", M+"scram/server.rs handle_client_first"), ("binding data lookup", "src/session.rs need_cb_data")],
 ["selected mechanism", "gs2 header and c= attribute on the wire", "outcome on both sides"])

prop("C05", "No peer input can crash, hang or exhaust a session",
 "Whatever bytes the peer sends at whatever point of an exchange, and whatever the application callbacks answer, stepping a session returns normally with a state or an error: it never panics, never loops forever and never allocates memory out of proportion to the input. This holds on the client and the server side of every mechanism, for raw and base64 stepping, and for encoding and decoding calls made at any time.",
 ["inputs", "histories", "fault_sequences"],
 "All byte strings (random, mutated and spliced from real exchanges) delivered at every step of every mechanism on both sides, with all combinations of callback answers and failures.",
 "Tests feed only well-formed messages.",
 [M+"scram/parser.rs", M+"scram/client.rs", M+"scram/server.rs", M+"plain/server.rs", M+"login/server.rs", M+"oauthbearer/parser.rs", M+"oauthbearer/client.rs", M+"xoauth2/server.rs", M+"anonymous/server.rs", M+"external/server.rs", "src/session.rs"],
 [("message parsers", M+"*/parser.rs and */server.rs")],
 ["result of each step/encode/decode call", "allocation volume per call"])

prop("C06", "A step succeeds only if its whole message was written, exactly once",
 "When stepping succeeds, the writer has accepted exactly the complete message of that step, each byte once and in order, and nothing else. A writer that accepts data in arbitrarily small pieces or is interrupted changes nothing about the outcome or the bytes; a writer that refuses data, is full or fails at any byte makes the step return an error rather than report success with a partial message.",
 ["fault_sequences", "crash_points"],
 "Every mechanism, both sides, every step, raw and base64: all chunkings, interrupts, refusals and failures at every byte offset of every write call, vectored or not.",
 "One test covers one fixed chunk size on one internal helper and no failing writer.",
 ["src/vectored_io.rs", "src/session.rs", M+"scram/client.rs", M+"scram/server.rs", M+"plain/client.rs", M+"login/server.rs", M+"oauthbearer/client.rs", M+"xoauth2/client.rs"],
 [("write loops", "src/vectored_io.rs write_all_vectored"), ("base64 output wrapping", "src/session.rs step64")],
 ["bytes accepted by the writer", "step result"],
 [("resume position", "how much of a gathered message was already accepted", "src/vectored_io.rs VectoredWriter")])

prop("C07", "Base64 stepping is exactly raw stepping in base64",
 "Stepping with base64 produces exactly the base64 encoding of the message raw stepping would produce in the same situation, with the same resulting state or error, and understands exactly the base64 encoding of what raw stepping understands, for empty and absent input too. Input that is not valid base64 is rejected with an error without anything being written and without any application callback being invoked, and the rules for partial and failing writers hold unchanged.",
 ["inputs", "histories", "fault_sequences"],
 "All mechanisms, both sides, all messages (honest, tampered, corrupt base64), mixed raw/base64 peers, all writer behaviours.",
 "No test calls base64 stepping.",
 ["src/session.rs"],
 [("base64 decode and encode around the mechanism", "src/session.rs step64")],
 ["bytes written, state and error compared with an identically seeded raw session"])

prop("C08", "A step without required input is refused harmlessly",
 "If a session is stepped without data at a point where the mechanism needs data, it reports that input is required, writes nothing, consults no application callback, and the exchange then continues with the right data exactly as if that call had never happened. This holds at every such point of every mechanism and any number of times.",
 ["histories", "fault_sequences"],
 "Spurious empty steps inserted anywhere, any number of times, in every mechanism's exchange on both sides.",
 "No test steps a session without the input it needs.",
 ["src/mechanism.rs", "src/session.rs", M+"scram/client.rs", M+"scram/server.rs", M+"plain/server.rs", M+"login/server.rs", M+"oauthbearer/server.rs", M+"xoauth2/server.rs", M+"gssapi/client.rs", M+"gssapi/server.rs"],
 [("state kept across a refused call", M+"*/client.rs and */server.rs step")],
 ["step result", "writer", "callback log", "rest of the exchange against an undisturbed twin"])

prop("C09", "A validation result exists only after this exchange was really validated",
 "A server session holds a validation result only if the application's validation ran in that very session, on the data of a message that session completely received and accepted, and it ran at most once and only on the step that decided the exchange. A malformed message, a failed proof, a failed write or an error from the application before that point leaves no result; an error returned by the application's validation or credential callbacks makes the step fail. The first result set by the application is delivered unchanged and exactly once.",
 ["histories", "inputs", "fault_sequences"],
 "All mechanisms, honest and hostile messages, application callbacks that fail, decline, set results repeatedly or of the wrong type, writer failures at every byte, results polled between any two steps.",
 "Only two documentation examples touch validation and none checks when it is absent.",
 ["src/validate.rs", "src/session.rs", M+"scram/server.rs", M+"plain/server.rs", M+"login/server.rs", M+"oauthbearer/server.rs", M+"xoauth2/server.rs", M+"anonymous/server.rs", M+"external/server.rs"],
 [("validation slot", "src/validate.rs Validate::finalize"), ("validate call sites", M+"*/server.rs")],
 ["validate callback log", "Session::validation() after every step"])

prop("C10", "Negotiation picks the preferred usable mechanism, whatever the offer looks like",
 "A client session starts with a mechanism that is enabled in its configuration, was really in the offered list, and is the one the application's preference ranks highest among those; the result depends neither on the order nor on repetition or unknown entries of the offer. Mechanisms requiring channel binding are chosen only if the application enabled it, and mechanisms the application rejects are never chosen: if nothing remains, starting fails. A server session starts only for a mechanism its configuration makes available, lists exactly those as available, and both ends then speak that mechanism.",
 ["configurations", "inputs", "fault_sequences"],
 "All registries (subsets and orders, custom mechanisms included), all preference functions that are consistent orders with rejections, all offered lists as edited by the network (stripped, reordered, duplicated, padded with unknown names).",
 "Tests cover four fixed offers.",
 ["src/registry.rs", "src/config.rs", "src/sasl.rs", M+"scram/mechinfo.rs", "src/callback.rs"],
 [("selection fold", "src/registry.rs Registry::select"), ("per-mechanism selectors", M+"*/mechinfo.rs"), ("server start", "src/sasl.rs server_start_suggested")],
 ["Session::get_mechname on both sides", "SASLError", "first wire message"])

prop("C11", "Concurrent sessions never influence each other",
 "Any number of sessions may share one configuration and run interleaved on one or many threads, or move between threads between steps, and each behaves exactly as if it ran alone: same sequence of messages up to fresh random values, same callbacks with its own data, same result, and validation results only of its own exchange. No step of one session ever waits for another session to make progress, and a failed or abandoned session leaves the others untouched.",
 ["schedules", "histories"],
 "All interleavings of steps, callbacks and writes of several client and server sessions sharing configurations across threads, including sessions that fail, panic in a callback or are dropped midway.",
 "All existing tests are single-session and single-threaded.",
 ["src/config.rs", "src/sasl.rs", "src/session.rs", "src/callback.rs", "src/registry.rs", M+"scram/server.rs", M+"scram/client.rs"],
 [("shared configuration, per-session state", "src/sasl.rs Sasl, src/session.rs Session")],
 ["per-session callback log, messages, outcome compared with the same session run alone"])

prop("C12", "Every exchange uses fresh, unpredictable nonces",
 "Each SCRAM session contributes its own nonce, drawn with full length from the system's randomness at the time the message is made: nonces never repeat across sessions, threads or process restarts, every character position varies, nonces consist only of characters the protocol permits, and the salt invented for an unknown user is random as well. When the system cannot supply randomness the session fails instead of sending a predictable value. Recorded messages of an earlier exchange therefore never authenticate again.",
 ["histories", "schedules", "crash_points", "fault_sequences"],
 "All histories of sessions, threads and restarts, all entropy streams and entropy failures, replays of all recorded exchanges.",
 "No test looks at a nonce.",
 [M+"scram/tools.rs", M+"scram/client.rs", M+"scram/server.rs"],
 [("nonce generation", M+"scram/tools.rs generate_nonce"), ("fresh nonce per session", M+"scram/client.rs and server.rs step")],
 ["nonces in recorded messages", "outcome of replayed exchanges"])

prop("C13", "An honest exchange always completes, in the fixed number of turns",
 "Between a client and a server with matching credentials every mechanism completes on both sides within its fixed number of messages, with the side that announced it goes first going first, with a state result that tells correctly whether a message must be sent, and with messages that an independently written peer of the same specification understands and produces. After connection losses, stalls, crashes and restarts stop, the next attempt with a new session succeeds.",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "All mechanisms and credentials valid for them, real client against real server and each against an independent reference peer, all histories of lost connections and restarts before the faults stop.",
 "No existing test completes a client/server exchange of any mechanism.",
 ["src/session.rs", M+"scram/client.rs", M+"scram/server.rs", M+"scram/tools.rs", M+"plain/server.rs", M+"login/client.rs", M+"login/server.rs", M+"oauthbearer/server.rs", M+"xoauth2/server.rs", M+"anonymous/server.rs", M+"external/server.rs"],
 [("state machines", M+"*/client.rs, */server.rs"), ("turn order", "src/session.rs are_we_first")],
 ["step results", "messages on the wire", "validation value"])

prop("C14", "A refused authentication is reported as refused, with its reason intact",
 "When the server refuses a token, the error it chose reaches the client application with every field unchanged, the exchange then ends on both sides, and a client whose application does not take note of that error fails instead of finishing. When a SCRAM server refuses, it says so and the client session fails with that reason; it never ends in success. No refusal is ever turned into a success on either side by lost, empty or repeated messages that a well-behaved protocol could deliver.",
 ["inputs", "histories", "fault_sequences"],
 "All server error values (any text in any field; for XOAUTH2 the non-empty document the application has to supply), all SCRAM error codes known and unknown, wrong passwords, unknown users, client applications that handle or ignore the error, all transport fragmentation.",
 "Two tests use a single fixed error without any character that needs escaping, against one side only.",
 [M+"oauthbearer/client.rs", M+"oauthbearer/server.rs", M+"oauthbearer/properties.rs", M+"xoauth2/client.rs", M+"xoauth2/server.rs", M+"scram/client.rs", M+"scram/server.rs", M+"scram/parser.rs"],
 [("error serialisation and parsing", M+"oauthbearer/*.rs"), ("error action callback", "src/session.rs MechanismData::action"), ("SCRAM server error parsing", M+"scram/parser.rs ServerFinal")],
 ["action callback of the client application", "step results on both sides"])

prop("C15", "Application callbacks are asked, answered and failed as documented",
 "A property a mechanism requires and the application does not answer fails the step with an error naming the missing callback, an optional one that is not answered is treated as absent, and an action the application does not take is an error. The first answer given to a request is the one used, later answers to the same request are ignored, answers for other properties have no effect, values offered with the request are readable exactly as provided, and any error the application returns, other than declining, ends the step with that very error.",
 ["programs", "histories", "fault_sequences"],
 "All sequences of requests made by a mechanism (required, optional, action, channel binding, validation; built-in and custom mechanisms) against all application behaviours (answer, decline, answer twice, answer wrongly typed, fail in each way, at every call).",
 "Two documentation examples are compiled and the few unit tests always answer properly.",
 ["src/callback.rs", "src/context.rs", "src/session.rs", "src/typed.rs", "src/validate.rs"],
 [("request/answer plumbing", "src/callback.rs Request, ClosureCR"), ("outcome mapping", "src/session.rs MechanismData"), ("context lookup", "src/context.rs Context, Demand")],
 ["values the mechanism receives", "values the application sees", "step result"])

prop("C16", "A security layer is used exactly as both sides agreed, and only then",
 "After a completed exchange both ends agree on whether a security layer is installed and which protection it uses, that layer was acceptable to both applications and supported by the negotiated context, and data encoded on one end decodes to the same data on the other while altered data is refused. If no common acceptable layer exists, the exchange fails, and a peer that announces or selects something not permitted is refused. Without an installed layer, before completion, after failure and for every mechanism that has none, encoding and decoding are refused and nothing is written.",
 ["configurations", "inputs", "histories", "fault_sequences"],
 "All acceptable-layer sets of both applications, all context capabilities and numbers of token legs, failures of any call into the security provider, hostile layer tokens, encode/decode at every point of every mechanism.",
 "No test exercises the GSSAPI mechanism or encode/decode.",
 [M+"gssapi/client.rs", M+"gssapi/server.rs", M+"gssapi/properties.rs", "src/session.rs", "src/mechanism.rs"],
 [("layer negotiation", M+"gssapi/client.rs and server.rs step"), ("wrap/unwrap", M+"gssapi/* encode/decode"), ("default refusal", "src/mechanism.rs Authentication")],
 ["has_security_layer, encode and decode on both sessions", "calls made into the (simulated) security provider"])

prop("C17", "Every SCRAM key source is equivalent, and keys are cached only once proven",
 "A client that supplies its password, its salted password or the keys cached by an earlier exchange behaves identically, and so do all servers holding the credentials derived from that password; keys of the wrong size, or derived for another salt, iteration count or password, lead to a failed exchange, never to a crash or a success. Keys are handed to the client application for caching only after the server has been authenticated in that exchange, belong to the announced salt and iteration count, and authenticate later exchanges with the same parameters, across client and server crashes and restarts and credential rotations.",
 ["histories", "crash_points", "configurations", "fault_sequences"],
 "All histories of exchanges, credential changes, crashes and restarts at any point on either side with only the credential store and key cache surviving, all hash functions, all key sources and combinations of them, corrupted caches.",
 "No test supplies anything but nothing; caching is never exercised.",
 [M+"scram/client.rs", M+"scram/server.rs", M+"scram/properties.rs", M+"scram/tools.rs"],
 [("key source fallback", M+"scram/client.rs handle_server_first"), ("cache action", M+"scram/client.rs handle_server_final"), ("stored key size check", M+"scram/server.rs handle_client_first")],
 ["outcome of each attempt", "cache actions with their context", "wire messages"])

prop("C18", "SCRAM never discloses a reusable secret",
 "In a SCRAM exchange neither side ever puts the password, the salted password, the client key, the stored key or the server key on the wire in any encoding, no matter how the peer behaves or where the exchange fails. The error values and debug output of any session or configuration never contain the password or token either. A client proof is released only after the server presented a salt, an iteration count and a nonce extending the client's own.",
 ["inputs", "histories", "fault_sequences"],
 "All peers (honest, hostile, tampering), all failure points (parser errors, callback failures, writer failures), all key sources.",
 "No test inspects wire messages for secrets.",
 [M+"scram/client.rs", M+"scram/server.rs", M+"scram/tools.rs", "src/error.rs", "src/config.rs", "src/session.rs"],
 [("only the proof and signatures are emitted", M+"scram/client.rs, server.rs")],
 ["every byte written by either session", "Display/Debug of errors and of the configuration"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
