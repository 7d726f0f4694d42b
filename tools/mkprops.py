import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Authenticated completion means both ends saw the same bytes",
 "If a requester that negotiated challenge authentication reports that initialization is complete, then the responder's key signed, in answer to that very CHALLENGE, a digest of exactly the message bytes this requester sent and received since its GET_VERSION (CHALLENGE_AUTH without its signature). Hence whenever what one end processed differs from what the other end sent since that GET_VERSION - a byte altered, a message inserted, lost, repeated, reordered or taken from another session - the requester never reports completion. A responder signs nothing but the digest of the complete sequence of messages it received and sent since the last GET_VERSION it answered.",
 ["inputs","schedules","fault_sequences","histories"],
 "Every interleaving, loss, duplication, reordering, replay, cross-session splice and byte change applied to any message of the handshake between a real requester and a real responder (or a responder that holds a certified key but signs another message sequence), for every certificate chain, slot population, negotiated hash and build configuration.",
 "The tests run one unmodified handshake with both ends in lockstep; none tampers with, drops or replays a message, so a transcript that silently omits or misplaces a message on both ends still passes them.",
 ["src/requester/challenge.rs","src/responder/challenge.rs","src/transcript.rs","src/requester.rs","src/responder.rs"],
 [("transcript hash M2 and signature verification","src/requester/challenge.rs handle_msg, verify_cert_chain_and_signature"),("transcript hash M1 and signing","src/responder/challenge.rs handle_msg"),("transcript accumulation","src/transcript.rs extend and every state's handle_msg/write_msg")],
 [("transcript","bytes exchanged since GET_VERSION","src/transcript.rs")],
 ["return value of the requester's handle_msg","the message handed to the signer","bytes on the wire"])
p("C02","Only the holder of a root-certified key can authenticate",
 "A requester that negotiated challenge authentication reports completion only if the certificate chain it received in this session is a valid path (names, signatures, CA constraints, key usage, validity on the library's fixed reference date) from the root it was given to the leaf, within the configured depth, and the CHALLENGE_AUTH names that slot as populated, carries that chain's digest, and is signed by that leaf's private key. No other responder, whatever it sends, gets a completed session.",
 ["inputs","fault_sequences","histories"],
 "Every responder behaviour: forged, expired, not-yet-valid, reordered, truncated, over-deep or foreign chains, wrong, malformed, zero or replayed signatures, wrong slot, slot mask or chain digest, for every chain depth and size, and every configured root.",
 "The tests only ever present a valid chain with the matching key; no test shows a responder that must be refused.",
 ["src/requester/challenge.rs","src/crypto/pki.rs","src/crypto/ring/pki.rs","src/msgs/certificates.rs","src/msgs/challenge.rs"],
 [("chain of trust validation","src/crypto/ring/pki.rs verify_chain_of_trust"),("signature validation","src/crypto/ring/pki.rs verify_signature; src/crypto/pki.rs bin_to_der"),("slot, mask and digest checks","src/requester/challenge.rs handle_msg")],
 [("cert_chain","chain received for the challenged slot","src/requester/challenge.rs State")],
 ["return value of the requester's handle_msg"])
p("C03","Every authentication is fresh: no nonce repeats and no proof replays",
 "Every CHALLENGE a requester emits and every CHALLENGE_AUTH a responder emits carries a 32-byte nonce freshly drawn from the platform's entropy, different from every other nonce either side has used. A completed authentication corresponds to exactly one signing operation performed by the responder after that requester emitted its CHALLENGE, and no signing operation ever serves two completed authentications. A responder signs only in answer to a CHALLENGE, once per CHALLENGE_AUTH.",
 ["histories","schedules","fault_sequences"],
 "Every history of sessions, retries, resets, crashes and restarts of both ends, any number of earlier recorded sessions replayed in whole or part into a later one, interrupted or short entropy reads.",
 "The tests run one session; repetition of a nonce, a cached proof or a replay needs two or more sessions and an adversarial network.",
 ["src/crypto/nonce.rs","src/msgs/challenge.rs","src/requester/challenge.rs","src/responder/challenge.rs"],
 [("nonce from the OS generator","src/crypto/nonce.rs Nonce::new"),("nonce bound into the signed transcript","src/requester/challenge.rs write_msg; src/responder/challenge.rs handle_msg")],
 [("nonce","challenge nonces","src/requester/challenge.rs State.nonce")],
 ["bytes 4..36 of CHALLENGE","nonce field of CHALLENGE_AUTH","calls of the signer"])
p("C04","Honest endpoints always complete, and recover once faults stop",
 "A requester and a responder with matching trust, a certificate chain within the configured size and depth limits in slot 0 and adequate buffers complete initialization on an undisturbed link in exactly one exchange per negotiated phase, whatever the chain lengths, keys, nonces, signature values and other populated slots. After arbitrary message loss, corruption, delay, partition, signer failure or a crash and restart of either end has stopped, starting over with a new requester (and a reset or new responder if it reported an error) completes again within a bounded number of attempts; GET_VERSION is honoured from every live state of the responder.",
 ["schedules","crash_points","fault_sequences","inputs","configurations"],
 "Every valid key, nonce and certificate chain (each DER length form, leading zero bytes in signature integers, each depth and total size up to the limits), every slot population, every finite fault sequence followed by a fault-free network, every build configuration.",
 "The tests run one handshake with one chain shape and random keys; encodings that occur once in hundreds of signatures, boundary sizes and recovery after a fault are not exercised.",
 ["src/requester.rs","src/responder.rs","src/crypto/pki.rs","src/msgs/certificates.rs","src/responder/version.rs"],
 [("requester phase progression","src/requester.rs AllStates::handle_msg"),("GET_VERSION restart","src/responder.rs reset_on_get_version!"),("signature and certificate DER handling","src/crypto/pki.rs bin_to_der; src/msgs/certificates.rs CertificateChain::parse")],
 [],["return values of next_request and handle_msg","number of exchanges and attempts until completion"])
p("C05","Each endpoint's transcript is exactly what it sent and received",
 "After every successfully processed step, the transcript an endpoint exposes is the byte-exact concatenation, in order and without gap or repetition, of the messages it sent and received since the last GET_VERSION it sent or answered, including that GET_VERSION, with CHALLENGE_AUTH recorded without its signature. Every message is recorded as it was on the wire, including any bytes the parser ignores.",
 ["histories","inputs","configurations"],
 "Every sequence of successfully processed messages of either role: repeated GET_DIGESTS, GET_VERSION in the middle, requests with extended algorithm lists, repeated CHALLENGEs, trailing bytes, several sessions one after another, every message size.",
 "The tests check the transcript along one happy path of fixed messages; they never revisit a state, restart, or send a message whose parsed and wire forms differ.",
 ["src/transcript.rs","src/requester","src/responder"],
 [("Transcript::extend/clear","src/transcript.rs"),("append in each state","src/requester/*.rs write_msg/handle_msg, src/responder/*.rs handle_msg")],
 [("buf, offset","recorded bytes","src/transcript.rs Transcript")],
 ["transcript() of RequesterInit and Responder"])
p("C06","The responder answers only what the protocol phase allows",
 "A responder serves GET_VERSION in any live state, GET_CAPABILITIES only directly after VERSION, NEGOTIATE_ALGORITHMS only directly after CAPABILITIES, GET_DIGESTS and GET_CERTIFICATE only after ALGORITHMS and before a certificate was sent, and CHALLENGE only after a CERTIFICATE, and it serves certificate and challenge requests only if it advertised those capabilities. Every other, malformed or wrong-version request (non-zero reserved bytes, undefined bits, truncation, unknown type) is refused with an error result, a single well-formed ERROR message (UnexpectedRequest when it is the wrong message for the phase) and a dead session, and never with protocol data or a signature.",
 ["inputs","histories","configurations"],
 "Every sequence of requests, in and out of phase, well-formed and malformed, of any length, in every configuration of capabilities.",
 "The tests send the right request in each state once; no test sends a wrong or malformed request to a responder.",
 ["src/responder.rs","src/responder/version.rs","src/responder/capabilities.rs","src/responder/algorithms.rs","src/responder/id_auth.rs","src/responder/challenge.rs","src/responder/error.rs"],
 [("typestate dispatch","src/responder.rs AllStates::handle"),("expect and reset_on_get_version","src/responder.rs"),("error to wire mapping","src/responder/error.rs")],
 [("state","protocol phase","src/responder.rs Responder.state")],
 ["returned slice and Result of Responder::handle_msg","state().name()"])
p("C07","No message from the peer can crash or hang an endpoint",
 "Whatever bytes of whatever length arrive, in whatever live state, a requester's or responder's message handler returns (a result or an error) without panicking, aborting, looping forever, or touching anything outside the buffers it was given. This holds in debug and in optimized builds and in every build configuration.",
 ["inputs","histories","configurations"],
 "Every byte string in every reachable protocol state of both roles: short, empty, over-long, with every length, count, mask, slot and algorithm field at and beyond its limits, malformed certificates and signatures, in builds with and without overflow checks and with and without a crypto provider.",
 "Round-trip tests only parse what the library itself wrote; panics on hostile field values need hostile peers.",
 ["src/msgs","src/requester","src/responder","src/crypto/pki.rs"],
 [("parse error returns","src/msgs/*.rs parse_body"),("Reader bounds checks","src/msgs/encoding.rs")],
 [],["completion of handle_msg and next_request"])
p("C08","Negotiation selects only what both sides offered and support",
 "A responder answers NEGOTIATE_ALGORITHMS either with, for each algorithm class, exactly one algorithm that the request offered and that it implements for the classes it implements (hash, signature), answering only the structures requested, or with a refusal. A requester continues only if the responder's VERSION contains a version it supports (and it uses the highest common one) and if each selection in ALGORITHMS is a single algorithm that it had offered; each endpoint advertises exactly its configured capabilities and its supported algorithms, and acts on exactly the values in the peer's messages.",
 ["inputs","configurations","histories"],
 "Every offered set (each subset of each bit mask including empty ones and sets with no supported member, any number of extended algorithms, any subset and order of algorithm structures), every version list and capability set, every selection a responder may return.",
 "The tests negotiate once between identical endpoints, where the first offered algorithm is always supported; no test offers a set whose first member is unsupported.",
 ["src/responder/algorithms.rs","src/requester/algorithms.rs","src/requester/version.rs","src/requester/capabilities.rs","src/responder/capabilities.rs","src/msgs/algorithms.rs","src/msgs/version.rs"],
 [("choose_algorithms","src/responder/algorithms.rs"),("ensure_valid_algorithms_selected","src/requester/algorithms.rs"),("find_max_matching_version","src/requester/version.rs")],
 [("algorithms","negotiated selection","src/requester/*.rs and src/responder/*.rs State")],
 ["ALGORITHMS, CAPABILITIES and VERSION bytes","Result of the requester's handle_msg","public state fields"])
p("C09","Digests, certificates and proofs always belong to the requested slot",
 "In every session the slot mask in DIGESTS and CHALLENGE_AUTH is exactly the set of populated slots, DIGESTS lists the digest of each populated slot's serialized chain in slot order, CERTIFICATE for a populated slot carries exactly that slot's chain (length, root hash, intermediates in order, leaf) and the requested slot number, and CHALLENGE_AUTH carries the requested slot number, that slot's chain digest and a signature made by that slot's signer, mutual authentication or not. A CHALLENGE for an unpopulated or non-existent slot and a GET_CERTIFICATE for a non-existent slot are refused, and a requester does not take a certificate for a slot it did not ask for.",
 ["inputs","configurations","histories"],
 "Every population of the 1 to 8 configured slots with chains of different sizes and depths, every slot number 0..255 in every request, every hash algorithm, with and without mutual authentication.",
 "The tests use slot 0 and one population of slots with chains of one shape, and the requester they drive never asks for another slot.",
 ["src/responder/id_auth.rs","src/responder/challenge.rs","src/msgs/digest.rs","src/msgs/certificates.rs","src/msgs/challenge.rs","src/requester/id_auth.rs"],
 [("create_slot_mask, hash_cert_chains","src/responder/id_auth.rs"),("slot lookup and signer choice","src/responder/challenge.rs")],
 [("slots","certificate chains and signers","src/responder.rs Responder.slots")],
 ["DIGESTS, CERTIFICATE and CHALLENGE_AUTH bytes","which signer is called"])
p("C10","GET_VERSION and reset erase every trace of the past",
 "After any history of valid, invalid and failed requests, a responder that is reset, or that receives GET_VERSION in a live state, behaves for every following request sequence exactly like a freshly created responder with the same slots: the same responses, results, states and transcript, given the same entropy. Nothing negotiated, received or failed earlier influences what follows.",
 ["histories","crash_points","fault_sequences"],
 "Every prefix history (including failures at any point, resource faults, and GET_VERSION in every phase) followed by every continuation.",
 "No test resets a responder or sends GET_VERSION twice; equivalence needs two histories compared over all continuations.",
 ["src/responder.rs","src/responder/version.rs","src/transcript.rs"],
 [("Responder::reset","src/responder.rs"),("reset_on_get_version! and transcript clear","src/responder.rs, src/responder/version.rs")],
 [("state, transcript","all mutable state of a responder","src/responder.rs Responder")],
 ["handle_msg results of twin responders"])
p("C11","The requester follows the negotiated flow and fails closed",
 "A requester emits exactly GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS, then GET_DIGESTS and GET_CERTIFICATE if and only if both sides advertised certificates, then CHALLENGE if and only if in addition both advertised challenge, each only after it accepted the response to the one before; it reports completion exactly on accepting the last response and from then on hands out no further request but says initialization is complete. Any response that is not a well-formed response of the expected type and version, or contradicts what was requested, yields an error after which the session is dead and never completes.",
 ["inputs","histories","configurations","fault_sequences"],
 "Every responder capability set and every response sequence: wrong type, wrong version, ERROR messages, late, duplicated or cross-session responses, malformed fields, in every state and configuration.",
 "The tests follow the one flow of two identically configured endpoints; other capability combinations and unexpected responses are not tried.",
 ["src/requester.rs","src/requester"],
 [("capability driven transitions","src/requester.rs AllStates::handle_msg"),("expect","src/requester.rs"),("Error state","src/requester.rs RequesterInit::handle_msg")],
 [("state","protocol phase","src/requester.rs RequesterData.state")],
 ["sequence of next_request outputs","results of handle_msg","state().name()"])
p("C12","The library performs no heap allocation",
 "No call into a requester or responder - construction, message handling, reset, success, failure or error reporting, including certificate validation, hashing and signature verification - requests memory from the heap; an endpoint works identically when every heap allocation would fail.",
 ["inputs","histories","fault_sequences"],
 "Every call made in every simulated session, in every state, configuration and fault situation.",
 "The tests are built against std and cannot notice an allocation; a dependency feature or a helper that allocates on a rare path stays invisible.",
 ["src/lib.rs","src","Cargo.toml"],
 [("no_std and fixed-size buffers","src/lib.rs, src/config.rs")],
 [],["calls of the global allocator while a library call is on the stack"])
p("C13","Local resource failures are reported cleanly and lose nothing else",
 "When a caller-supplied buffer, the transcript or a certificate buffer is too small, or the signer fails or returns a signature of the wrong size, the call returns an error (for a responder with an ERROR message if one fits, otherwise an empty slice), never a truncated or partly filled message and never a panic; with exactly enough room it succeeds. Interrupted and short entropy reads are invisible, an entropy failure never yields a message whose nonce was not drawn from it, and after the failure a reset responder or a new requester works normally.",
 ["fault_sequences","crash_points","configurations","inputs"],
 "Every buffer size from 0 up at every step, every transcript and chain size around the configured limits, every failure of any signer call, every pattern of failed, interrupted or short entropy reads.",
 "The tests use ample buffers, a signer that always works and the real entropy source.",
 ["src/transcript.rs","src/msgs/encoding.rs","src/responder.rs","src/responder/challenge.rs","src/crypto/nonce.rs","src/responder/error.rs"],
 [("BufferFullError","src/msgs/encoding.rs Writer, src/transcript.rs"),("SigningFailed","src/responder/challenge.rs"),("error message fallback to empty slice","src/responder.rs AllStates::handle")],
 [],["results and returned slices of next_request and handle_msg"])
p("C14","Concurrent sessions do not influence each other",
 "Any number of requesters and responders living in one process, with any interleaving of their calls, behave each exactly as if it ran alone on the same inputs and entropy: same messages, results, states and transcripts.",
 ["schedules","histories"],
 "Every interleaving of the calls of several concurrent sessions on shared identities, including sessions that fail midway.",
 "The tests never have two sessions alive in one process.",
 ["src/requester.rs","src/responder.rs","src/crypto"],
 [("all session state lives in the endpoint value; no global mutable state","src/requester.rs, src/responder.rs")],
 [],["per-session message logs of an interleaved run and of solo runs"])
p("C15","Every message matches the SPDM 1.1 wire format, both ways",
 "Every message an endpoint emits is a complete, well-formed SPDM message with the layout, code, version, length fields, reserved zeros and byte order of the specification, so that an independent implementation reads from it exactly the values the endpoint negotiated; and every well-formed message from an independent, conforming peer using only features the library supports (among them one measurement specification and measurement hash selected, and at most two version entries), with any legal field values, is accepted and understood. An ERROR message a responder emits is read back by the library's own parser as exactly that message. A conforming independent requester completes against the library's responder, and the library's requester completes against a conforming independent responder.",
 ["inputs","configurations","histories"],
 "Every message of every session against independent reference peers, with any legal choice of capabilities, versions, algorithms, extended algorithm lists, slot populations, chains, measurement hash types, opaque data and nonces.",
 "The tests feed each codec its own output, so a symmetric mistake in writer and parser goes unnoticed, and two endpoints sharing it still agree.",
 ["src/msgs"],
 [("Msg::write/parse_body of each message","src/msgs/*.rs")],
 [],["bytes on the wire","results of handle_msg"])
p("C16","What an endpoint reports as negotiated is what was negotiated",
 "After every regular message an endpoint sent or accepted, the public state it reports names the phase reached and holds exactly what the messages of this session said: protocol version, timing exponent and capability flags of requester and responder, each selected algorithm and algorithm structure, the digests with their slots, the requested slot, the received certificate chain with its slot and exact length, and the nonce of the CHALLENGE. No value is lost, altered, swapped between the two ends or carried over from an earlier session when the endpoint moves from phase to phase. The provisioned slots an endpoint reports never change.",
 ["inputs","histories","configurations"],
 "Every negotiable value of every field, in every phase, of both roles, against arbitrary conforming peers, over restarts, repeated requests and several sessions, in every build configuration.",
 "The tests look at the algorithms of one handshake in which both ends hold equal values (the same timing exponent and flags on both sides), so a swapped, stale or dropped value cannot show.",
 ["src/requester","src/responder","src/requester.rs","src/responder.rs"],
 [("State structs and the From conversions between them","src/requester/*.rs, src/responder/*.rs"),("state() and slots()","src/requester.rs, src/responder.rs")],
 [("version, *_ct_exponent, *_cap, algorithms, digests, requested_slot, cert_chain, nonce","negotiated values","src/requester/*.rs State"),("*_ct_exponent, *_cap, algorithms","negotiated values","src/responder/*.rs State")],
 ["state() and slots() of RequesterInit and Responder"])
p("N01","Invalid build configurations are rejected at build time",
 "A configuration file with a slot count outside 1..8, an over-long chain depth or buffer, an unknown capability or signing algorithm, or any capability without a crypto provider makes the build fail, and otherwise every generated constant equals the configured value.",
 ["configurations"],"Every configuration file.","The tests only build the two shipped configurations.",
 ["build.rs","config.rs.template"],[("gen_config, validate","build.rs")],[],["exit status of the build script"])
p("N02","The measurement and error message codecs round-trip",
 "Every value of the GET_MEASUREMENTS, MEASUREMENTS and ERROR message types that can be written is read back unchanged.",
 ["inputs"],"Every message value.","The unit tests sample a few values.",
 ["src/msgs/measurements.rs","src/msgs/error.rs"],[("write_body/parse_body","src/msgs/measurements.rs, src/msgs/error.rs")],[],["results of write and parse"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
