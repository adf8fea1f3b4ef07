#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the lines stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

KG = ["pkg/frost/keygen/base.go", "pkg/frost/keygen/round0.go", "pkg/frost/keygen/round1.go", "pkg/frost/keygen/round2.go"]
SG = ["pkg/frost/sign/base.go", "pkg/frost/sign/round0.go", "pkg/frost/sign/round1.go", "pkg/frost/sign/round2.go"]
POLY = ["pkg/internal/polynomial/polynomial.go", "pkg/internal/polynomial/exponent.go"]
ST = ["pkg/state/state.go"]

prop("C01", "Key generation gives every honest party one consistent, usable key",
 "When every party of a key generation follows the protocol, every one of them completes, whatever the order in which messages are delivered, for every group of 2 or more distinct nonzero 16-bit identifiers and every threshold t from 1 to n-1. All parties then hold the same group key, threshold, party list and public shares; each party's secret share is the discrete logarithm of its own public share, and every set of t+1 secret shares interpolates at zero to the discrete logarithm of the group key, while the shares really lie on a polynomial of degree t chosen by all parties together. The same consistency holds among the honest parties that complete when other parties misbehave but send the same broadcast to everybody.",
 ["inputs", "schedules", "configurations"], "all identifier sets, thresholds, delivery orders, random coins, and contributions of misbehaving parties",
 "The tests run a few sizes with identifiers 1..n, one delivery order and honest parties only.",
 KG + POLY + ["pkg/eddsa/public.go"], [("commitment sum", KG[2]), ("share accumulation", KG[3]), ("output", KG[3])],
 [("CommitmentsSum", "sum of all commitment polynomials"), ("Secret", "accumulated share")], "outputs and emitted messages of all parties")

prop("C02", "Key generation never completes on an inconsistent contribution",
 "A party aborts key generation, without delivering any output, if another party contributed a commitment polynomial whose degree is not the threshold, an invalid proof of knowledge, or a private share that differs from the contributor's committed polynomial at the receiver's identifier. It does so whatever the position of the contribution among the others and whatever else was received, and conversely a contribution free of these three faults never causes an abort.",
 ["inputs", "fault_sequences", "schedules"], "all contributions any subset of the other parties can send, in any order",
 "No test sends a contribution that is decodable but wrong; all parties in the tests are honest.",
 KG, [("degree and proof check", KG[2]), ("share check", KG[3])], None, "result of the session after each processing call")

prop("C03", "A key share commitment is bound to its sender by a proof of knowledge",
 "A received commitment is accepted only with a proof whose challenge equals the SHA-512 hash, reduced to a scalar, of the sender's 2-byte identifier, a 32-byte zero context, the encoded constant commitment and the recomputed nonce point; every proof an honest party emits satisfies this for its own identifier. Therefore a contribution copied from another party, a proof made for another identifier or constant, and a proof made without knowing the secret (including zero, degenerate or altered proof scalars) are rejected.",
 ["inputs"], "all identifiers, commitments and proof scalars",
 "The tests only check that a freshly made proof verifies, which a challenge that is constant also satisfies.",
 ["pkg/internal/zk/schnorr.go", KG[1], KG[2]], [("challenge hash", "pkg/internal/zk/schnorr.go"), ("proof check", KG[2])], None, "emitted and received first messages of key generation")

prop("C04", "Any threshold+1 signers obtain one valid Ed25519 signature on any message",
 "If at least threshold+1 holders of consistent shares sign the same message (any bytes, including empty and very long ones) and follow the protocol, every one of them completes in every delivery order, and all obtain the identical signature. That signature verifies under the group key both with the library's verifier and with standard Ed25519 verification; this holds for every subset of the share holders of size threshold+1 or more.",
 ["inputs", "schedules", "configurations"], "all signer subsets, identifiers, messages, delivery orders and random coins",
 "The tests sign one or two short messages with consecutive identifiers and synchronous delivery.",
 SG + ["pkg/frost/party/id.go", "pkg/eddsa/signature.go"], [("binding factors", SG[2]), ("signature assembly", SG[3]), ("Lagrange normalisation", SG[0])], None, "outputs of all signers")

prop("C05", "Signing never outputs a signature on invalid contributions",
 "A signer accepts another signer's signature share only if it satisfies the share equation for that signer's nonce commitments and public share, and aborts without output if a share fails it or a nonce commitment is the identity. Every signature that is output verifies under the group key for exactly the message of that session; shares made for another message, other commitments, another signer or another signer set never lead to an output, and contributions satisfying the equations never cause an abort.",
 ["inputs", "fault_sequences", "schedules"], "all contributions any subset of the other signers can send, in any order",
 "All signers in the tests are honest, so no rejection path is executed.",
 SG, [("identity check", SG[2]), ("share equation", SG[3]), ("final verification", SG[3])], None, "session result and output")

prop("C06", "A signer uses each nonce pair once, fresh, and only with all commitments",
 "In one session a signer emits exactly one pair of nonce commitments and at most one signature share, and it emits the share only after having the commitments of all the other signers. Both nonces are chosen independently of each other, of the key, message and other sessions, each from at least 32 bytes newly read from the system's secure random source, so that two sessions, even with identical inputs, never use the same commitment and no schedule of calls yields two shares for one commitment pair.",
 ["schedules", "histories", "inputs"], "all call schedules of a session and all sequences of sessions",
 "Tests compare nothing between sessions and never repeat calls; nonce reuse is invisible to a test that only verifies the signature.",
 SG[1:3] + ["pkg/internal/scalar/scalar.go"] + ST, [("nonce sampling", SG[1]), ("share emission", SG[2])],
 [("d, e", "secret nonces")], "emitted messages and reads from the random source")

prop("C07", "Emitted signing messages follow the documented FROST equations byte for byte",
 "The binding factor of signer i is the SHA-512 hash, reduced to a scalar, of \"FROST-SHA512\", i, SHA-512 of the message and the list of (identifier, D, E) of all signers in increasing order; the group nonce R is the sum of D_j + rho_j E_j, the challenge is SHA-512 of R, the group key (both in Ed25519 encoding) and the message, and the emitted share z_i satisfies z_i G = D_i + rho_i E_i + c lambda_i A_i. The output signature is exactly (R, sum of the z_j), so that independent implementations interoperate in any mix of signers.",
 ["inputs", "configurations"], "all identifiers, signer sets, messages and commitments, including ones made by other implementations",
 "The tests only run the implementation against itself, so any self-consistent change of the equations goes unnoticed.",
 [SG[2], SG[3], "pkg/eddsa/signature.go"], [("binding factors", SG[2]), ("challenge", "pkg/eddsa/signature.go")], None, "emitted shares and output signatures")

prop("C08", "Messages are accepted, ignored or rejected exactly as the rules say",
 "Handing over a message returns an error if the session has ended, the sender is not a party, its type is not one of the current or a later round of this protocol, or a message of this type from that sender was already accepted; a message from the party itself or addressed to somebody else is silently ignored while the session runs and still accepts messages, and every other message is accepted. Only accepted messages influence the session: rejected and ignored ones, in any number and at any time, change neither its later behaviour nor its result, and of several messages of one type from one sender the first accepted one counts.",
 ["histories", "inputs", "schedules"], "all sequences of messages (any type, sender, recipient, duplicates, replays, late and early) interleaved with processing calls",
 "Only the happy path is tested; no test sends duplicate, stale, early, foreign or misaddressed messages.",
 ST + ["pkg/messages/header.go"], [("intake checks", ST[0]), ("queue for later rounds", ST[0])],
 [("receivedMessages", "messages of the current round"), ("queue", "messages of later rounds")], "error returned for each message and subsequent behaviour")

prop("C09", "Delivery order never matters and no accepted message is lost",
 "For a fixed set of delivered messages, the result of a session does not depend on the order or interleaving in which they are handed over and processing is called: a message that arrives before its round, even before the session's first processing call, is kept and used when that round is reached. A session that has been given one valid message per round from every other party always finishes after a bounded number of processing calls (one per round).",
 ["schedules", "histories"], "all interleavings of deliveries and processing calls of all parties",
 "The tests deliver round by round in lock step.",
 ST, [("queue drain on round change", ST[0])], [("queue", "messages of later rounds")], "progress and outputs under permuted delivery")

prop("C10", "Rounds advance only when complete and emit each message exactly once",
 "A processing call advances the session if and only if the session has not ended and a message of the current round has been accepted from every other party (the first call needs none), and it then advances by exactly one round; otherwise it returns nothing and changes nothing. Advancing returns precisely that round's messages, once: a broadcast with recipient 0 in rounds that broadcast, and in the share round one message addressed to each other party and none to itself, all naming the party itself as the sender.",
 ["schedules", "histories", "configurations"], "all interleavings of processing calls and message deliveries, all party sets",
 "Tests call processing exactly once per round when everything has arrived.",
 ST + KG[1:] + SG[1:], [("completeness gate", ST[0]), ("message generation", KG[2])], None, "messages returned from each processing call")

prop("C11", "A session ends once, and its end is final and consistent",
 "A session ends either successfully, with complete output and no error, or with an error and no output, never both or neither, and output appears only at a successful end. From then on the finished flag, the done channel, the reported error and the waiting call all agree and never change, every further message is rejected, and processing returns nothing; the first error is the one reported.",
 ["histories", "schedules", "fault_sequences"], "all call sequences before and after the end, ends by success, faulty message and timeout",
 "Tests stop using a session when it has finished and do not look at it in other ways.",
 ST + [KG[0], SG[0]], [("finish", ST[0]), ("error report", ST[0])], [("done", "ended flag"), ("err", "first error")], "finished flag, done channel, error, wait, output")

prop("C12", "Timeouts abort exactly the sessions that stall",
 "A session with a positive timeout ends with an error that blames nobody once that duration passes without an accepted message, counted from its creation or its last accepted message; accepting a message, also one for a later round, restarts the full period, whereas rejected and ignored messages and processing calls do not. It never aborts earlier, a timeout after the end changes nothing, and a session with timeout 0 never times out.",
 ["schedules", "fault_sequences"], "all timings of deliveries relative to the timeout",
 "No test uses a timeout that fires.",
 ST, [("timer restart", ST[0]), ("timer callback", ST[0])], [("timer", "pending abort")], "time and form of the abort")

prop("C13", "A session may be used from many goroutines at once",
 "Message hand-over, processing, waiting, and the finished, error and done queries may be called concurrently, together with a firing timeout, without data races, deadlocks or crashes. Each call takes effect atomically, so the results equal those of some sequential order of the calls that respects real time; every round's messages are returned by exactly one call and every waiter is woken at the end.",
 ["schedules"], "all interleavings of concurrent calls on one session",
 "The tests call a session from one goroutine and do not run the race detector on concurrent use.",
 ST, [("session mutex", ST[0]), ("done channel", ST[0])], None, "invocation/response histories and the race detector")

prop("C14", "Faults are attributed to the party and round that caused them",
 "When a session aborts because of a received contribution, the error names a party that actually sent a faulty contribution in that round, and the number of that round; a party that followed the protocol (under consistent broadcast) is never named. Errors without a responsible party, such as timeouts, name party 0 and still give the current round, and rejected messages change neither the blame nor the round. The texts of these errors, and of the errors returned for rejected messages, give the same party and round.",
 ["fault_sequences", "schedules", "inputs"], "all sets of misbehaving parties, kinds of faults and delivery orders",
 "No test makes a party misbehave, so no blame is ever produced.",
 ["pkg/state/error.go"] + ST + [KG[2], KG[3], SG[2], SG[3]], [("error attribution", ST[0])], [("err", "culprit and round")], "reported error")

prop("C15", "The wire format is canonical: one byte string per message and back",
 "Decoding succeeds exactly on the documented encodings (type, 2-byte sender and recipient, and a payload of exactly the right length whose scalars and group elements are canonical, whose coefficient count matches the declared degree, with nonzero sender and a recipient that is zero exactly for broadcast types), returns an error otherwise, and re-encoding the result gives the same bytes. Encoding then decoding any valid message gives an equal message, the reported size is the encoded length, appending keeps the existing bytes, and two messages compare equal exactly if their encodings are equal.",
 ["inputs"], "all byte strings and all messages",
 "The tests round-trip one random message per type and try hardly any malformed input.",
 ["pkg/messages/messages.go", "pkg/messages/header.go", "pkg/messages/keygen1.go", "pkg/messages/keygen2.go", "pkg/messages/sign1.go", "pkg/messages/sign2.go", "pkg/internal/polynomial/exponent.go", "pkg/internal/zk/schnorr.go"],
 [("header codec", "pkg/messages/header.go"), ("payload codecs", "pkg/messages/")], None, "decode and encode calls")

prop("C16", "No received bytes can crash or wedge a party",
 "No byte string given to any decoder of messages, keys, shares or signatures (binary or JSON) causes a crash or unbounded work, and no message that decodes successfully can crash or wedge a running session of either protocol, whatever round the session is in and whatever was received before. Failures are reported as errors or protocol aborts.",
 ["inputs", "histories"], "all byte strings, delivered at every point of every session",
 "The tests contain almost no malformed input and never feed foreign messages into a running session.",
 ["pkg/messages/messages.go", "pkg/eddsa/public.go", "pkg/eddsa/secret_share.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go"] + ST, [("decoders", "pkg/messages/")], None, "any call returns normally")

prop("C17", "Sessions do not share mutable state with callers or each other",
 "A message returned by a session, an output, and a broadcast object handed to several sessions keep their content whatever any session does afterwards, including its end; the caller's key share, public data, party list and message buffer are never modified. Changing the caller's buffers and lists after handing them over, or received broadcast objects after they were processed, does not change what a session signs, sends or outputs; the only object a session may change is the private share message handed to it, whose secret it erases.",
 ["histories", "schedules"], "all later steps of all sessions sharing the objects",
 "Tests serialise every message immediately and never look at inputs or old messages again.",
 [KG[1], KG[2], SG[0], SG[1], "pkg/messages/sign1.go", "pkg/state/base_round.go"], [("commitment copies", KG[2]), ("input copies", SG[0])], None, "content of the objects before and after")

prop("C18", "Stored keys reload to exactly the same keys, and bad files are refused",
 "Public key data, secret shares, group keys and signatures that are encoded (JSON or binary) and decoded again are equal to the originals in every field, for every identifier and threshold, and a reloaded share or public record signs and verifies as the original. Encoded data that is not consistent is refused with an error: wrong lengths, non-canonical scalars or points, identifier out of the 16-bit range, a threshold that is negative or not below the number of shares, a public record with a missing or zero-identifier share, or a group key that is not the interpolation of the shares.",
 ["inputs"], "all keys and all encoded strings",
 "One round trip per type with small identifiers is tested.",
 ["pkg/eddsa/public.go", "pkg/eddsa/secret_share.go", "pkg/eddsa/public_key.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go", "pkg/frost/party/id.go"], [("JSON codecs", "pkg/eddsa/")], None, "encode and decode calls")

prop("C19", "Verification accepts exactly the valid Ed25519 signatures",
 "For every public key, message and signature (R,S), the library's verification accepts if and only if S G = R + k A, where k is the SHA-512 hash of the Ed25519 encodings of R and A followed by the message, reduced to a scalar. It agrees with standard Ed25519 verification of the converted key and signature, whose encodings are the canonical torsion-free point encodings, and signatures made by standard Ed25519 with the same secret scalar are accepted.",
 ["inputs"], "all keys, messages and signatures, valid or not",
 "The tests verify a handful of valid signatures and hardly any invalid one.",
 ["pkg/eddsa/public_key.go", "pkg/eddsa/signature.go", "pkg/ristretto/ristretto.go"], [("verification equation", "pkg/eddsa/public_key.go"), ("challenge", "pkg/eddsa/signature.go"), ("Ed25519 encoding", "pkg/ristretto/ristretto.go")], None, "verification result and converted bytes")

prop("C20", "Secret sharing helpers reconstruct with any threshold+1 shares and no fewer",
 "The Lagrange coefficient of a party in a set of distinct nonzero identifiers is the product of x_k/(x_k - x_j) over the other members, independent of the order of the set, and an error is returned for the identifier 0 and for a non-member. Shares dealt by the trusted dealer helper lie on a polynomial of degree exactly the threshold with random coefficients whose value at zero is the returned secret, so that any threshold+1 of them reconstruct it and fewer do not; the derived public data consists of the matching public shares, group key and threshold.",
 ["inputs", "configurations"], "all identifier sets up to 16 bits, all thresholds, all subsets",
 "The test checks that coefficients of one set sum to one, and one dealt key.",
 ["pkg/frost/party/id.go", "pkg/helpers/keys.go", "pkg/eddsa/public.go"] + POLY[:1], [("Lagrange", "pkg/frost/party/id.go"), ("dealer", "pkg/helpers/keys.go")], None, "returned coefficients, shares and public data")

prop("C21", "Sessions with invalid parameters cannot be created",
 "Creating a key generation session succeeds exactly when the party list is strictly increasing, contains the own identifier and not 0, and 1 <= threshold <= n-1; creating a signing session succeeds exactly when the signer list is strictly increasing, without 0, contains the share's owner, is a subset of the key's parties and has at least threshold+1 members. Otherwise an error is returned and no session or output, and public key data is created only if every share is present, no identifier is 0 and threshold < number of shares; identifier lists are sorted when created, with membership, subset and equality queries agreeing with set semantics.",
 ["inputs", "configurations"], "all party lists, own identifiers and thresholds",
 "No test creates a session with invalid parameters.",
 ["pkg/frost/frost.go", KG[0], SG[0], "pkg/state/base_round.go", "pkg/eddsa/public.go", "pkg/frost/party/idslice.go"], [("parameter checks", "pkg/frost/keygen/base.go"), ("party list checks", "pkg/state/base_round.go")], None, "result of construction")

prop("C22", "Ended sessions keep no secrets",
 "When a session has ended, by success, fault or timeout and at any round, the session object no longer contains its signing nonces, its copy of the (scaled) secret key share, its secret polynomial's coefficients, its accumulated key share, or a reference to the output. A key generation session erases its polynomial as soon as it has dealt the shares.",
 ["histories", "fault_sequences"], "all ways and points at which a session can end",
 "No test looks into an ended session.",
 ST + [KG[0], KG[2], SG[0]] + POLY[:1], [("reset", KG[0]), ("reset", SG[0]), ("finish", ST[0])], [("Polynomial, Secret, d, e, SecretKeyShare", "secrets")], "memory reachable from the session object")

prop("C23", "Group elements have one canonical encoding and obey the group law",
 "Decoding accepts exactly the canonical ristretto255 encodings of RFC 9496 and rejects every other byte string leaving the receiver unchanged; encoding, equality and the map from uniform bytes agree with RFC 9496, so that equal elements have equal encodings whatever their internal representation. Addition, subtraction, negation and all scalar multiplication variants agree with the mathematical group of prime order, also when results and operands coincide, and text encoding is the base64 of the binary one.",
 ["inputs"], "all 32-byte (and other length) strings, all elements and scalars, including torsion representatives and identity",
 "The tests contain the RFC vectors and a few random elements.",
 ["pkg/ristretto/ristretto.go"], [("decode", "pkg/ristretto/ristretto.go"), ("encode", "pkg/ristretto/ristretto.go")], None, "results of element operations")

prop("C24", "The command-line tools make usable keys and valid signatures",
 "For 0 < t < n <= 100 the key generation command writes a file from which exactly n shares and the public data reload consistently, with the group key and shares it printed; the signing command given this file and any message prints a signature that verifies for that message and the file's group key. Any other arguments make either command print a usage or error message instead, without crashing, claiming success or writing a key file.",
 ["inputs", "configurations"], "all argument values, messages and key files",
 "The commands have no tests at all.",
 ["cmd/keygen/keygen.go", "cmd/signer/signer.go", "pkg/helpers/parties.go"], [("argument checks", "cmd/keygen/keygen.go"), ("signing run", "cmd/signer/signer.go")], None, "exit, output and key file of the commands")

prop("C25", "The byte-level party driver equals decode, hand over, process, encode",
 "The helper that drives one party with encoded messages decodes and hands over every input in order, then processes once and returns exactly the encoded messages that processing produced. It returns an error if any input does not decode or is rejected, in which case processing is not performed, or if the session has ended with an error, and never returns messages together with an error.",
 ["inputs", "histories"], "all sequences of encoded messages in all session states",
 "The tests only drive it with the right messages of honest runs.",
 ["pkg/helpers/parties.go"], [("party driver", "pkg/helpers/parties.go")], None, "returned messages and error, and the session afterwards")

prop("C26", "Protocol messages, keys and sessions leak no secret and use fresh randomness",
 "Every secret a party chooses (each polynomial coefficient, the proof nonce and both signing nonces) is the reduction modulo the group order of its own newly read 64 bytes of the system's secure random source, and depends on nothing else, so equal random bytes give equal values and changing any read changes the respective value. Nothing a party sends or returns in public data contains, in any encoding, its polynomial coefficients, proof nonce, nonces or key share, other than each recipient's own share and values blinded by a nonce used once.",
 ["inputs", "histories"], "all random strings and all sessions",
 "Tests cannot see the relation between randomness and messages; a constant or reused secret passes them all.",
 ["pkg/internal/scalar/scalar.go", POLY[0], "pkg/internal/zk/schnorr.go", KG[1], SG[1], "pkg/helpers/keys.go"], [("scalar sampling", "pkg/internal/scalar/scalar.go"), ("coefficient sampling", POLY[0])], None, "random reads and emitted values")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
