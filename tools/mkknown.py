#!/usr/bin/env python3
"""Writes known-findings.jsonl: the repaired defects (they suppress nothing). There are no open findings."""
import json, os
F = [
 ("C03", "4d175f0", "the Schnorr challenge ignored its hash (SetUniformBytes got 128 bytes and failed), so S was always 0 and any proof (0, R) verified"),
 ("C15", "99bf8d5", "Message.UnmarshalBinary dropped the payload decoding error and returned a message without payload"),
 ("C16", "75cea22", "a commitment polynomial of declared degree 65535 overflowed the coefficient count"),
 ("C02", "09a2047", "a commitment polynomial of the wrong degree was silently left out of the sum, so parties completed with inconsistent keys or crashed"),
 ("C16", "a1d9a37", "a key generation that ended before its first processing call panicked in Reset"),
 ("C08", "0a8b5ff", "a next-round message was rejected as a duplicate while the current round's message of that sender was stored, and duplicates of queued types were accepted"),
 ("C18", "c3c9976", "malformed public key shares (null entries, missing group key, negative threshold) crashed the decoder"),
 ("C18", "af60e75", "out of range identifiers of JSON secret shares were truncated to 16 bits"),
 ("C21", "2b541b7", "party lists with 0, duplicates or in wrong order were accepted by session constructors"),
 ("C17", "3b41f97", "rounds kept a reference to the caller's party list"),
 ("C21", "3ea979f", "signing sessions with at most threshold signers were created"),
 ("C17", "61f99d7", "key generation sessions accumulated into the commitment polynomial of the message they had returned"),
 ("C17", "c674588", "signing sessions kept a reference to the caller's message buffer"),
 ("C13", "039a496", "IsFinished and Err read the session's result without the lock (data race)"),
 ("C14", "4a1d0f8", "culprit and round were swapped in the error text of a rejected message"),
 ("C24", "02346b0", "the keygen command accepted thresholds below 1"),
 ("C21", "8bd6052", "NewPartySlice(65535) never returned"),
 ("C24", "798a848", "the signer command crashed on key files without public shares, with a missing secret share, or whose shares cannot sign"),
 ("C23", "e46ea5c", "Element.MultiScalarMult added its result to the receiver's old value (wrong result unless the receiver was the identity)"),
 ("C24", "6c9c5e0", "the keygen command claimed success when the key file could not be written"),
 ("C26", "dbe19aa", "a random source returning fewer bytes than requested left the rest of a nonce's or secret's 64 bytes zero"),
 ("C12", "3e232e6", "a timeout that expired while another call held the session aborted it immediately although that call or a waiting one had just accepted a message"),
]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl")
with open(p, "w") as f:
    for pid, c, w in F:
        f.write(json.dumps({"fixed": "property=%s %s %s" % (pid, c, w)}) + "\n")
