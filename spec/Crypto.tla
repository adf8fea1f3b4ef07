------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The concrete algebra of FROST-Ed25519 as seen by the specification.      *)
(*                                                                          *)
(* Byte strings, scalars and group elements are TLA+ strings of lower case  *)
(* hexadecimal digits, exactly as they appear on the wire: a scalar is its  *)
(* 32-byte little-endian canonical encoding, an element its ristretto255    *)
(* encoding.  TLC evaluates these operators with spec/java (written from    *)
(* RFC 8032, RFC 9496 and FIPS 180-4 on java.math.BigInteger, independent   *)
(* of the implementation under test); CryptoTest.tla checks them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* byte strings *)
Cat(s)         == CHOOSE x \in {} : TRUE  \* concatenation of a sequence of strings
Bytes(h)       == CHOOSE x \in {} : TRUE  \* length in bytes
Slice(h, i, n) == CHOOSE x \in {} : TRUE  \* n bytes from offset i (clamped)
From(h, i)     == CHOOSE x \in {} : TRUE  \* all bytes from offset i
U16(n)         == CHOOSE x \in {} : TRUE  \* two bytes, big endian
Num(h)         == CHOOSE x \in {} : TRUE  \* big-endian value of a short string
Contains(h, n) == CHOOSE x \in {} : TRUE  \* n occurs in h
Rev(h)         == CHOOSE x \in {} : TRUE  \* bytes in reverse order
TextLeaks(t, h) == CHOOSE x \in {} : TRUE \* a textual form of the bytes h, in either order, occurs in the text t
IsPrefix(a, b) == CHOOSE x \in {} : TRUE
IndexOf(h, n)  == CHOOSE x \in {} : TRUE  \* byte offset of the first aligned occurrence or -1
Base64(h)      == CHOOSE x \in {} : TRUE
HexOfText(t)   == CHOOSE x \in {} : TRUE
Dec(n)         == CHOOSE x \in {} : TRUE  \* decimal text of an integer

Sha512(h)      == CHOOSE x \in {} : TRUE

(* scalars modulo q = 2^252 + 27742317777372353535851937790883648493 *)
IsScalar(h)    == CHOOSE x \in {} : TRUE
Reduce(h)      == CHOOSE x \in {} : TRUE  \* little-endian integer of any length, modulo q
SInt(n)        == CHOOSE x \in {} : TRUE
SAdd(a, b)     == CHOOSE x \in {} : TRUE
SSub(a, b)     == CHOOSE x \in {} : TRUE
SMul(a, b)     == CHOOSE x \in {} : TRUE
SInv(a)        == CHOOSE x \in {} : TRUE
SZero          == "0000000000000000000000000000000000000000000000000000000000000000"

(* the ristretto255 group *)
IsPoint(h)     == CHOOSE x \in {} : TRUE
PAdd(a, b)     == CHOOSE x \in {} : TRUE
PSub(a, b)     == CHOOSE x \in {} : TRUE
PMul(k, p)     == CHOOSE x \in {} : TRUE
PBase(k)       == CHOOSE x \in {} : TRUE
PEval(F, x)    == CHOOSE y \in {} : TRUE  \* sum of F[j] * x^(j-1) for a small integer x
PUniform(h)    == CHOOSE x \in {} : TRUE  \* element from 64 uniform bytes
EdEncode(p)    == CHOOSE x \in {} : TRUE  \* Ed25519 encoding of the torsion-free representative
EdDecode(h)    == CHOOSE x \in {} : TRUE  \* element of an Ed25519 encoding, or ""
PId            == "0000000000000000000000000000000000000000000000000000000000000000"
=============================================================================
