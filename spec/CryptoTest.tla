----------------------------- MODULE CryptoTest -----------------------------
(* Known-answer and algebraic tests of the operators of Crypto (FIPS 180-4, RFC 8032, RFC 9496). *)
EXTENDS Crypto, TLC

VARIABLE x
Init == x = 0
Next == UNCHANGED x

G == PBase(SInt(1))
s1 == Reduce(Sha512("01"))
s2 == Reduce(Sha512("02"))
X == PUniform(Sha512("03"))

\* RFC 8032, test 1: seed, key, signature of the empty message
seed == "9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"
edpk == "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"
edR  == "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e06522490155"
edS  == "5fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"
K == Reduce(Sha512(Cat(<<edR, edpk, "">>)))

\* RFC 9496, A.1: multiples of the generator; A.2: invalid encodings; A.3: group elements from uniform bytes
Multiples == <<
  "e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76",
  "6a493210f7499cd17fecb510ae0cea23a110e8d5b901f8acadd3095c73a3b919",
  "94741f5d5d52755ece4f23f044ee27d5d1ea1e2bd196b462166b16152a9d0259" >>
Invalid == <<
  "00ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
  "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
  "f3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
  "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
  "0100000000000000000000000000000000000000000000000000000000000000",
  "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
  "ed57ffd8c914fb201471d1c3d245ce3c746fcbe63a3679d51b6a516ebebe0e20",
  "c34c4e1826e5d403b78e246e88aa051c36ccf0aafebffe137d148a2bf9104562",
  "26948d35ca62e643e26a83177332e6b6afeb9d08e4268b650f1f5bbd8d81d371",
  "4eac077a713c57b4f4397629a4145982c661f48044dd3f96427d40b147d9742f",
  "de6a7b00deadc788eb6b6c8d20c0ae96c2f2019078fa604fee5b87d6e989ad7b",
  "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f" >>

ASSUME Sha512("616263") = "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"
ASSUME U16(258) = "0102" /\ Num("0102") = 258 /\ Bytes("0102") = 2 /\ Slice("00112233", 1, 2) = "1122" /\ From("00112233", 3) = "33"
ASSUME Cat(<<"00", "11">>) = "0011" /\ Contains("0011", "11") /\ ~Contains("0011", "22") /\ Base64("616263") = "YWJj" /\ HexOfText("abc") = "616263"
ASSUME SAdd(SSub(SZero, SInt(1)), SInt(1)) = SZero /\ SMul(s1, SInv(s1)) = SInt(1) /\ SMul(SAdd(s1, s2), s1) = SAdd(SMul(s1, s1), SMul(s2, s1))
ASSUME IsScalar(s1) /\ ~IsScalar("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010") /\ IsScalar("ecd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010")
ASSUME Reduce("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010") = SZero
ASSUME \A i \in 1..3 : Multiples[i] = PBase(SInt(i)) /\ PMul(SInt(i), G) = Multiples[i] /\ IsPoint(Multiples[i])
ASSUME \A i \in 1..Len(Invalid) : ~IsPoint(Invalid[i])
ASSUME PId = PBase(SZero) /\ IsPoint(PId)
ASSUME PUniform("5d1be09e3d0c82fc538112490e35701979d99e06ca3e2b5b54bffe8b4dc772c14d98b696a1bbfb5ca32c436cc61c16563790306c79eaca7705668b47dffe5bb6")
       = "3066f82a1a747d45120d1740f14358531a8f04bbffe6a819f86dfe50f44a0a46"
ASSUME PMul(s1, PMul(s2, X)) = PMul(SMul(s1, s2), X) /\ PAdd(PMul(s1, X), PMul(s2, X)) = PMul(SAdd(s1, s2), X) /\ PSub(X, X) = PId
ASSUME PMul(s1, G) = PBase(s1) /\ PEval(<<X, G, PBase(s1)>>, 300) = PAdd(X, PAdd(PMul(SInt(300), G), PMul(SInt(90000), PBase(s1))))
ASSUME EdDecode(edpk) # "" /\ EdEncode(EdDecode(edpk)) = edpk
ASSUME PBase(edS) = PAdd(EdDecode(edR), PMul(K, EdDecode(edpk)))
ASSUME PSub(PBase(edS), PMul(K, EdDecode(edpk))) # PId
ASSUME PrintT("crypto self test passed")
=============================================================================
