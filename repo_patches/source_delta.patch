From 4d175f0aa7f1620365266dcc541ffd6a46d000fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 01/22] fix: compute the Schnorr challenge from the 64 byte
 digest

h.Sum(buffer) appends to a 64 byte buffer, so SetUniformBytes was given 128
bytes, failed, and the challenge was always 0: any (0, R) proof verified.
---
 pkg/internal/zk/schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..416bdd1 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,9 +83,8 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
-	_, _ = S.SetUniformBytes(h.Sum(buffer))
+	_, _ = S.SetUniformBytes(h.Sum(nil))
 	return &S
 }
 
-- 
2.43.0


From 99bf8d5790c2d988ca38b225d57cd00cdb923342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:35 +0000
Subject: [PATCH 02/22] fix: return the payload error from
 Message.UnmarshalBinary

A malformed payload was reported as success with a nil payload, which the
rounds later dereference.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From 75cea22f8e10293cefd5d4b229a1eca22086da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 03/22] fix: do not overflow the coefficient count of a decoded
 polynomial

Degree 65535 wrapped to 0 coefficients, so a 2 byte encoding decoded to an
empty polynomial whose Constant() panics.
---
 pkg/internal/polynomial/exponent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..3948640 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,14 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From 09a20470ab49a4f7bdab48fac61195cc65321c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 04/22] fix: abort keygen when a commitment polynomial has the
 wrong degree

The error of CommitmentsSum.Add was dropped, so the sender's contribution was
missing from the public key while its share was added to the secret.
---
 pkg/frost/keygen/round1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..a243eb8 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -12,6 +12,10 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	ctx := make([]byte, 32)
 	from := msg.From
 
+	if msg.KeyGen1.Commitments.Degree() != round.Threshold {
+		return state.NewError(from, errors.New("commitment polynomial has the wrong degree"))
+	}
+
 	public := msg.KeyGen1.Commitments.Constant()
 	if !msg.KeyGen1.Proof.Verify(from, public, ctx) {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
-- 
2.43.0


From a1d9a37b0a03e5da63886b115b0f40f6ed14b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 05/22] fix: do not panic when keygen aborts before its first
 round

A timeout before the first ProcessAll called Reset on nil polynomials from the
timer goroutine, which crashed the process.
---
 pkg/frost/keygen/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..47ac054 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,13 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	// both are nil if we abort before the first round was processed
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 0a8b5ffbf6bef1108fc25e7cf201fc328ec6d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 06/22] fix: queue early next-round messages instead of
 rejecting them as duplicates

---
 pkg/state/state.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..15a39fa 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,16 +105,15 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
-		return s.wrapError(errors.New("message from this party was already received"), senderID)
-	}
-
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// Check if we have already received a message of this type from this party.
+	if s.alreadyReceived(msg) {
+		return s.wrapError(errors.New("message from this party was already received"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
@@ -190,6 +189,20 @@ func (s *State) ProcessAll() []*messages.Message {
 	return newMessages
 }
 
+// alreadyReceived reports whether a message from the same party was already stored for the round msg belongs to.
+func (s *State) alreadyReceived(msg *messages.Message) bool {
+	if msg.Type == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[msg.From]
+		return exists
+	}
+	for _, queued := range s.queue {
+		if queued.From == msg.From && queued.Type == msg.Type {
+			return true
+		}
+	}
+	return false
+}
+
 func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	for _, otherType := range s.acceptedTypes {
 		if otherType == msgType {
-- 
2.43.0


From c3c9976f68a060ecd4ed295ba8c83ac0f87e8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 07/22] fix: return an error for malformed public key shares
 instead of panicking

---
 pkg/eddsa/public.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..ad33e05 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -28,8 +28,18 @@ type Public struct {
 // NewPublic creates a Public structure given a map of public key shares as ristretto.Element, the threshold used.
 func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*Public, error) {
 	n := len(shares)
+	if int(threshold)+1 > n {
+		return nil, errors.New("PublicShares: Threshold should be < N - 1")
+	}
+
 	IDs := make([]party.ID, 0, n)
-	for id := range shares {
+	for id, share := range shares {
+		if id == 0 {
+			return nil, errors.New("PublicShares: id 0 is not valid")
+		}
+		if share == nil {
+			return nil, errors.New("PublicShares: missing share")
+		}
 		IDs = append(IDs, id)
 	}
 
@@ -42,10 +52,6 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 		GroupKey:  computeGroupKey(set, shares),
 	}
 
-	if s.Threshold+1 > s.PartyIDs.N() {
-		return nil, errors.New("PublicShares: Threshold should be < N - 1")
-	}
-
 	return s, nil
 }
 
@@ -85,6 +91,13 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: missing group key")
+	}
+	if out.Threshold < 0 || out.Threshold >= len(out.Shares) {
+		return errors.New("PublicShares: invalid threshold")
+	}
+
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
-- 
2.43.0


From af60e753128ccf5ba29058ae6f27f98bc17a4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 08/22] fix: reject out of range ids in a JSON secret share

---
 pkg/eddsa/secret_share.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..3977e63 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -75,6 +76,9 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
+	if out.ID < 0 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: id is out of range")
+	}
 	sk.ID = party.ID(out.ID)
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
-- 
2.43.0


From 2b541b7eace7425e2e7f91c971dcd52aa495188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 09/22] fix: reject party lists with id 0, duplicates or wrong
 order

---
 pkg/state/base_round.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..d84f59c 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -13,6 +13,14 @@ type BaseRound struct {
 }
 
 func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
+	for i, id := range partyIDs {
+		if id == 0 {
+			return nil, errors.New("PartyIDs should not contain the invalid ID 0")
+		}
+		if i > 0 && partyIDs[i-1] >= id {
+			return nil, errors.New("PartyIDs should be sorted and contain no duplicates")
+		}
+	}
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
-- 
2.43.0


From 3b41f973694c6f190cb9966cdb9869932884fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 10/22] fix: do not alias the caller's party list in a round

---
 pkg/state/base_round.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index d84f59c..ace860e 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -26,7 +26,7 @@ func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
 	}
 	return &BaseRound{
 		selfID:   selfID,
-		partyIDs: partyIDs,
+		partyIDs: partyIDs.Copy(),
 	}, nil
 }
 
-- 
2.43.0


From 3ea979f9c6ed84fc734d74e2135d4088caee7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 11/22] fix: reject signing with fewer than threshold+1 parties

---
 pkg/frost/sign/base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 97f6e52..9267743 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -51,6 +51,10 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 		return nil, nil, errors.New("base.NewRound: not all parties of partyIDs are contained in shares")
 	}
 
+	if int(shares.Threshold) >= len(partyIDs) {
+		return nil, nil, errors.New("base.NewRound: at least threshold + 1 parties are required to sign")
+	}
+
 	baseRound, err := state.NewBaseRound(secret.ID, partyIDs)
 	if err != nil {
 		return nil, nil, fmt.Errorf("base.NewRound: %w", err)
-- 
2.43.0


From 61f99d7eaf16f29775e32fe19156d34d45f5dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 12/22] fix: do not share keygen commitments between messages
 and round state

---
 pkg/frost/keygen/round0.go | 2 +-
 pkg/frost/keygen/round1.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..f96aac7 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,7 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index a243eb8..ec151d6 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -21,7 +21,7 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
-- 
2.43.0


From c674588ce789fedcaa35cc0e44e50c3e61daa4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 13/22] fix: copy the message to be signed

---
 pkg/frost/sign/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 9267743..a979436 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -62,7 +62,7 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 
 	round := &round0{
 		BaseRound: baseRound,
-		Message:   message,
+		Message:   append([]byte{}, message...),
 		Parties:   make(map[party.ID]*signer, partyIDs.N()),
 		GroupKey:  *shares.GroupKey,
 		Output:    &Output{},
-- 
2.43.0


From 039a49699299c61f0929a09b62c1673dd43419ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 14/22] fix: synchronize access to the result of a State

---
 pkg/state/state.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 15a39fa..caa5288 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,9 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// the timer may fire before we are done here
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
@@ -250,6 +253,9 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	if s.err != nil {
 		return s.err
 	}
@@ -260,14 +266,15 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.done
 }
 
-- 
2.43.0


From 4a1d0f887a2f404da042017f663fbe215364b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 15/22] fix: swapped culprit and round number in message errors

---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index caa5288..b9e725b 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -64,7 +64,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From 02346b01685c468d6cdfa42a3de8b4a9f776d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 16/22] fix: keygen CLI accepted thresholds below 1

---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..1361817 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (n > maxN) || (t < 1) || (t >= n) {
 		usage()
 		return
 	}
-- 
2.43.0


From 8bd6052a8c7334d8f5227644b29c7dd79af2faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 17/22] fix: NewPartySlice never returned for n = 65535

---
 pkg/helpers/parties.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..c9e9e09 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,8 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	for i := 1; i <= int(n); i++ {
+		partyIDs = append(partyIDs, party.ID(i))
 	}
 	return partyIDs
 }
-- 
2.43.0


From 798a84801c6b1708b43aec67dc3a86b95cec296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 18/22] fix: print an error in the signer CLI for incomplete
 key files instead of crashing

---
 cmd/signer/signer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..0aba902 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -53,6 +53,11 @@ func main() {
 		return
 	}
 
+	if kgOutput.Shares == nil {
+		fmt.Println("the public shares are missing")
+		return
+	}
+
 	// get n and t from the keygen output
 	var n party.Size
 	var t party.Size
@@ -74,9 +79,14 @@ func main() {
 	msgsOut2 := make([][]byte, 0, n)
 
 	for _, id := range partyIDs {
+		if secretShares[id] == nil {
+			fmt.Printf("the secret share of party %d is missing\n", id)
+			return
+		}
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			return
 		}
 	}
 
-- 
2.43.0


From 6c9c5e0be729b1e90fd0fd4530a0476f47505c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 19/22] fix: do not claim success in the keygen CLI when the
 file cannot be written

---
 cmd/keygen/keygen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 1361817..5dca432 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,10 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From e46ea5cadd735a33ca41620862d801375d8445a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 20/22] fix: MultiScalarMult added its result to the receiver's
 old value

---
 pkg/ristretto/ristretto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/ristretto/ristretto.go b/pkg/ristretto/ristretto.go
index b4c0aee..1aa9d5d 100644
--- a/pkg/ristretto/ristretto.go
+++ b/pkg/ristretto/ristretto.go
@@ -373,7 +373,8 @@ func (e *Element) MultiScalarMult(s []*Scalar, p []*Element) *Element {
 	for i := range s {
 		points[i] = &p[i].r
 	}
-	e.r.MultiScalarMult(s, points)
+	// edwards25519 adds the products to the receiver, so it must be the identity
+	e.r.Set(edwards25519.NewIdentityPoint().MultiScalarMult(s, points))
 	return e
 }
 
-- 
2.43.0


From dbe19aa00273d5263f6736226f9580309b90e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 21/22] fix: read all 64 random bytes of a scalar

---
 pkg/internal/scalar/scalar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..8d6e07e 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -3,6 +3,7 @@ package scalar
 import (
 	"crypto/rand"
 	"fmt"
+	"io"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -11,7 +12,7 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	_, err := io.ReadFull(rand.Reader, bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From 3e232e6ada5bfa26b98bb51cd28cbb62927d8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 22/22] fix: ignore an expired timeout once a message has been
 accepted

A timer that fired while another call held the session aborted it even
if that call, or one waiting before it, had accepted a message.
---
 pkg/state/state.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index b9e725b..eccdf48 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -47,8 +47,12 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 	defer s.mtx.Unlock()
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
+		defer s.mtx.Unlock()
+		// a message may have been accepted while we were waiting for the lock
+		if !s.timer.expired() {
+			return
+		}
 		s.reportError(NewError(0, errors.New("message timeout")))
-		s.mtx.Unlock()
 	})
 
 	for _, id := range round.PartyIDs() {
@@ -285,26 +289,38 @@ func (s *State) IsFinished() bool {
 type timer struct {
 	t *time.Timer
 	d time.Duration
+
+	// deadline is the earliest time at which t may expire
+	deadline time.Time
 }
 
 func newTimer(d time.Duration, f func()) timer {
 	var t *time.Timer
+	deadline := time.Now().Add(d)
 	if d > 0 {
 		t = time.AfterFunc(d, f)
 	}
 	return timer{
-		t: t,
-		d: d,
+		t:        t,
+		d:        d,
+		deadline: deadline,
 	}
 }
 
 func (t *timer) ackMessage() {
 	if t.t != nil {
 		t.t.Stop()
+		t.deadline = time.Now().Add(t.d)
 		t.t.Reset(t.d)
 	}
 }
 
+// expired reports whether the deadline has passed. It is false in a call of the timer's function
+// that was already under way when the timer was restarted.
+func (t *timer) expired() bool {
+	return !time.Now().Before(t.deadline)
+}
+
 func (t *timer) stopTimer() {
 	if t.t != nil {
 		t.t.Stop()
-- 
2.43.0

