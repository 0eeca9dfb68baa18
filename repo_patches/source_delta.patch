From 000e32b4b7fca7c7054b88ca93a86d53f06aeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 01/20] fix: Schnorr challenge was always zero, so proofs could
 be forged

h.Sum(buffer) appends the digest to the 64 byte buffer; SetUniformBytes then
rejects the 128 byte input and leaves the challenge at zero.
---
 pkg/internal/zk/schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..416bdd1 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,9 +83,8 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
-	_, _ = S.SetUniformBytes(h.Sum(buffer))
+	_, _ = S.SetUniformBytes(h.Sum(nil))
 	return &S
 }
 
-- 
2.43.0


From 60140b9e1c7ab81d955202be48474d5fd1543be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 02/20] fix: return the error of a message body that does not
 decode

The error was dropped, and the message accepted without its content, which
later led to a nil dereference in the protocol rounds.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From ab2bd21b5503ab6b7ff6291c4385325e239d2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 03/20] fix: degree 65535 overflowed the coefficient count when
 decoding a polynomial

The count wrapped to 0, so a two byte polynomial without any coefficient was
accepted, and Constant() panicked on it.
---
 pkg/internal/polynomial/exponent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..3948640 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,14 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From 617c50adc4b749a372c3bed1a4c362044f9e8ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 04/20] fix: reject key generation commitments whose degree is
 not the threshold

The error of Add was ignored, so such a contribution was left out of the group
key and public shares while its share was still added to the secret.
---
 pkg/frost/keygen/round1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..a243eb8 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -12,6 +12,10 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	ctx := make([]byte, 32)
 	from := msg.From
 
+	if msg.KeyGen1.Commitments.Degree() != round.Threshold {
+		return state.NewError(from, errors.New("commitment polynomial has the wrong degree"))
+	}
+
 	public := msg.KeyGen1.Commitments.Constant()
 	if !msg.KeyGen1.Proof.Verify(from, public, ctx) {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
-- 
2.43.0


From 4a47eb2d602d8d743e6d873a9c43e054e3eeb620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 05/20] fix: key generation timeout before the first round
 crashed the process

Reset dereferenced the polynomials, which do not exist before round 0.
---
 pkg/frost/keygen/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..5361150 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,13 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	// both are nil until round 0 has been processed
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 6040c3ff24c59e380175d3196c5453a57b0bb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 06/20] fix: accept messages that arrive before a party starts
 or ahead of its round

Only one message per sender was held at a time, whatever its round: messages
were refused before the first ProcessAll, and a sender's next message was
refused while its current one was waiting, so they were lost.
---
 pkg/state/state.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..9c25b06 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,16 +105,15 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
-		return s.wrapError(errors.New("message from this party was already received"), senderID)
-	}
-
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// Check if we have already received a message of this type from this party.
+	if s.isDuplicate(msg) {
+		return s.wrapError(errors.New("message from this party was already received"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
@@ -199,6 +198,21 @@ func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	return false
 }
 
+// isDuplicate returns true if a message of the same type was already received from the same party,
+// either for the current round or for a later one.
+func (s *State) isDuplicate(msg *messages.Message) bool {
+	if msg.Type == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[msg.From]
+		return exists
+	}
+	for _, queued := range s.queue {
+		if queued.From == msg.From && queued.Type == msg.Type {
+			return true
+		}
+	}
+	return false
+}
+
 //
 // Output
 //
-- 
2.43.0


From 5119299b164dcb5e2d13e97de1e2c8401b56e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 07/20] fix: data race when waiting for or querying a session

done and err were read without the mutex that guards them.
---
 pkg/state/state.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 9c25b06..2f1a11d 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -251,6 +251,9 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	if s.err != nil {
 		return s.err
 	}
@@ -261,14 +264,15 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.done
 }
 
-- 
2.43.0


From 381d39fb185bb1c3aa97e1042b7a48adbd4c6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 08/20] fix: key generation broadcasts changed after they were
 returned or delivered

The first message aliased the sum of commitments, which the next round updates
and Reset clears, so encoding it later gave other commitments. Reset also
cleared the commitments of received messages.
---
 pkg/frost/keygen/round0.go | 3 ++-
 pkg/frost/keygen/round1.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..ce3f81c 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,8 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	// CommitmentsSum changes in the next round, so the message gets its own copy
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index a243eb8..787481b 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -21,7 +21,8 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	// Reset clears our commitments, the message may still be in use elsewhere
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
-- 
2.43.0


From 31fb8a84152c185169d145bc2df9a18966365adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 09/20] fix: refuse party lists that are unsorted, repeat an ID
 or contain 0

Lookups need a sorted list, a repeated ID made the session wait forever for a
message that cannot come, and ID 0 made key generation panic.
---
 pkg/state/base_round.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..9c572f8 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -13,6 +13,13 @@ type BaseRound struct {
 }
 
 func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
+	previous := party.ID(0)
+	for _, id := range partyIDs {
+		if id <= previous {
+			return nil, errors.New("PartyIDs should be sorted, without duplicates and without 0")
+		}
+		previous = id
+	}
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
-- 
2.43.0


From 88e96ebfdd8df0e8c077141dd50b48b81d30173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:22 +0000
Subject: [PATCH 10/20] fix: a short read of the entropy source weakened secret
 scalars

Read may return fewer bytes than asked for without an error; the rest of the
seed then stayed zero.
---
 pkg/internal/scalar/scalar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..8d6e07e 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -3,6 +3,7 @@ package scalar
 import (
 	"crypto/rand"
 	"fmt"
+	"io"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
 )
@@ -11,7 +12,7 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	_, err := io.ReadFull(rand.Reader, bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From 5daf1dc204046a0b03d227a0fbd8290f5c72cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 11/20] fix: NewPartySlice never returned for the largest
 number of parties

---
 pkg/helpers/parties.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..af9f595 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,9 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	// i is not a party.ID, since that would overflow when n is the largest ID
+	for i := 1; i <= int(n); i++ {
+		partyIDs = append(partyIDs, party.ID(i))
 	}
 	return partyIDs
 }
-- 
2.43.0


From 655ab4e28a26ebaf83a4f9ec795512a64289e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 12/20] fix: malformed public key data crashed or was accepted
 with another threshold

ID 0, a missing share and a missing group key panicked; the threshold was
truncated to 16 bits, and 65535 passed the range check by overflowing.
---
 pkg/eddsa/public.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..02895ed 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"fmt"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -28,8 +29,18 @@ type Public struct {
 // NewPublic creates a Public structure given a map of public key shares as ristretto.Element, the threshold used.
 func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*Public, error) {
 	n := len(shares)
+	if int(threshold) >= n {
+		return nil, errors.New("PublicShares: Threshold should be at most N - 1")
+	}
+
 	IDs := make([]party.ID, 0, n)
-	for id := range shares {
+	for id, share := range shares {
+		if id == 0 {
+			return nil, errors.New("PublicShares: party ID 0 is not valid")
+		}
+		if share == nil {
+			return nil, fmt.Errorf("PublicShares: share of party %d is missing", id)
+		}
 		IDs = append(IDs, id)
 	}
 
@@ -42,10 +53,6 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 		GroupKey:  computeGroupKey(set, shares),
 	}
 
-	if s.Threshold+1 > s.PartyIDs.N() {
-		return nil, errors.New("PublicShares: Threshold should be < N - 1")
-	}
-
 	return s, nil
 }
 
@@ -85,6 +92,13 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if out.Threshold < 0 || out.Threshold >= len(out.Shares) {
+		return errors.New("PublicShares: threshold is out of range")
+	}
+	if out.GroupKey == nil {
+		return errors.New("PublicShares: group key is missing")
+	}
+
 	newS, err := NewPublic(out.Shares, party.Size(out.Threshold))
 	if err != nil {
 		return err
-- 
2.43.0


From 608df4238b7f2cabc6342cb7dfc4bdbe9f135eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 13/20] fix: the ID of a secret share was truncated when
 decoding JSON

---
 pkg/eddsa/secret_share.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..73fa54a 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -3,6 +3,7 @@ package eddsa
 import (
 	"encoding/json"
 	"errors"
+	"math"
 
 	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
 	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
@@ -75,6 +76,9 @@ func (sk *SecretShare) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &out); err != nil {
 		return err
 	}
+	if out.ID < 0 || out.ID > math.MaxUint16 {
+		return errors.New("SecretShare: ID is out of range")
+	}
 	sk.ID = party.ID(out.ID)
 	if _, err := sk.Secret.SetCanonicalBytes(out.SecretShare); err != nil {
 		return err
-- 
2.43.0


From a36db19ba20919b79bea777412d0f5835d4c0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 14/20] fix: keygen command accepted negative arguments

They wrapped around to a key generation with up to 65535 parties.
---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..10f95c0 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (t < 1) || (n > maxN) || (t >= n) {
 		usage()
 		return
 	}
-- 
2.43.0


From 883c3842538202bab691e1439cc1bfc1a393aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 15/20] fix: keygen command reported success when it could not
 write its output

---
 cmd/keygen/keygen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 10f95c0..d881a86 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,10 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	if err = ioutil.WriteFile(filename, jsonData, 0644); err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From 304a5e3ee2cb78da5f3cfb81d6e19467d3d89f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 16/20] fix: do not let an early timeout race with the creation
 of the state

With a very short timeout the timer's callback could run, and finish the
state, before NewBaseState had stored the timer: a data race on the timer,
which the callback reads in order to stop it.
---
 pkg/state/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 2f1a11d..cfdb84d 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,10 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// The timeout may fire before we are done here
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
-- 
2.43.0


From ef758eccee5542b0539f139853970c12fd4ddb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 17/20] fix: MultiScalarMult must not depend on the receiver's
 value

The edwards25519 release in use accumulates into the receiver of
MultiScalarMult without initialising it, so the result was only correct for
a receiver that held the identity, and meaningless for a new Element.
---
 pkg/ristretto/ristretto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ristretto/ristretto.go b/pkg/ristretto/ristretto.go
index b4c0aee..59fac44 100644
--- a/pkg/ristretto/ristretto.go
+++ b/pkg/ristretto/ristretto.go
@@ -373,7 +373,9 @@ func (e *Element) MultiScalarMult(s []*Scalar, p []*Element) *Element {
 	for i := range s {
 		points[i] = &p[i].r
 	}
-	e.r.MultiScalarMult(s, points)
+	// edwards25519's MultiScalarMult adds to its receiver, which therefore has to be the identity
+	r := edwards25519.NewIdentityPoint()
+	e.r.Set(r.MultiScalarMult(s, points))
 	return e
 }
 
-- 
2.43.0


From 14b74ac23cdf234b5e9bc06967b961fba52c7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 18/20] fix: signer command crashed on incomplete key files

---
 cmd/signer/signer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..f844074 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -53,6 +53,11 @@ func main() {
 		return
 	}
 
+	if kgOutput.Shares == nil {
+		fmt.Printf("%v contains no public key data\n", filename)
+		return
+	}
+
 	// get n and t from the keygen output
 	var n party.Size
 	var t party.Size
@@ -74,9 +79,14 @@ func main() {
 	msgsOut2 := make([][]byte, 0, n)
 
 	for _, id := range partyIDs {
+		if secretShares[id] == nil {
+			fmt.Printf("%v contains no secret share of party %v\n", filename, id)
+			return
+		}
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			return
 		}
 	}
 
-- 
2.43.0


From 8456c3a7b975b26c81e1d6d813f50d7582734197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 19/20] fix: name the round and the culprit in their places
 when a message is refused

---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index cfdb84d..fbe7cec 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -65,7 +65,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From cc24306bbf058c13b6db34ec79e3e0d9c369417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:28 +0000
Subject: [PATCH 20/20] fix: a message accepted while the timer fires keeps the
 session alive

---
 pkg/state/state.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index fbe7cec..e8ee068 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -48,8 +48,12 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
-		s.reportError(NewError(0, errors.New("message timeout")))
-		s.mtx.Unlock()
+		defer s.mtx.Unlock()
+
+		// A message may have been accepted while we waited for the lock
+		if s.timer.expired() {
+			s.reportError(NewError(0, errors.New("message timeout")))
+		}
 	})
 
 	for _, id := range round.PartyIDs() {
@@ -287,6 +291,9 @@ func (s *State) IsFinished() bool {
 type timer struct {
 	t *time.Timer
 	d time.Duration
+
+	// deadline is the time before which t has no effect, set whenever t is restarted
+	deadline time.Time
 }
 
 func newTimer(d time.Duration, f func()) timer {
@@ -303,10 +310,15 @@ func newTimer(d time.Duration, f func()) timer {
 func (t *timer) ackMessage() {
 	if t.t != nil {
 		t.t.Stop()
+		t.deadline = time.Now().Add(t.d)
 		t.t.Reset(t.d)
 	}
 }
 
+func (t *timer) expired() bool {
+	return !time.Now().Before(t.deadline)
+}
+
 func (t *timer) stopTimer() {
 	if t.t != nil {
 		t.t.Stop()
-- 
2.43.0

