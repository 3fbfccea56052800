From dc4754d6ed72a1773ef4cdd7afe1c1625ef6cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 01/16] fix: make TestCurve.H the base of the precomputed H
 table

---
 zksigma.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..af3b88a 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,9 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// H must be the point the precomputed table of ScalarBaseMultH is built
+	// on: Mult uses that table for every multiplication of H.
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From 6e21c4060a89ab81d4ce2e224998b98f88ae998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 02/16] fix: ECPoint.Equal compares the Y coordinates of both
 points

---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From 25a767799ec1ed2c0a979fa3d6150b25ac120ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:15 +0000
Subject: [PATCH 03/16] fix: enforce ReadVarBytes' maximum and reject an empty
 big.Int

---
 crypto.go      | 10 +++++++++-
 wire/common.go |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..e5ca0f7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -185,12 +185,20 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 	return err
 }
 
+// maxBigIntSize is the largest encoded size, in bytes, of a big.Int that
+// ReadBigInt accepts
+const maxBigIntSize = 1024
+
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	// one sign byte followed by the magnitude
+	bBytes, err := wire.ReadVarBytes(r, maxBigIntSize, "big.Int")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, &errorProof{"ReadBigInt", "missing sign byte"}
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..6dca6d7 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,14 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max message size.  It would
+	// be possible to cause memory exhaustion and panics without a sane
+	// upper bound on this count.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("ReadVarBytes: %s is larger than the max allowed size [count %d, max %d]",
+			fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From c8dc660175299a43e932e8fcf3a6124c829999ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:36 +0000
Subject: [PATCH 04/16] fix: report truncated or malformed input when decoding
 proofs

---
 consistency.go | 26 +++++++++++++++++++++-----
 disjunctive.go | 36 +++++++++++++++++++++++++++++-------
 equivalence.go | 21 +++++++++++++++++----
 gspfs.go       | 21 +++++++++++++++++----
 rangeproof.go  | 31 +++++++++++++++++++++++++------
 5 files changed, 109 insertions(+), 26 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..b751fac 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,26 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..8cd6cc7 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -223,12 +223,34 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..a488a70 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,22 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	proof.UG, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.UH, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index a0d27a3..d558b70 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,22 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	proof.Base, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.RandCommit, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..41ec591 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -342,14 +342,33 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
+	var err error
+	proof.ProofAggregate, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.ProofE, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	// a tuple takes at least four bytes
+	if numTuples > uint64(buf.Len()/4) {
+		return nil, &errorProof{"NewRangeProofFromBytes", fmt.Sprintf("%d tuples do not fit in %d bytes", numTuples, buf.Len())}
+	}
 	proof.ProofTuples = make([]rangeProofTuple, numTuples)
 	for i := uint64(0); i < numTuples; i++ {
-		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		proof.ProofTuples[i].C, err = ReadECPoint(buf)
+		if err != nil {
+			return nil, err
+		}
+		proof.ProofTuples[i].S, err = ReadBigInt(buf)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return proof, nil
-- 
2.43.0


From 9886a0abd5689807bcd39cb4152bca867f6289a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:38 +0000
Subject: [PATCH 05/16] fix: reduce disjunctive, ABC and range responses modulo
 the group order

---
 abc.go         | 1 +
 disjunctive.go | 1 +
 rangeproof.go  | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/abc.go b/abc.go
index f39f5b5..c5fea04 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
diff --git a/disjunctive.go b/disjunctive.go
index 8cd6cc7..3a889d2 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
diff --git a/rangeproof.go b/rangeproof.go
index 41ec591..3842467 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -221,7 +221,7 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 
 		// copy data to ProofTuples
 		proof.ProofTuples[i].C = stuff.Bpoints[i]
-		proof.ProofTuples[i].S = stuff.kScalars[i]
+		proof.ProofTuples[i].S = new(big.Int).Mod(stuff.kScalars[i], zkpcp.C.Params().N)
 	}
 
 	proof.ProofE = e0
-- 
2.43.0


From e96eb7b54cc69d39e1ff9bf50cbd548192e062e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 06/16] fix: reject malformed range proofs before starting
 workers

---
 rangeproof.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 3842467..b2e3783 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -268,6 +268,23 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
+	if proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("proof has %d entries, at most %d are supported",
+			proofLength, len(zkpcp.HPoints))}
+	}
+	if proof.ProofE == nil || proof.ProofAggregate.X == nil || proof.ProofAggregate.Y == nil {
+		return false, &errorProof{"RangeProof.Verify", "proof is incomplete"}
+	}
+	// check that all entries are non-nil before starting any worker
+	for i := 0; i < proofLength; i++ {
+		if proofs[i].C.X == nil || proofs[i].C.Y == nil {
+			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil point", i)}
+		}
+		if proofs[i].S == nil {
+			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
+		}
+	}
+
 	Rpoints := make([]ECPoint, len(proofs))
 
 	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
@@ -275,15 +292,6 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
 
 	for i := 0; i < proofLength; i++ {
-		// check that proofs are non-nil
-		if proof.ProofTuples[i].C.X == nil {
-			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil point", i)}
-		}
-		if proof.ProofTuples[i].S == nil {
-			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
-
-		}
-
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
 	}
-- 
2.43.0


From 660571bccd288286deb3c7534718c036c6635c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 07/16] fix: report entropy failures in range proof workers

---
 rangeproof.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index b2e3783..ce07522 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -46,12 +46,11 @@ type proverInternalData struct {
 	vScalars []*big.Int
 }
 
-// proofGenA takes in a waitgroup, index and bit
+// proofGenA takes in an index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	idx int, bit bool, s *proverInternalData) error {
 
-	defer wg.Done()
 	var err error
 
 	//	R := s.Rpoints[idx]
@@ -101,11 +100,9 @@ func proofGenA(zkpcp ZKPCurveParams,
 	return nil
 }
 
-// proofGenB takes waitgroup, index, bit, along with the data to operate on
+// proofGenB takes index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
-
-	defer wg.Done()
+	idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -181,12 +178,20 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 
 	//	 do the loop bValue times
 	var wg sync.WaitGroup
+	errs := make([]error, proofSize)
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenA(zkpcp, i, value.Bit(i) == 1, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -206,11 +211,17 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenB(zkpcp,
-			&wg, i, value.Bit(i) == 1, e0, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenB(zkpcp, i, value.Bit(i) == 1, e0, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From 3031804d5654608877a2196a9cb4b6caa3320215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:10 +0000
Subject: [PATCH 08/16] fix: NewRangeProof rejects 2^40, which 40 bits cannot
 represent

---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index ce07522..cb3e71d 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -155,8 +155,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) >= 0 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove values below 1099511627776\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From 91b36c4e4165f6d0a3e782ce5b971b1be748391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 09/16] fix: ABC and inequality provers count values modulo the
 group order

---
 abc.go        | 10 ++++++++++
 inequality.go | 10 ++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/abc.go b/abc.go
index c5fea04..40b7306 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,12 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+	sk = new(big.Int).Mod(sk, zkpcp.C.Params().N)
+	if sk.Sign() == 0 {
+		return nil, &errorProof{"ABCProof", "secret key has no inverse"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
@@ -173,6 +179,10 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCVerify", "passed proof is nil"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
diff --git a/inequality.go b/inequality.go
index 67459fa..9c2ddc5 100644
--- a/inequality.go
+++ b/inequality.go
@@ -13,13 +13,15 @@ type InequalityProof ABCProof
 // There is no Inequality verify since this generates an ABCProof, so just use ABCVerify
 func NewInequalityProof(zkpcp ZKPCurveParams, A, B, CMTokA, CMTokB ECPoint, a, b, sk *big.Int) (*InequalityProof, error) {
 
-	if a.Cmp(b) == 0 {
-		return nil, &errorProof{"InequalityProve", "a and b should not be equal..."}
-	}
-
 	// should I check if a > b? I think that shouldn't be a problem
 	// generate a-b for ABCProof, D will be created  commitment
 	value := new(big.Int).Sub(a, b)
+	value.Mod(value, zkpcp.C.Params().N)
+
+	if value.Sign() == 0 {
+		return nil, &errorProof{"InequalityProve", "a and b should not be equal..."}
+	}
+
 	CM := zkpcp.Sub(A, B)
 
 	CMTok := zkpcp.Sub(CMTokA, CMTokB)
-- 
2.43.0


From 8dad956aec168bf7e6314fbaae6e41d9afd7157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 10/16] fix: InequalityProof.Verify rejects ABC proofs of equal
 values

---
 abc.go        | 15 +++++++++++----
 inequality.go | 11 +++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/abc.go b/abc.go
index 40b7306..f2e9668 100644
--- a/abc.go
+++ b/abc.go
@@ -60,6 +60,17 @@ type ABCProof struct {
 // Option Right is proving that A, B and C commit to v, inv(v) and 1 respectively and simulating that A and C commit to 0.
 func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, option Side) (*ABCProof, error) {
 
+	uc, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
+	if err != nil {
+		return nil, err
+	}
+
+	return newABCProof(zkpcp, CM, CMTok, value, sk, uc, option)
+}
+
+// newABCProof is NewABCProof with the blinding uc of commitment C chosen by the caller.
+func newABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk, uc *big.Int, option Side) (*ABCProof, error) {
+
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
 	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
@@ -86,10 +97,6 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	if err != nil {
 		return nil, err
 	}
-	uc, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
-	if err != nil {
-		return nil, err
-	}
 
 	B := ECPoint{}
 	C := ECPoint{}
diff --git a/inequality.go b/inequality.go
index 9c2ddc5..311e8eb 100644
--- a/inequality.go
+++ b/inequality.go
@@ -10,7 +10,8 @@ type InequalityProof ABCProof
 // InequalityProve generates a proof to show that two commitments, A and B, are not equal
 // Given two commitments A and B that we know the values for - a and b respectively - we
 // can prove that a != b without needed any new commitments, just generate a proof
-// There is no Inequality verify since this generates an ABCProof, so just use ABCVerify
+// This generates an ABCProof with C = G. Use InequalityProof.Verify to check it, ABCProof.Verify
+// does not tell whether the values differ.
 func NewInequalityProof(zkpcp ZKPCurveParams, A, B, CMTokA, CMTokB ECPoint, a, b, sk *big.Int) (*InequalityProof, error) {
 
 	// should I check if a > b? I think that shouldn't be a problem
@@ -26,7 +27,8 @@ func NewInequalityProof(zkpcp ZKPCurveParams, A, B, CMTokA, CMTokB ECPoint, a, b
 
 	CMTok := zkpcp.Sub(CMTokA, CMTokB)
 
-	proof, proofStatus := NewABCProof(zkpcp, CM, CMTok, value, sk, Right)
+	// C is not blinded, C = G, so that the verifier can tell that c = 1 and not 0
+	proof, proofStatus := newABCProof(zkpcp, CM, CMTok, value, sk, BigZero, Right)
 
 	if proofStatus != nil {
 		return nil, proofStatus
@@ -41,5 +43,10 @@ func (ieProof *InequalityProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint)
 		return false, &errorProof{"InequalityProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	// An ABCProof also holds for a = b, with c = 0. Only c = 1 shows that a - b has an inverse.
+	if !ieProof.C.Equal(zkpcp.G) {
+		return false, &errorProof{"InequalityProof.Verify", "proof does not show that the values differ"}
+	}
+
 	return ((*ABCProof)(ieProof)).Verify(zkpcp, CM, CMTok)
 }
-- 
2.43.0


From eb6e0f723e6a8a2becef39d95ec04f2edff96b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 11/16] fix: bind the base point in the GSPFS challenge

---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index d558b70..dd7cf94 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From b088f5843e6dd46c8196d1854c6dd04b2206a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:18 +0000
Subject: [PATCH 12/16] fix: parseSig rejects signature lengths that overflow
 or are too short

---
 btcec/signature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..0c745a3 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -112,11 +112,11 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	// length of remaining message
 	siglen := sigStr[index]
 	index++
-	if int(siglen+2) > len(sigStr) {
+	if int(siglen)+2 > len(sigStr) || int(siglen)+2 < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-	sigStr = sigStr[:siglen+2]
+	sigStr = sigStr[:int(siglen)+2]
 
 	// 0x02
 	if sigStr[index] != 0x02 {
-- 
2.43.0


From deefeaf55e6538cd1ce05a780c01448eb78117ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 13/16] fix: RecoverCompact rejects R and S that no signature
 has

---
 btcec/signature.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/btcec/signature.go b/btcec/signature.go
index 0c745a3..d05b8ef 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -293,6 +293,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	if err != nil {
 		return nil, err
 	}
+	if !curve.IsOnCurve(Rx, Ry) {
+		return nil, errors.New("calculated Rx is not on the curve")
+	}
 
 	// 1.4 Check n*R is point at infinity
 	if doChecks {
@@ -403,6 +406,11 @@ func RecoverCompact(curve *KoblitzCurve, signature,
 		R: new(big.Int).SetBytes(signature[1 : bitlen+1]),
 		S: new(big.Int).SetBytes(signature[bitlen+1:]),
 	}
+	// R has to be invertible, and R and S are in [1, N-1] in any signature
+	if sig.R.Sign() == 0 || sig.R.Cmp(curve.Params().N) >= 0 ||
+		sig.S.Sign() == 0 || sig.S.Cmp(curve.Params().N) >= 0 {
+		return nil, false, errors.New("signature R or S is out of range")
+	}
 	// The iteration used here was encoded
 	key, err := recoverKeyFromSignature(curve, sig, hash, iteration, false)
 	if err != nil {
-- 
2.43.0


From 7cb5f3edc754bd8e6c053c604540f7a0334c37ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 14/16] fix: Encrypt does not write past the end of its input
 slice

---
 btcec/ciphering.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..5ee5025 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,8 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	// the spare capacity of src belongs to the caller
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From b14428aa835f8e9ad8aaccd58f26d593d6535735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 15/16] fix: never recover the point at infinity as a public
 key

---
 btcec/signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcec/signature.go b/btcec/signature.go
index d05b8ef..2a3cc86 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -330,6 +330,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
-- 
2.43.0


From 2050879a4c3626892a0ae809096ff5476d93f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 16/16] fix: verifiers accepted forged proofs with points that
 are not on the curve

---
 abc.go         |  4 ++++
 consistency.go |  4 ++++
 crypto.go      | 22 ++++++++++++++++++++++
 disjunctive.go |  4 ++++
 equivalence.go |  4 ++++
 gspfs.go       |  4 ++++
 rangeproof.go  |  8 +++++++-
 7 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/abc.go b/abc.go
index f2e9668..e1e61b2 100644
--- a/abc.go
+++ b/abc.go
@@ -190,6 +190,10 @@ func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, e
 		return false, &errorProof{"ABCVerify", "passed proof is nil"}
 	}
 
+	if !zkpcp.valid(CM, CMTok, aProof.B, aProof.C, aProof.T1, aProof.T2, aProof.CToken) {
+		return false, &errorProof{"ABCVerify", "point is not on the curve"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
diff --git a/consistency.go b/consistency.go
index b751fac..e6316fc 100644
--- a/consistency.go
+++ b/consistency.go
@@ -95,6 +95,10 @@ func (conProof *ConsistencyProof) Verify(
 		return false, &errorProof{"ConsistencyProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.valid(CM, CMTok, PubKey, conProof.T1, conProof.T2) {
+		return false, &errorProof{"ConsistencyProof.Verify", "point is not on the curve"}
+	}
+
 	// Regenerate challenge string
 	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
 		CM.Bytes(), CMTok.Bytes(),
diff --git a/crypto.go b/crypto.go
index e5ca0f7..3400680 100644
--- a/crypto.go
+++ b/crypto.go
@@ -221,6 +221,28 @@ func VerifyR(zkpcp ZKPCurveParams, rt ECPoint, pk ECPoint, r *big.Int) bool {
 	return p.Equal(rt)
 }
 
+// valid returns whether every one of the points is on the curve or Zero.
+// Verifiers have to reject all others: point arithmetic does not look at the
+// curve's constant, so it would go on in some other group, where points of
+// very small order exist that make the verification equations hold.
+func (zkpcp ZKPCurveParams) valid(points ...ECPoint) bool {
+	fieldP := zkpcp.C.Params().P
+	for _, p := range points {
+		if p.X == nil || p.Y == nil {
+			return false
+		}
+		if p.Equal(Zero) {
+			continue
+		}
+		if p.X.Sign() < 0 || p.X.Cmp(fieldP) >= 0 ||
+			p.Y.Sign() < 0 || p.Y.Cmp(fieldP) >= 0 ||
+			!zkpcp.C.IsOnCurve(p.X, p.Y) {
+			return false
+		}
+	}
+	return true
+}
+
 // =============== PEDERSEN COMMITMENTS ================
 // PedCommit generates a pedersen commitment of value using the
 // generators of zkpcp.  It returns the randomness generated for the
diff --git a/disjunctive.go b/disjunctive.go
index 3a889d2..a899245 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -160,6 +160,10 @@ func (djProof *DisjunctiveProof) Verify(
 		return false, &errorProof{"DisjunctiveProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.valid(Base1, Result1, Base2, Result2, djProof.T1, djProof.T2) {
+		return false, &errorProof{"DisjunctiveProof.Verify", "point is not on the curve"}
+	}
+
 	T1 := djProof.T1
 	T2 := djProof.T2
 	C := djProof.C
diff --git a/equivalence.go b/equivalence.go
index a488a70..20a5713 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -88,6 +88,10 @@ func (eqProof *EquivalenceProof) Verify(
 		return false, &errorProof{"EquivalenceVerify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.valid(Base1, Result1, Base2, Result2, eqProof.UG, eqProof.UH) {
+		return false, &errorProof{"EquivalenceVerify", "point is not on the curve"}
+	}
+
 	// Regenerate challenge string
 	c := GenerateChallenge(zkpcp, Base1.Bytes(), Result1.Bytes(),
 		Base2.Bytes(), Result2.Bytes(),
diff --git a/gspfs.go b/gspfs.go
index dd7cf94..a22aaee 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -75,6 +75,10 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 		return false, &errorProof{"GSPFSProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.valid(A, proof.Base, proof.RandCommit) {
+		return false, &errorProof{"GSPFSProof.Verify", "point is not on the curve"}
+	}
+
 	// A = xG and RandCommit = uG
 	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
diff --git a/rangeproof.go b/rangeproof.go
index cb3e71d..7dd48e1 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -286,11 +286,17 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	if proof.ProofE == nil || proof.ProofAggregate.X == nil || proof.ProofAggregate.Y == nil {
 		return false, &errorProof{"RangeProof.Verify", "proof is incomplete"}
 	}
-	// check that all entries are non-nil before starting any worker
+	if !zkpcp.valid(comm) {
+		return false, &errorProof{"RangeProof.Verify", "commitment is not on the curve"}
+	}
+	// check all entries before starting any worker
 	for i := 0; i < proofLength; i++ {
 		if proofs[i].C.X == nil || proofs[i].C.Y == nil {
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil point", i)}
 		}
+		if !zkpcp.valid(proofs[i].C) {
+			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has a point that is not on the curve", i)}
+		}
 		if proofs[i].S == nil {
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 		}
-- 
2.43.0

