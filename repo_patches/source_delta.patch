From 9864ee5361aa4d4b2d1d30a652158cbcf47efcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 1/6] fix: BatchXNOR used the XOR offset

BatchXNOR prepared a - 2b - 1/4, which bootstraps to a XOR b, while the
single-gate XNOR uses a - 2b + 1/4. Use the same offset in both.
---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From c2d52e0179344c7a89ea3f83e62bbd74300cb147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 2/6] fix: BatchBlindRotate returned buffers of pooled
 evaluators

Each result aliased the TRLWE buffers of an evaluator that had already been
returned to the sync.Pool, so a later blind rotation of the same batch could
overwrite it. Copy the result before the evaluator is put back.
---
 trgsw/trgsw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..1ca2cff 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -243,7 +243,13 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// BlindRotate returns a view of polyEval's buffers: copy it out before
+			// the evaluator goes back to the pool and another goroutine reuses it.
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 		}(i, src)
 	}
 
-- 
2.43.0


From 81361d4b51754e3f507709f481a3a17b4d34b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 3/6] fix: batch blind rotation could use an evaluator of
 another degree

evaluatorPool keeps evaluators across changes of params.CurrentSecurityLevel,
and handed out ones whose buffers and twiddle factors were sized for the
previous polynomial degree.
---
 trgsw/trgsw.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 1ca2cff..73b7dfc 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -230,6 +230,16 @@ var evaluatorPool = sync.Pool{
 	},
 }
 
+// getEvaluator takes an evaluator for the current polynomial degree from the pool.
+// The pool may still hold evaluators created under another security level.
+func getEvaluator() *poly.Evaluator {
+	n := params.GetTRGSWLv1().N
+	if polyEval := evaluatorPool.Get().(*poly.Evaluator); polyEval.Degree() == n {
+		return polyEval
+	}
+	return poly.NewEvaluator(n)
+}
+
 // BatchBlindRotate performs multiple blind rotations in parallel (zero-allocation)
 func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1, bootstrappingKey []*TRGSWLv1FFT, decompositionOffset params.Torus) []*trlwe.TRLWELv1 {
 	results := make([]*trlwe.TRLWELv1, len(srcs))
@@ -240,7 +250,7 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 		go func(idx int, s *tlwe.TLWELv0) {
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
-			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			polyEval := getEvaluator()
 			defer evaluatorPool.Put(polyEval)
 
 			// BlindRotate returns a view of polyEval's buffers: copy it out before
-- 
2.43.0


From 49175fe326c1ca54d19b19541904058432c2f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 4/6] fix: gates used an evaluator sized for the initial
 security level

The global evaluator was built once in init() for the default level, so after
setting params.CurrentSecurityLevel (as the README documents) the gates
panicked with an index out of range. Rebuild it when the level has changed.
---
 gates/gates.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..1482873 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -18,13 +18,26 @@ type Ciphertext = tlwe.TLWELv0
 // Global evaluator for single-threaded operations (zero-allocation)
 var globalEval *evaluator.Evaluator
 
+// Security level that globalEval was created for
+var globalEvalLevel params.SecurityLevel
+
 func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+	currentEval()
+}
+
+// currentEval returns the global evaluator, rebuilding it if the security level
+// has changed since it was created: its buffers are sized for one level.
+func currentEval() *evaluator.Evaluator {
+	if globalEval == nil || globalEvalLevel != params.CurrentSecurityLevel {
+		globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+		globalEvalLevel = params.CurrentSecurityLevel
+	}
+	return globalEval
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
 func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareNAND(tlweA, tlweB)
+	prepared := currentEval().PrepareNAND(tlweA, tlweB)
 	result := bootstrap(prepared, ck)
 
 	return result
@@ -32,19 +45,19 @@ func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 
 // OR performs homomorphic OR operation (zero-allocation)
 func OR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareOR(tlweA, tlweB)
+	prepared := currentEval().PrepareOR(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
 // AND performs homomorphic AND operation (zero-allocation)
 func AND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareAND(tlweA, tlweB)
+	prepared := currentEval().PrepareAND(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
 // XOR performs homomorphic XOR operation (zero-allocation)
 func XOR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareXOR(tlweA, tlweB)
+	prepared := currentEval().PrepareXOR(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
@@ -128,14 +141,14 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 // bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
 // Returns pointer to internal buffer - result is only valid until next bootstrap call
 func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	return currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 }
 
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	bootstrapped := currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
 	return result
@@ -144,7 +157,7 @@ func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 // bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	currentEval().BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
-- 
2.43.0


From 543b96f3d92eef7fdba32f750d703987d5efd906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 5/6] fix: ShallowCopy made an evaluator that cannot bootstrap

The copy's decomposer had a single level (the length of a one-element view of
the buffer) instead of 2*L, so every bootstrap on it panicked.
---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..e6f7fb4 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2),
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0


From d0d71d75f96bf4ba446d1ddc4f2ef63da5c352f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 6/6] fix: keys, masks and noise came from a 31-bit-seeded
 math/rand

Secret keys, ciphertext masks, noise and the public-key subset selection were
drawn from rand.New(rand.NewSource(rand.Int63())). NewSource reduces its seed
modulo 2^31-1, so there were only about 2^31 possible secret keys, and the
generator itself is predictable. Draw from crypto/rand instead.
---
 key/key.go               |  5 ++---
 proxyreenc/proxyreenc.go |  4 +---
 tlwe/tlwe.go             |  6 ++----
 trlwe/trlwe.go           |  4 +---
 utils/rng.go             | 38 ++++++++++++++++++++++++++++++++++++++
 5 files changed, 44 insertions(+), 13 deletions(-)
 create mode 100644 utils/rng.go

diff --git a/key/key.go b/key/key.go
index 7606bcd..7557c24 100644
--- a/key/key.go
+++ b/key/key.go
@@ -1,9 +1,8 @@
 package key
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
+	"github.com/thedonutfactory/go-tfhe/utils"
 )
 
 // SecretKey contains the secret keys for both levels
@@ -14,7 +13,7 @@ type SecretKey struct {
 
 // NewSecretKey generates a new secret key
 func NewSecretKey() *SecretKey {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 
 	lv0N := params.GetTLWELv0().N
 	lv1N := params.GetTLWELv1().N
diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 79c7e59..8b13489 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -39,8 +39,6 @@
 package proxyreenc
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
 	"github.com/thedonutfactory/go-tfhe/utils"
@@ -102,7 +100,7 @@ func NewPublicKeyLv0WithParams(secretKey []params.Torus, size int, alpha float64
 //
 // Returns a TLWELv0 ciphertext encrypting the plaintext.
 func (pk *PublicKeyLv0) EncryptF64(plaintext float64, alpha float64) *tlwe.TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	result := tlwe.NewTLWELv0()
 
 	// Add the plaintext to b
diff --git a/tlwe/tlwe.go b/tlwe/tlwe.go
index 41e534b..115f515 100644
--- a/tlwe/tlwe.go
+++ b/tlwe/tlwe.go
@@ -1,8 +1,6 @@
 package tlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/utils"
 )
@@ -34,7 +32,7 @@ func (t *TLWELv0) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 0
 func (t *TLWELv0) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	n := params.GetTLWELv0().N
 
 	var innerProduct params.Torus
@@ -154,7 +152,7 @@ func (t *TLWELv1) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 1
 func (t *TLWELv1) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	n := params.GetTLWELv1().N
 
 	var innerProduct params.Torus
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 0dcae51..49b373e 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -1,8 +1,6 @@
 package trlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/poly"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
@@ -26,7 +24,7 @@ func NewTRLWELv1() *TRLWELv1 {
 
 // EncryptF64 encrypts a vector of float64 values with TRLWE Level 1
 func (t *TRLWELv1) EncryptF64(p []float64, alpha float64, key []params.Torus, polyEval *poly.Evaluator) *TRLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRNG()
 	n := params.GetTRLWELv1().N
 
 	// Generate random a
diff --git a/utils/rng.go b/utils/rng.go
new file mode 100644
index 0000000..0114e15
--- /dev/null
+++ b/utils/rng.go
@@ -0,0 +1,38 @@
+package utils
+
+import (
+	"bufio"
+	crand "crypto/rand"
+	"encoding/binary"
+	"io"
+	"math/rand"
+)
+
+// cryptoSource is a math/rand source backed by the operating system's
+// cryptographically secure generator.
+type cryptoSource struct {
+	r *bufio.Reader
+}
+
+// Uint64 returns 64 uniformly random bits.
+func (s *cryptoSource) Uint64() uint64 {
+	var b [8]byte
+	if _, err := io.ReadFull(s.r, b[:]); err != nil {
+		panic("utils: cannot read random bytes: " + err.Error())
+	}
+	return binary.LittleEndian.Uint64(b[:])
+}
+
+// Int63 returns 63 uniformly random bits.
+func (s *cryptoSource) Int63() int64 {
+	return int64(s.Uint64() >> 1)
+}
+
+// Seed does nothing: the source cannot be seeded.
+func (s *cryptoSource) Seed(int64) {}
+
+// NewRNG returns a generator for secret keys, masks and noise.
+// It must not be shared between goroutines.
+func NewRNG() *rand.Rand {
+	return rand.New(&cryptoSource{r: bufio.NewReader(crand.Reader)})
+}
-- 
2.43.0

