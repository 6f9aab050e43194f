From b4745f73b5e21fecc097eddca291963f112ccdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:31 +0000
Subject: [PATCH 01/25] fix: keep leading zeroes when hashing to secp256k1

---
 group/p256k1.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..e60701d 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -151,10 +151,15 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
-	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
+	tmp, err := p256.MapToGroup(s)
+	if err != nil {
+		return nil, err
+	}
+	// Encode with a fixed width to maintain leading zeroes.
+	buf := make([]byte, 64)
+	tmp.X.FillBytes(buf[:32])
+	tmp.Y.FillBytes(buf[32:])
+	res := e.curve.Element().SetBytes(buf)
 	return res, nil
 }
 
-- 
2.43.0


From 5baadcf56695c748f4d59f3cd31719f57f9f7fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 02/25] fix: give every secp256k1 point exactly one encoding

---
 group/p256k1.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index e60701d..bcf038a 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -164,6 +164,10 @@ func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256k1Point) String() string {
+	// The identity has several internal representations.
+	if e.IsIdentity() {
+		return new(p256.P256).SetInfinity().String()
+	}
 	return e.val.String()
 }
 
@@ -175,17 +179,13 @@ func (e *p256k1Point) IsIdentity() bool {
 }
 
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
-	xBytes := make([]byte, 32)
-	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
-	}
-
-	yBytes := make([]byte, 32)
-	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+	// Both coordinates have a fixed width, and the identity is all zeroes.
+	buf := make([]byte, 64)
+	if !e.IsIdentity() {
+		e.val.X.FillBytes(buf[:32])
+		e.val.Y.FillBytes(buf[32:])
 	}
-
-	return append(xBytes, yBytes...), nil
+	return buf, nil
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
@@ -194,6 +194,9 @@ func (e *p256k1Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
+	if e.IsIdentity() {
+		return json.Marshal(&p256.P256{X: big.NewInt(0), Y: big.NewInt(0)})
+	}
 	return json.Marshal(e.val)
 }
 
-- 
2.43.0


From d9ac250fc043c52b2e01f17fcc1d7184183dcd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:32 +0000
Subject: [PATCH 03/25] fix: decode and validate secp256k1 points

---
 group/p256k1.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index bcf038a..e70136d 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -189,8 +190,10 @@ func (e *p256k1Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
-	return nil
+	if len(data) != 64 {
+		return errors.New("invalid secp256k1 point length")
+	}
+	return e.setCoordinates(new(big.Int).SetBytes(data[:32]), new(big.Int).SetBytes(data[32:]))
 }
 
 func (e *p256k1Point) MarshalJSON() ([]byte, error) {
@@ -201,6 +204,31 @@ func (e *p256k1Point) MarshalJSON() ([]byte, error) {
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
+	point := ECPoint{}
+	err := json.Unmarshal(data, &point)
+	if err != nil {
+		return err
+	}
+	if point.X == nil || point.Y == nil {
+		return errors.New("missing secp256k1 point coordinate")
+	}
+	return e.setCoordinates(point.X, point.Y)
+}
+
+// setCoordinates sets the receiver to the point (x, y), where (0, 0) denotes the identity.
+func (e *p256k1Point) setCoordinates(x, y *big.Int) error {
+	if x.Sign() == 0 && y.Sign() == 0 {
+		e.val = new(p256.P256).SetInfinity()
+		return nil
+	}
+	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(e.curve.fieldOrder) >= 0 || y.Cmp(e.curve.fieldOrder) >= 0 {
+		return errors.New("secp256k1 point coordinate outside of the field")
+	}
+	point := &p256.P256{X: x, Y: y}
+	if !point.IsOnCurve() {
+		return errors.New("point is not on secp256k1")
+	}
+	e.val = point
 	return nil
 }
 
-- 
2.43.0


From 2c02e264d08f48d765e51d244f81f16897ac362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:33 +0000
Subject: [PATCH 04/25] fix: JSON encoding of ristretto255 elements

---
 group/ristretto255.go | 50 +++++++------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..de17ca9 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -156,54 +155,21 @@ func (e *r255Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	// Ristretto elements have no coordinates, only a canonical byte string.
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.val.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From 126bb2cbea6b39c164e61e437fa280fb994d7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:34 +0000
Subject: [PATCH 05/25] fix: do not modify P-256 and P-384 constants and points
 in place

---
 group/p256.go | 9 +++++----
 group/p384.go | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..f76069b 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -39,7 +39,7 @@ func (g *p256Group) N() *big.Int {
 func (g *p256Group) Generator() Element {
 	return &p256Point{
 		curve: g,
-		val:   group.P256.Generator(),
+		val:   group.P256.Generator().Copy(), // Generator() exposes the curve constants.
 	}
 }
 
@@ -138,7 +138,7 @@ func (e *p256Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	return string(tmp)
 }
 
@@ -147,7 +147,8 @@ func (e *p256Point) IsIdentity() bool {
 }
 
 func (e *p256Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	// The underlying implementation normalises the point it encodes.
+	return e.val.Copy().MarshalBinary()
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
@@ -156,7 +157,7 @@ func (e *p256Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
diff --git a/group/p384.go b/group/p384.go
index cd298b1..6c2b31d 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -39,7 +39,7 @@ func (g *p384Group) N() *big.Int {
 func (g *p384Group) Generator() Element {
 	return &p384Point{
 		curve: g,
-		val:   group.P384.Generator(),
+		val:   group.P384.Generator().Copy(), // Generator() exposes the curve constants.
 	}
 }
 
@@ -138,7 +138,7 @@ func (e *p384Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p384Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	return string(tmp)
 }
 
@@ -147,7 +147,8 @@ func (e *p384Point) IsIdentity() bool {
 }
 
 func (e *p384Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	// The underlying implementation normalises the point it encodes.
+	return e.val.Copy().MarshalBinary()
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
@@ -156,7 +157,7 @@ func (e *p384Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
-- 
2.43.0


From dfa085129a6fb376f5aea424bb187796caa61d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:35 +0000
Subject: [PATCH 06/25] fix: reject missing and out-of-field P-256 and P-384
 coordinates

---
 group/p256.go | 8 ++++++++
 group/p384.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/group/p256.go b/group/p256.go
index f76069b..30717e3 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -187,6 +187,14 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if point.X == nil || point.Y == nil {
+		return fmt.Errorf("missing point coordinate")
+	}
+	if point.X.Sign() < 0 || point.Y.Sign() < 0 ||
+		point.X.Cmp(e.curve.fieldOrder) >= 0 || point.Y.Cmp(e.curve.fieldOrder) >= 0 {
+		return fmt.Errorf("point coordinate outside of the field")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.val.UnmarshalBinary([]byte{0})
diff --git a/group/p384.go b/group/p384.go
index 6c2b31d..8f84de4 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -187,6 +187,14 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	if point.X == nil || point.Y == nil {
+		return fmt.Errorf("missing point coordinate")
+	}
+	if point.X.Sign() < 0 || point.Y.Sign() < 0 ||
+		point.X.Cmp(e.curve.fieldOrder) >= 0 || point.Y.Cmp(e.curve.fieldOrder) >= 0 {
+		return fmt.Errorf("point coordinate outside of the field")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.val.UnmarshalBinary([]byte{0})
-- 
2.43.0


From a8345da1538b8691ea69ecf67ae87c5a07428dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:36 +0000
Subject: [PATCH 07/25] fix: reject values outside of the safe-prime group when
 decoding

---
 group/modsafeprime.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..1e42b4b 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -158,7 +159,18 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
+	return e.setMember(new(big.Int).SetBytes(data))
+}
+
+// setMember sets the receiver to val if val is a member of the group of squares.
+func (e *ModPElement) setMember(val *big.Int) error {
+	if val.Sign() <= 0 || val.Cmp(e.group.fieldOrder) >= 0 {
+		return errors.New("value outside of the field")
+	}
+	if big.Jacobi(val, e.group.fieldOrder) != 1 {
+		return errors.New("value outside of the prime-order group")
+	}
+	e.val = val
 	return nil
 }
 
@@ -167,8 +179,15 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	var val *big.Int
+	err := json.Unmarshal(data, &val)
+	if err != nil {
+		return err
+	}
+	if val == nil {
+		return errors.New("missing value")
+	}
+	return e.setMember(val)
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From 1b42a0bed364a1e9cade30d2a4a524ee26cb32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:43 +0000
Subject: [PATCH 08/25] fix: derive the second range-proof challenge
 independently

HashBP filled a second buffer with the first challenge but hashed the first
buffer again, so that y and z were equal. With y = z a proof for any value,
inside or outside of the range, can be constructed.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..4986f68 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From fea13865adf6774a220d76ca6019ca296e49aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:44 +0000
Subject: [PATCH 09/25] fix: bind the range-proof challenges to the whole
 transcript

The challenges did not depend on the committed value, and x depended on T1 and
T2 only. A prover could pick the commitment V after the challenges and prove
any value.
---
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go |  8 ++++----
 bulletproofs/util.go    | 10 +++++-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..6521a51 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(V, A, S) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(V, A, S, T1, T2) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+	y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..a5435df 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -95,7 +95,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(append(commitments[:m:m], A, S)...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -158,7 +158,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(append(commitments[:m:m], A, S, T1, T2)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -232,8 +232,8 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(append(proof.Vs[:m:m], proof.A, proof.S, proof.T1, proof.T2)...)
+	y, z, _ := HashBP(append(proof.Vs[:m:m], proof.A, proof.S)...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4986f68..1cd30d1 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -51,12 +51,13 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 /*
 HashBP is responsible for the computing a Zp element given elements from GT and G1.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(elements ...group.Element) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
+	for _, e := range elements {
+		buffer.WriteString(e.String())
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +65,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	buffer2.Write(buffer.Bytes())
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From 41fbae2a4242181daa4cbff3d0b14ee91a5a55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:45 +0000
Subject: [PATCH 10/25] fix: chain the challenges of the inner-product argument

A round's challenge depended on that round's messages only. A prover could fix
all rounds first and pick a commitment and inner product that fit the resulting
challenges afterwards.
---
 bulletproofs/bip.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..d4d1d23 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -121,7 +121,7 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 	PP, ux := computePP(P, c, x, params) // (8)
 
 	// Execute Protocol 2 recursively
-	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs, params.GP) // 9
+	proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, x, n, Ls, Rs, params.GP) // 9
 
 	proof.Params = params
 	proof.P = P
@@ -133,7 +133,7 @@ func proveInnerProduct(a, b []*big.Int, P group.Element, c *big.Int, params Inne
 /*
 computeBipRecursive is the main recursive function that will be used to compute the inner product argument.
 */
-func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
+func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Element, prev *big.Int, n int64, Ls, Rs []group.Element, SP group.Group) InnerProductProof {
 	var (
 		proof                            InnerProductProof
 		cL, cR, x, xinv, x2, x2inv       *big.Int
@@ -173,7 +173,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x = hashRound(prev, L, R)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -204,7 +204,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	Ls = append(Ls, L)
 	Rs = append(Rs, R)
 	// recursion computeBipRecursive(g',h',u,P'; a', b')                  // (35)
-	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, nprime, Ls, Rs, SP)
+	proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, x, nprime, Ls, Rs, SP)
 
 	return proof
 }
@@ -231,7 +231,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
 		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		x = hashRound(x, proof.L[i], proof.R[i]) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
@@ -285,6 +285,17 @@ func hashIP(g, h []group.Element, P group.Element, c *big.Int) (*big.Int, error)
 	return result, err
 }
 
+/*
+hashRound derives the challenge of a round from the previous challenge and the messages of the round.
+*/
+func hashRound(prev *big.Int, L, R group.Element) *big.Int {
+	digest := sha256.New()
+	digest.Write([]byte(prev.String()))
+	digest.Write([]byte(L.String()))
+	digest.Write([]byte(R.String()))
+	return new(big.Int).SetBytes(digest.Sum(nil))
+}
+
 /*
 commitInnerProduct is responsible for calculating g^a.h^b.
 */
-- 
2.43.0


From eded61bd28043ccf3f4777963d7f6a7b8ef7973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:45 +0000
Subject: [PATCH 11/25] fix: check the number of rounds of the inner-product
 argument

Too few rounds were accepted, too many or differing numbers of L and R crashed
the verifier or were ignored.
---
 bulletproofs/bip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index d4d1d23..98843bd 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -23,6 +23,7 @@ import (
 	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
+	"math/bits"
 
 	"github.com/ing-bank/zkrp/util/bn"
 	"github.com/ing-bank/zkrp/util/byteconversion"
@@ -223,6 +224,11 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	gprime := proof.Params.Gg
 	hprime := proof.Params.Hh
 
+	// The vectors are halved in every round, until one element is left.
+	if len(proof.R) != logn || len(hprime) != len(gprime) || bits.Len(uint(len(gprime))) != logn+1 || !IsPowerOfTwo(int64(len(gprime))) {
+		return false, nil
+	}
+
 	// Fiat-Shamir
 	x, _ = hashIP(gprime, hprime, proof.P, proof.Cc) // (6) & (7)
 
-- 
2.43.0


From 41b0de09b2e1eb169aba74d8d271f1a856447251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:46 +0000
Subject: [PATCH 12/25] fix: verify the inner-product part of range proofs
 against own parameters

The verifier used the generators sent by the prover and did not compare the
argued inner product with t', so that any value could be proven.
---
 bulletproofs/bp.go      | 13 ++++++++++++-
 bulletproofs/multibp.go | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 6521a51..8e1f90a 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,7 +324,18 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be about the claimed t' and use the generators derived here,
+	// not those which the prover sent along.
+	ipProof := proof.InnerProductProof
+	ipParams, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof.Params = ipParams
+	ok := false
+	if ipProof.Cc.Cmp(proof.Tprime) == 0 {
+		ok, _ = ipProof.Verify()
+	}
 
 	result := c65 && c67 && ok
 
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index a5435df..104a756 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -318,7 +318,18 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be about the claimed t' and use the generators derived here,
+	// not those which the prover sent along.
+	ipProof := proof.InnerProductProof
+	ipParams, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof.Params = ipParams
+	ok := false
+	if ipProof.Cc.Cmp(proof.Tprime) == 0 {
+		ok, _ = ipProof.Verify()
+	}
 	fmt.Println("Check 68:", ok)
 
 	result := c65 && c67 && ok
-- 
2.43.0


From 37f3e9c39e7a9eca0848acb60c310a078e3e21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:16 +0000
Subject: [PATCH 13/25] fix: make aggregated range proofs verify

The prover committed to the right vector twice instead of the left and the right
one, and the verifier added powers of z to the powers of two instead of
multiplying them.
---
 bulletproofs/multibp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 104a756..159d086 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -297,7 +297,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From b56fa236fd0fdf2075d30609362f31c5c937174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:16 +0000
Subject: [PATCH 14/25] fix: refuse numbers of values that do not divide the
 aggregation budget

---
 bulletproofs/multibp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 159d086..51df0e1 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -54,6 +54,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || params.N%int64(m) != 0 {
+		return proof, nil, fmt.Errorf("%d values do not share %d bits evenly", m, params.N)
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -229,6 +232,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || params.N%int64(m) != 0 {
+		return false, fmt.Errorf("%d values do not share %d bits evenly", m, params.N)
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-- 
2.43.0


From 9d2d8bf569b1ef29772209c88970ee1ab4d0bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:10 +0000
Subject: [PATCH 15/25] fix: bind the consistency-proof challenge to the
 statement

The challenge covered the commitments of the first move only. The ciphertext and
the range-proof commitments could be chosen after it, to fit any response.
---
 voteproof/voteproof.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..51ed6d8 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -109,10 +109,14 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
+	buffer.WriteString(comm.Y.String())
+	buffer.WriteString(comm.Xp.String())
+	buffer.WriteString(comm.Xq1.String())
+	buffer.WriteString(comm.Xq2.String())
 	buffer.WriteString(w.String())
 	buffer.WriteString(Kp.String())
 	buffer.WriteString(Kq1.String())
@@ -130,6 +134,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// The statement
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -148,7 +160,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -192,7 +204,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From 3fb5b9d141f650579216d2e1a225d79911b68bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:25 +0000
Subject: [PATCH 16/25] fix: negative numbers are not powers of two

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 1cd30d1..8bf0b50 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -128,5 +128,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From c297db624c51d0d837ed7b2116fd6597c8d8781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:25 +0000
Subject: [PATCH 17/25] fix: refuse challenges longer than the hash they are
 cut from

---
 voteproof/voteproof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 51ed6d8..18b2815 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -89,6 +89,11 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 	params.GFF = AP.GFF
 	params.GEC = AP.GEC
 
+	// The challenge is cut from a SHA-256 digest.
+	if lenChallenge > 8*sha256.Size {
+		return params, errors.New("challenge is longer than the hash")
+	}
+
 	if params.Bb < 1 {
 		return params, errors.New("inconsistent parameter choice")
 	}
-- 
2.43.0


From afae04f9fd4da9224dda1c46bef589526d3aad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:44 +0000
Subject: [PATCH 18/25] fix: let the voter choose every candidate of the range

---
 voter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/voter.go b/voter.go
index 6dc080f..fdb762a 100644
--- a/voter.go
+++ b/voter.go
@@ -17,7 +17,8 @@ type BallotData struct {
 }
 
 func castVote(pp PublicParameters) (BallotData, time.Duration) {
-	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)))
+	// Both candidateMin and candidateMax are valid choices.
+	rBig, _ := rand.Int(rand.Reader, big.NewInt(int64(pp.candidateMax-pp.candidateMin)+1))
 
 	var choice = uint16(rBig.Uint64()) + pp.candidateMin
 	ciphertext, rp := encryptVote(choice, pp.EGPK, pp.FFGroupParams.I)
-- 
2.43.0


From 43482dbc92eeb1c71e4f87cc4ad3e6de8a2f4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:44 +0000
Subject: [PATCH 19/25] fix: state the field size of the proof group itself

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 34519d5..a6684e0 100644
--- a/main.go
+++ b/main.go
@@ -84,7 +84,7 @@ func setup(curveGroup group.Group) (PublicParameters, error) {
 
 	var curveGroupParams voteproof.GroupParameters
 	curveGroupParams.I = curveGroup
-	curveGroupParams.F = fieldGroupParams.I.P()
+	curveGroupParams.F = curveGroupParams.I.P()
 	curveGroupParams.N = curveGroupParams.I.N()
 	curveGroupParams.G = curveGroupParams.I.Generator()
 	curveGroupParams.H = bpParams.H
-- 
2.43.0


From a59fa2fe3e0a42a83570a5d579f4ec56a172acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:21 +0000
Subject: [PATCH 20/25] fix: verify votes against the collector's own
 parameters

---
 server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..67c3ff4 100644
--- a/server.go
+++ b/server.go
@@ -41,6 +41,8 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 	}
 
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
+	// The parameters that came with the proof must not be trusted.
+	proofs.VoteProof.Params = rpParams
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
 
-- 
2.43.0


From 9fd58bb5002936f49168cc2a102817630637de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 21/25] fix: report missing and malformed values when decoding
 range proofs

---
 bulletproofs/marshal.go | 144 +++++++++++++++++++++++++++-------------
 1 file changed, 99 insertions(+), 45 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..b0131e9 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,45 +37,80 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
-	params := InnerProductParams{
-		Uu: g.Element(),
-		Gg: make([]group.Element, len(j.Gg)),
-		Hh: make([]group.Element, len(j.Hh)),
-		GP: g,
+var errMissingValue = errors.New("missing value in range proof")
+var errListLengths = errors.New("lists of unequal length in range proof")
+
+func elementFromRawMessage(j json.RawMessage, g group.Group) (group.Element, error) {
+	e := g.Element()
+	if err := e.UnmarshalJSON(j); err != nil {
+		return nil, err
 	}
+	return e, nil
+}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
-	for i := range j.Gg {
-		params.Gg[i] = g.Element()
-		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+func elementsFromRawMessages(j []json.RawMessage, g group.Group) ([]group.Element, error) {
+	if j == nil {
+		return nil, nil
 	}
 
-	return params
+	var err error
+	elements := make([]group.Element, len(j))
+	for i := range j {
+		if elements[i], err = elementFromRawMessage(j[i], g); err != nil {
+			return nil, err
+		}
+	}
+	return elements, nil
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
+	var err error
+	params := InnerProductParams{GP: g}
+
+	if len(j.Gg) != len(j.Hh) {
+		return InnerProductParams{}, errListLengths
+	}
+	if params.Uu, err = elementFromRawMessage(j.Uu, g); err != nil {
+		return InnerProductParams{}, err
+	}
+	if params.Gg, err = elementsFromRawMessages(j.Gg, g); err != nil {
+		return InnerProductParams{}, err
+	}
+	if params.Hh, err = elementsFromRawMessages(j.Hh, g); err != nil {
+		return InnerProductParams{}, err
+	}
+
+	return params, nil
+}
+
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
+	var err error
 	proof := InnerProductProof{
-		L:      make([]group.Element, len(j.L)),
-		R:      make([]group.Element, len(j.R)),
-		P:      g.Element(),
-		Cc:     j.Cc,
-		A:      j.A,
-		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		Cc: j.Cc,
+		A:  j.A,
+		B:  j.B,
 	}
 
-	for i := range proof.L {
-		proof.L[i] = g.Element()
-		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return InnerProductProof{}, errMissingValue
+	}
+	if len(j.L) != len(j.R) {
+		return InnerProductProof{}, errListLengths
+	}
+	if proof.L, err = elementsFromRawMessages(j.L, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.R, err = elementsFromRawMessages(j.R, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.P, err = elementFromRawMessage(j.P, g); err != nil {
+		return InnerProductProof{}, err
+	}
+	if proof.Params, err = ipParamsFromRawMessage(j.Params, g); err != nil {
+		return InnerProductProof{}, err
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	return proof, nil
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,24 +120,42 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errMissingValue
+	}
+
 	decodedProof := BulletProof{
-		V:                 params.GP.Element(),
-		A:                 params.GP.Element(),
-		S:                 params.GP.Element(),
-		T1:                params.GP.Element(),
-		T2:                params.GP.Element(),
-		Taux:              tmp.Taux,
-		Mu:                tmp.Mu,
-		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
-		Params:            params,
-	}
-
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
+		V:      params.GP.Element(),
+		A:      params.GP.Element(),
+		S:      params.GP.Element(),
+		T1:     params.GP.Element(),
+		T2:     params.GP.Element(),
+		Taux:   tmp.Taux,
+		Mu:     tmp.Mu,
+		Tprime: tmp.Tprime,
+		Params: params,
+	}
+
+	decodedProof.InnerProductProof, err = ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
+	if err = decodedProof.V.UnmarshalJSON(tmp.V); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.A.UnmarshalJSON(tmp.A); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.S.UnmarshalJSON(tmp.S); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.T1.UnmarshalJSON(tmp.T1); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.T2.UnmarshalJSON(tmp.T2); err != nil {
+		return BulletProof{}, err
+	}
 
 	return decodedProof, nil
 }
-- 
2.43.0


From 5b87253acac9956e10127c37ed2a306cc12cc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 22/25] fix: report missing and malformed values when decoding
 consistency proofs

---
 voteproof/marshal.go | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..1d75ab2 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -43,6 +44,8 @@ type sigmaProofJSON struct {
 	Params proofParamsJSON
 }
 
+var errMissingValue = errors.New("missing value in consistency proof")
+
 func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	tmp := sigmaProofJSON{}
 	err := json.Unmarshal(b, &tmp)
@@ -50,6 +53,10 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		return SigmaProof{}, err
 	}
 
+	if tmp.Challenge == nil || tmp.Z == nil || tmp.Sp == nil || tmp.Sq1 == nil || tmp.Sq2 == nil {
+		return SigmaProof{}, errMissingValue
+	}
+
 	var ap AlgebraicParameters
 	ap.GFF.G = gFF.Element()
 	ap.GFF.H = gFF.Element()
@@ -62,10 +69,18 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	if err = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H); err != nil {
+		return SigmaProof{}, err
+	}
 
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
@@ -89,9 +104,17 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	if err = proof.W.UnmarshalJSON(tmp.W); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = proof.Kp.UnmarshalJSON(tmp.Kp); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = proof.Kq1.UnmarshalJSON(tmp.Kq1); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = proof.Kq2.UnmarshalJSON(tmp.Kq2); err != nil {
+		return SigmaProof{}, err
+	}
 	return proof, nil
 }
-- 
2.43.0


From e85baf39b66d8c82bab4836730904c311748f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 23/25] fix: report malformed ballots when decoding

---
 marshal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index add6ced..1735cc3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -31,14 +31,21 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	if err = ballot.U.UnmarshalJSON(tmp.U); err != nil {
+		return ElGamalCiphertext{}, err
+	}
+	if err = ballot.V.UnmarshalJSON(tmp.V); err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
-- 
2.43.0


From edb4a573e4560808059f0114838bf800dd4e4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 24/25] fix: give safe-prime group elements a fixed-width text

The challenge of the consistency proof is hashed from joined texts. With
decimal numbers of varying length, different statements and different first
moves had the same hash input.
---
 group/modsafeprime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 1e42b4b..dcf0faf 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -4,6 +4,7 @@ import (
 	"crypto/rand"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -143,7 +144,8 @@ func (e *ModPElement) FieldOrder() *big.Int {
 }
 
 func (e *ModPElement) String() string {
-	return e.val.String()
+	// A fixed width keeps joined texts, from which challenges are hashed, unambiguous.
+	return fmt.Sprintf("%0*d", len(e.group.fieldOrder.String()), e.val)
 }
 
 func (e *ModPElement) IsIdentity() bool {
-- 
2.43.0


From e1fae38d63e86d0fd675f8f9d05a29e5977e0ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 25/25] fix: keep seeds that start with a digit apart when
 hashing to secp256k1

---
 group/p256k1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index e70136d..7db9bbb 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -152,7 +152,9 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 }
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
-	tmp, err := p256.MapToGroup(s)
+	// The underlying implementation hashes a decimal counter directly followed by
+	// its input: without a separator, seeds that start with a digit are ambiguous.
+	tmp, err := p256.MapToGroup(":" + s)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

