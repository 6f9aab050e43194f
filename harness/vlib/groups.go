package vlib

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/takakv/msc-poc/group"
)

const RFC3526 = `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`

// Safe primes (generated once, checked by C14's cases); g=4 generates the squares.
var SafePrimes = map[int]string{
	16:   "9fb3",
	32:   "c9d488b3",
	64:   "841dcd959bfeb43b",
	128:  "ef4b7de201adc00bcbc332f3e49c6e1f",
	256:  "c185b81dd64eeb2b338a83d16e55bb2125ffd47b918f9ed188a77e594f7c3293",
	512:  "9d5b9d90f8c6c5e0518b4d422f01f7d7c679d6b92e1505824d875275d60d2ebc669bfa8973af2a3ed2d7e54a4a0972096bc097d48d72f5cdbc17a18169510967",
	1024: "cad08c9813a9a9ad57859bb72aefbdfc0831251f5432e144f453a0039f41a765dc0521214e02ea8481ac365c90e4c4cdd39e1107b16d5a34139c1b0a3d82098da31796b763a9949c6d82cf2d2754c25e6bb8572ac32167370e03bcd549555ae4af1be51877f48342e5e24ad596120a43b2cb71c7b68bf5c07a39e2d6552966a3",
}

func RFCGroup() group.Group { return group.NewModPGroup("RFC3526ModPGroup3072", RFC3526, "2") }

// ModP returns the safe-prime group of the given size with generator 4.
func ModP(bits int) group.Group {
	s, ok := SafePrimes[bits]
	if !ok {
		Bug("no safe prime of %d bits", bits)
	}
	return group.NewModPGroup(fmt.Sprintf("ModP%d", bits), s, "4")
}

// CurveNames lists the proof groups of the election program.
var CurveNames = []string{"secp256k1", "ristretto255", "P-256", "P-384"}

func Curve(name string) group.Group {
	switch name {
	case "secp256k1":
		return group.SecP256k1()
	case "ristretto255":
		return group.Ristretto255()
	case "P-256":
		return group.P256()
	case "P-384":
		return group.P384()
	}
	Bug("no curve %s", name)
	return nil
}

// Orders and fields, from the standards (not from the repository).
var StdOrder = map[string]*big.Int{
	"secp256k1":    Hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
	"ristretto255": Hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"),
	"P-256":        Hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
	"P-384":        Hex("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
}
var StdField = map[string]*big.Int{
	"secp256k1":    Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
	"ristretto255": Hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"),
	"P-256":        Hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
	"P-384":        Hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
}

// TCurve is a transparent stand-in for a proof group: order of P-256.
func TCurve() *TGroup { return NewTGroup("transparent", StdOrder["P-256"]) }

// TField is a transparent stand-in for the ElGamal group: order of P-384.
func TField() *TGroup { return NewTGroup("transparent-ff", StdOrder["P-384"]) }

// RFCPrime is the 3072-bit prime.
func RFCPrime() *big.Int {
	return Hex(strings.Join(strings.Fields(RFC3526), ""))
}
