package vlib

import (
	"math/big"
	mrand "math/rand/v2"
	"strings"
)

func B(x int64) *big.Int { return big.NewInt(x) }

func Hex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		Bug("bad hex %q", s)
	}
	return v
}

func Pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func Add(a, b *big.Int) *big.Int     { return new(big.Int).Add(a, b) }
func Sub(a, b *big.Int) *big.Int     { return new(big.Int).Sub(a, b) }
func Mul(a, b *big.Int) *big.Int     { return new(big.Int).Mul(a, b) }
func Neg(a *big.Int) *big.Int        { return new(big.Int).Neg(a) }
func Mod(a, m *big.Int) *big.Int     { return new(big.Int).Mod(a, m) }
func Inv(a, m *big.Int) *big.Int     { return new(big.Int).ModInverse(Mod(a, m), m) }
func MulM(a, b, m *big.Int) *big.Int { return Mod(Mul(a, b), m) }
func Cp(a *big.Int) *big.Int         { return new(big.Int).Set(a) }

// RandBits draws an integer of up to n bits.
func RandBits(r *mrand.Rand, n int) *big.Int {
	b := make([]byte, (n+7)/8)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	v := new(big.Int).SetBytes(b)
	return v.Mod(v, Pow2(n))
}

// RandMod draws an integer in [0,m).
func RandMod(r *mrand.Rand, m *big.Int) *big.Int {
	return Mod(RandBits(r, m.BitLen()+64), m)
}

// RandNZ draws an integer in [1,m).
func RandNZ(r *mrand.Rand, m *big.Int) *big.Int {
	for {
		if v := RandMod(r, m); v.Sign() != 0 {
			return v
		}
	}
}

// OddResponse is a representative of v (mod N) of unusual form if setup says so for the response called name.
func OddResponse(r *mrand.Rand, setup, name string, v, N *big.Int) *big.Int {
	who, what, ok := strings.Cut(setup, " ")
	if !ok {
		if setup == name+"=N" {
			return Cp(N)
		}
		return v
	}
	if who != name && who != "all" {
		return v
	}
	switch what {
	case "long":
		return Add(v, N)
	case "huge":
		return Add(v, Mul(N, RandBits(r, 300)))
	case "negative":
		return Sub(v, N)
	case "small":
		return B(int64(r.Uint32()))
	}
	return v
}

// EdgeScalars are the scalars at which group code tends to go wrong.
func EdgeScalars(n *big.Int) []*big.Int {
	return []*big.Int{
		B(0), B(1), B(2), B(3), B(-1), B(-2), B(255), B(256), B(65535), B(65536),
		Pow2(31), Pow2(32), Pow2(63), Pow2(64), Sub(Pow2(64), B(1)), Pow2(128), Sub(Pow2(128), B(1)),
		Pow2(n.BitLen() - 1), Pow2(n.BitLen()), Sub(Pow2(n.BitLen()), B(1)),
		Sub(n, B(1)), Sub(n, B(2)), Cp(n), Add(n, B(1)), Add(n, B(2)), Neg(n), Neg(Add(n, B(1))), Sub(B(1), n),
		Mul(n, B(2)), Add(Mul(n, B(2)), B(1)), Add(Mul(n, Mul(n, n)), B(5)), Neg(Add(Mul(n, n), B(7))), Add(Pow2(2050), B(1)), Sub(B(3), Pow2(1100)),
		new(big.Int).Rsh(n, 1), Add(new(big.Int).Rsh(n, 1), B(1)), new(big.Int).Rsh(n, 8), new(big.Int).Rsh(n, 16),
	}
}
