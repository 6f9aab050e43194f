package bulletproofs

import (
	"math/big"

	v "github.com/takakv/msc-poc/zzverif/vlib"
)

func zz_vVerdict(c *v.Ctx, f func() (bool, error)) bool {
	ok := false
	pn, _ := v.Safe(func() {
		r, err := f()
		ok = r && err == nil
	})
	if pn != nil {
		c.Event("verify_panicked")
		return false
	}
	return ok
}

func zz_vVec(c *v.Ctx, n, kind int, N *big.Int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		switch kind {
		case 0:
			out[i] = v.RandMod(c.R, N)
		case 1:
			out[i] = v.B(0)
		case 2:
			out[i] = v.B(1)
		case 3:
			out[i] = v.Sub(N, v.B(1))
		case 4:
			out[i] = v.B(int64(c.R.IntN(21) - 10))
		case 5:
			out[i] = v.B(0)
			if i == n-1 {
				out[i] = v.RandMod(c.R, N)
			}
		case 6:
			out[i] = v.B(0)
			if i == 0 {
				out[i] = v.RandMod(c.R, N)
			}
		case 7:
			out[i] = v.Add(N, v.RandMod(c.R, N))
		case 8:
			out[i] = v.B(int64(i%2)*2 - 1)
		}
	}
	return out
}

func zz_vIP(a, b []*big.Int, N *big.Int) *big.Int {
	s := new(big.Int)
	for i := range a {
		s.Add(s, v.Mul(a[i], b[i]))
	}
	return s.Mod(s, N)
}

func zz_vCopy(a []*big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	for i := range a {
		o[i] = v.Cp(a[i])
	}
	return o
}
