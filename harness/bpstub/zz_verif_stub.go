package bulletproofs

import (
	"math/big"

	v "github.com/takakv/msc-poc/zzverif/vlib"
)

// ZZForgeries stands in for the adversarial prover where that can not be built (its package-internal names are gone).
func ZZForgeries(c *v.Ctx, params BulletProofSetupParams, value, gamma *big.Int, part int, emit func(how string, pf BulletProof) bool) {
	c.Event("adversarial_prover_not_available")
}
