package lib

import (
	"os"
	"testing"

	"github.com/takakv/msc-poc/zzverif/vlib"
)

var checks []vlib.Check

func TestVerif(t *testing.T) {
	if os.Getenv("VERIF_DIGEST") != "" {
		digestMain()
		return
	}
	vlib.Main(t, checks)
}
