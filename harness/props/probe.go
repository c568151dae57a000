package props

import (
	"os"
	"strings"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
)

func init() {
	Checks["PROBE"] = func(r *mon.Run) {
		names := strings.Split(os.Getenv("PROBE_OPS"), ",")
		for _, n := range names {
			o := basicOps[n]
			r.Cases(n, 60000, func(t *mon.T) {
				c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: os.Getenv("PROBE_WIDE") != ""})
				ds := operands(t, lib.Ctx(c), o.Arity, gen.Opts{Special: true})
				runOp(t, o, c, ds)
			})
		}
	}
}
