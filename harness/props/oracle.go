package props

import (
	"bufio"
	"fmt"
	"os"
	"sort"

	"verif/harness/gen"
	"verif/harness/hp"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// OracleMain prints what the oracles say about generated cases, for
// tools/crosscheck.py to compare with other implementations. The library is
// not involved.
func OracleMain(seed uint64, n int) int {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	var names []string
	for k := range basicOps {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, name := range names {
		o := basicOps[name]
		for i := 0; i < n; i++ {
			r := mon.NewRng(seed, "oracle", name, fmt.Sprint(i))
			c := lib.Ctx(lib.RandCtx(r, lib.CtxOpts{}))
			if c.P <= 0 {
				continue
			}
			var ds []ref.D
			for k := 0; k < o.Arity || k == 0; k++ {
				d := gen.Operand(r, c, gen.Opts{Special: true})
				if k > 0 && r.P(1, 4) {
					d = gen.Near(r, c, ds[0])
				}
				ds = append(ds, d)
			}
			v, f := o.R(c, ds)
			fmt.Fprintf(w, "D %s %d %d %d %d %v %v %v\n", name, c.P, c.Emax, c.Emin, c.R, ds, v, f)
			if len(ds) == 2 {
				if ds[0].K <= ref.Inf && ds[1].K <= ref.Inf {
					fmt.Fprintf(w, "D Cmp %d %d %d %d %v %d {}\n", c.P, c.Emax, c.Emin, c.R, ds, ref.CmpNum(ds[0], ds[1]))
				}
				fmt.Fprintf(w, "D CmpTotal %d %d %d %d %v %d {}\n", c.P, c.Emax, c.Emin, c.R, ds, ref.CmpTotal(ds[0], ds[1]))
			}
		}
	}
	for i := 0; i < n; i++ {
		r := mon.NewRng(seed, "oracle", "Quantize", fmt.Sprint(i))
		c := lib.Ctx(lib.RandCtx(r, lib.CtxOpts{}))
		if c.P <= 0 {
			continue
		}
		d := gen.Operand(r, c, gen.Opts{Special: true})
		e := d.E + r.In(-20, 20)
		v, f := c.Quantize(d, e)
		fmt.Fprintf(w, "D Quantize %d %d %d %d [%v %v] %v %v\n", c.P, c.Emax, c.Emin, c.R, d, ref.D{C: one1, E: e}, v, f)
	}
	for _, o := range transFns {
		for i := 0; i < n/10; i++ {
			r := mon.NewRng(seed, "oracle", o.Name, fmt.Sprint(i))
			p := r.In(1, 60)
			ds := o.Gen(r, p)
			v := o.Oracle(ds, hp.Bits(p+60))
			if v == nil {
				continue
			}
			fmt.Fprintf(w, "T %s %d %v %s\n", o.Name, p, ds, v.Text('e', p+40))
		}
	}
	for _, p := range []int{5, 50, 500, 2000} {
		b := hp.Bits(p + 60)
		fmt.Fprintf(w, "T Pi %d [] %s\n", p, hp.Pi(b).Text('e', p+40))
		fmt.Fprintf(w, "T E %d [] %s\n", p, hp.E(b).Text('e', p+40))
	}
	return 0
}
