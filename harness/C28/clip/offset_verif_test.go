//go:build go1.22

package clip_test

import (
	"fmt"
	"testing"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

type part struct {
	data.LayerPart
	p, i, j int
}

func TestVerifC28Offset(t *testing.T) {
	vh.Run(t, "C28", "nested results of up to 9 parts, 6 insets and 5 pieces with empty levels, visitors stopping anywhere; non-trivial: distinct inputs", func(r *vh.R) {
		var or clip.OffsetResult
		var want []data.LayerPart
		shape := ""
		if !r.One(8) {
			or = clip.OffsetResult{}
		}
		for p, np := 0, r.Intn(r.Size(9)+1); p < np; p++ {
			var part2 [][]data.LayerPart
			shape += "["
			for i, ni := 0, r.Intn(7); i < ni; i++ {
				var inset []data.LayerPart
				if r.One(2) {
					inset = make([]data.LayerPart, 0, 8)
				}
				nj := r.Intn(6)
				if r.One(3) {
					nj = 1
				}
				for j := 0; j < nj; j++ {
					x := &part{p: p, i: i, j: j}
					inset = append(inset, x)
					want = append(want, x)
				}
				shape += fmt.Sprint(nj, " ")
				part2 = append(part2, inset)
			}
			shape += "]"
			or = append(or, part2)
		}
		stop := -1
		if len(want) > 0 && r.Bool() {
			stop = r.Intn(len(want))
		}
		r.Log("shape %s stop at %d", shape, stop)
		check := func() {
			k := 0
			for p := range or {
				for i := range or[p] {
					for j := range or[p][i] {
						r.Check(or[p][i][j] == want[k], "the nested result was changed at %d %d %d", p, i, j)
						k++
					}
				}
			}
			r.Check(k == len(want), "the nested result was changed")
		}
		flat := or.ToOneDimension()
		r.Check(len(flat) == len(want), "%d parts instead of %d", len(flat), len(want))
		for k := range flat {
			r.Check(flat[k] == want[k], "part %d is %v instead of %v", k, flat[k], want[k])
		}
		if cap(flat) > len(flat) {
			_ = append(flat, &part{p: -1})
		}
		for k := range flat {
			flat[k] = nil
		}
		check()
		k := 0
		or.ForEach(func(x data.LayerPart, p, i, j int) bool {
			r.Check(k < len(want) && (stop < 0 || k <= stop), "visit %d of %d (stop at %d)", k, len(want), stop)
			w := want[k].(*part)
			r.Check(x == want[k] && p == w.p && i == w.i && j == w.j, "visit %d is %v (%d %d %d) instead of %v", k, x, p, i, j, w)
			k++
			return k-1 == stop
		})
		r.Check(k == len(want) || k-1 == stop, "%d visits of %d (stop at %d)", k, len(want), stop)
		check()
	})
}
