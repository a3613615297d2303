//go:build go1.22

package data_test

import (
	"fmt"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

func show(p data.Path) string {
	s := ""
	for _, q := range p {
		s += fmt.Sprintf("(%d,%d)", q.X(), q.Y())
	}
	return s
}

func TestVerifC02(t *testing.T) {
	vh.Run(t, "C02", "random paths and groups of up to 12 paths with up to 40 points, empty members included; non-trivial: distinct inputs", func(r *vh.R) {
		var ps data.Paths
		n := r.Size(12)
		off, wid := r.Int(-1000000000, 1000000000), r.Int(0, 100000000)
		for i := 0; i < n; i++ {
			var p data.Path
			for k := r.Size(40); k > 0; k-- {
				p = append(p, data.NewMicroPoint(data.Micrometer(off+r.Int(-wid, wid)), data.Micrometer(-off/3+r.Int(-wid, wid))))
			}
			if r.One(4) {
				p = data.Path{}
			}
			ps = append(ps, p)
			r.Log("path %s", show(p))
		}
		check := func(what string, f func() (data.MicroPoint, data.MicroPoint), g data.Paths) {
			before := ""
			for _, p := range g {
				before += show(p)
			}
			lo, hi := f()
			var all data.Path
			after := ""
			for _, p := range g {
				all = append(all, p...)
				after += show(p)
			}
			r.Check(before == after, "%s changed the points", what)
			var w [4]data.Micrometer
			for i, q := range all {
				if i == 0 {
					w = [4]data.Micrometer{q.X(), q.Y(), q.X(), q.Y()}
				}
				w = [4]data.Micrometer{min(w[0], q.X()), min(w[1], q.Y()), max(w[2], q.X()), max(w[3], q.Y())}
			}
			got := [4]data.Micrometer{lo.X(), lo.Y(), hi.X(), hi.Y()}
			r.Check(got == w, "%s: got %v want %v", what, got, w)
		}
		for _, p := range ps {
			check("Path.Bounds", p.Bounds, data.Paths{p})
		}
		check("Paths.Bounds", ps.Bounds, ps)
		var parts []data.LayerPart
		var outlines data.Paths
		for _, p := range ps {
			parts = append(parts, data.NewBasicLayerPart(p, nil))
			outlines = append(outlines, p)
		}
		check("layer Bounds", data.NewPartitionedLayer(parts).Bounds, outlines)
	})
}
