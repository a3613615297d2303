//go:build go1.22

package optimizer_test

import (
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/vh"
)

func TestVerifC08Optimized(t *testing.T) {
	vh.RunN(t, "C08", "optimized random meshes of up to 300 triangles (soups, boxes, separate triangles) of up to 10 m: model extents and lowest and highest height of each face; non-trivial: distinct inputs", 1<<30, 0.5, func(r *vh.R) {
		m := vh.RandMesh(r, r.Size(300)+2, []int64{40, 3000, 200000, 4000000}[r.Intn(4)])
		o := vh.Options()
		o.Printer.Center = vh.Vec(vh.V{r.Int(-500000, 500000), r.Int(-500000, 500000), r.Int(-500000, 500000)})
		r.Log("mesh %v center %v", m, vh.Val(o.Printer.Center))
		om, err := optimizer.NewOptimizer(&o).Optimize(m)
		r.Check(err == nil, "error %v", err)
		n := om.FaceCount()
		if n == 0 {
			r.Skip()
		}
		var ts []vh.T
		for k := 0; k < n; k++ {
			ts = append(ts, vh.Tri(om.Face(k)))
		}
		want := &vh.Mesh{Ts: ts}
		for rep := 0; rep < 2; rep++ {
			r.Check(vh.Val(om.Min()) == vh.Val(want.Min()), "Min is %v instead of %v", vh.Val(om.Min()), vh.Val(want.Min()))
			r.Check(vh.Val(om.Max()) == vh.Val(want.Max()), "Max is %v instead of %v", vh.Val(om.Max()), vh.Val(want.Max()))
			for k := 0; k < n; k++ {
				f := om.OptimizedFace(k)
				lo, hi := ts[k][0][2], ts[k][0][2]
				for _, v := range ts[k] {
					lo, hi = min(lo, v[2]), max(hi, v[2])
				}
				r.Check(f.MinZ() == data.Micrometer(lo), "MinZ of face %d is %d instead of %d", k, f.MinZ(), lo)
				r.Check(f.MaxZ() == data.Micrometer(hi), "MaxZ of face %d is %d instead of %d", k, f.MaxZ(), hi)
			}
		}
		r.Check(om.FaceCount() == n, "the number of faces changed")
		for k := 0; k < n; k++ {
			r.Check(vh.Tri(om.Face(k)) == ts[k], "face %d changed from %v to %v", k, ts[k], vh.Tri(om.Face(k)))
		}
	})
}
