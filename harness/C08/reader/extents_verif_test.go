//go:build go1.22

package reader_test

import (
	"encoding/binary"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/reader"
	"github.com/aligator/goslice/vh"
)

func TestVerifC08Read(t *testing.T) {
	name := filepath.Join(t.TempDir(), "m.stl")
	vh.RunN(t, "C08", "models read from random binary files of up to 300 triangles of up to 10 m", 1<<30, 0.5, func(r *vh.R) {
		m := vh.RandMesh(r, r.Size(300)+2, []int64{40, 3000, 200000, 4000000}[r.Intn(4)])
		r.Log("mesh %v", m)
		b := binary.LittleEndian.AppendUint32(make([]byte, 80), uint32(len(m.Ts)))
		for _, f := range m.Ts {
			b = append(b, make([]byte, 12)...)
			for _, v := range f {
				for _, c := range v {
					b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(c)/1000))
				}
			}
			b = append(b, 0, 0)
		}
		if err := os.WriteFile(name, b, 0o644); err != nil {
			t.Fatal(err)
		}
		om, err := reader.Reader(&data.Options{}).Read(name)
		r.Check(err == nil, "error %v", err)
		n := om.FaceCount()
		var ts []vh.T
		for k := 0; k < n; k++ {
			ts = append(ts, vh.Tri(om.Face(k)))
		}
		want := &vh.Mesh{Ts: ts}
		for rep := 0; rep < 2; rep++ {
			r.Check(vh.Val(om.Min()) == vh.Val(want.Min()), "Min is %v instead of %v", vh.Val(om.Min()), vh.Val(want.Min()))
			r.Check(vh.Val(om.Max()) == vh.Val(want.Max()), "Max is %v instead of %v", vh.Val(om.Max()), vh.Val(want.Max()))
		}
		for k := 0; k < n; k++ {
			r.Check(vh.Tri(om.Face(k)) == ts[k], "face %d changed from %v to %v", k, ts[k], vh.Tri(om.Face(k)))
		}
	})
}
