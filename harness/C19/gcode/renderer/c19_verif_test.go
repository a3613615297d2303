//go:build go1.22

package renderer_test

import (
	"math"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/vh"
	"github.com/aligator/goslice/vhp"
)

func perMM(o *data.Options, thickness data.Micrometer) float64 {
	d := float64(o.Filament.FilamentDiameter)
	return float64(thickness) * float64(o.Printer.ExtrusionWidth) / (math.Pi * d * d / 4) * float64(o.Filament.ExtrusionMultiplier) / 100
}

func setup(r *vh.R, o *data.Options) {
	o.Filament.FilamentDiameter = data.Micrometer(r.Int(500, 4000))
	o.Printer.StartGCode, o.Printer.EndGCode = data.NewGCodeHunk(nil), data.NewGCodeHunk(nil)
	o.Filament.ExtrusionMultiplier = int(r.Int(1, 300))
	o.Printer.ExtrusionWidth = data.Micrometer(r.Int(100, 4000))
	o.Print.InitialLayerThickness = data.Micrometer(r.Int(20, 800))
	o.Print.LayerThickness = data.Micrometer(r.Int(20, 800))
	r.Log("filament %d multiplier %d width %d thickness %d and %d", o.Filament.FilamentDiameter, o.Filament.ExtrusionMultiplier, o.Printer.ExtrusionWidth, o.Print.InitialLayerThickness, o.Print.LayerThickness)
}

func TestVerifC19Flow(t *testing.T) {
	vh.RunN(t, "C19", "filament 0.5-4 mm, multiplier 1-300 percent, width 0.1-4 mm, layers 0.02-0.8 mm, one segment of 1-1000 mm on layers 0 to 4; non-trivial: distinct inputs", 1<<30, 0.5, func(r *vh.R) {
		o := vh.Options()
		setup(r, &o)
		b := gcode.NewGCodeBuilder(&o)
		m := vh.Machine{}
		for l := 0; l < 5; l++ {
			thickness := o.Print.LayerThickness
			if l == 0 {
				thickness = o.Print.InitialLayerThickness
			}
			err := renderer.PreLayer{}.Render(b, l, 9, nil, 0, &o)
			r.Check(err == nil, "error %v", err)
			dx, dy := r.Int(1000, 1000000), r.Int(-1000000, 1000000)
			n := len(m.Moves)
			err = b.AddPolygon(nil, vh.Path([]vh.Pt{{0, 0}, {dx, dy}}), thickness, true)
			r.Check(err == nil, "error %v", err)
			renderer.PostLayer{}.Render(b, l, 9, nil, 0, &o)
			m = vh.Machine{}
			r.Check(m.Interpret(b.String()) == "", "cannot be read: %s", b.String())
			r.Check(len(m.Moves) == n+2, "%d moves instead of 2", len(m.Moves)-n)
			v := m.Moves[n+1]
			want := math.Hypot(float64(dx), float64(dy)) / 1000 * perMM(&o, thickness)
			r.Check(vh.Near(v.E-v.E0, want, 2e-4+v.E*3e-7, 1e-5), "layer %d: %f extruded for %f mm instead of %f", l, v.E-v.E0, math.Hypot(float64(dx), float64(dy))/1000, want)
		}
	})
}

func TestVerifC19Pipeline(t *testing.T) {
	vh.RunN(t, "C19-pipeline", "whole pipeline on boxes of 5-30 mm with up to 6 layers, the same options; non-trivial: distinct inputs", 1<<30, 0.5, func(r *vh.R) {
		o := vh.Options()
		setup(r, &o)
		o.Printer.ExtrusionWidth = data.Micrometer(r.Int(300, 800))
		o.Print.NumberBottomLayers, o.Print.NumberTopLayers = r.Intn(2), r.Intn(2)
		o.Print.Support.Enabled = r.Bool()
		o.Print.BrimSkirt.BrimCount, o.Print.BrimSkirt.SkirtCount = r.Intn(3), r.Intn(3)
		n := r.Int(1, 6)
		h := int64(o.Print.InitialLayerThickness) + (n-1)*int64(o.Print.LayerThickness) + 1
		size := r.Int(5000, 30000)
		r.Log("box %d x %d x %d", size, size, h)
		res := vhp.Slice(&vh.Mesh{Ts: vh.Box(vh.V{0, 0, 0}, vh.V{size, size, h})}, o)
		if res.Err != nil {
			r.Fail("error %v", res.Err)
		}
		m := vh.Machine{}
		r.Check(m.Interpret(res.GCode) == "", "cannot be read")
		p := vh.Move{X: math.NaN()}
		for _, v := range m.Moves {
			if l := math.Hypot(v.X-p.X, v.Y-p.Y); v.G == 1 && l > 1 {
				thickness := o.Print.LayerThickness
				if math.Abs(v.Z*1000-float64(o.Print.InitialLayerThickness)) < 8 {
					thickness = o.Print.InitialLayerThickness
				}
				f := perMM(&o, thickness)
				r.Check(vh.Near(v.E-v.E0, l*f, 3e-4+f*0.03+v.E*3e-6, 1e-4), "line %d at z %f: %f extruded for %f mm instead of %f", v.Line, v.Z, v.E-v.E0, l, l*f)
			}
			p = v
		}
	})
}
