//go:build go1.22

package renderer_test

import (
	"errors"
	"math"
	"strings"
	"testing"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/vh"
	"github.com/aligator/goslice/vhp"
)

// loop is a path which has to be printed
type loop struct {
	pts   []vh.Pt
	open  bool
	speed int
	kind  string
}

// path without anything to smooth
func path(r *vh.R, open bool) []vh.Pt {
	x, y, a, b := 20*r.Int(-3000, 3000), 20*r.Int(-3000, 3000), 20*r.Int(50, 500), 20*r.Int(50, 500)
	p := vh.Rect(x, y, x+a, y+b)[:2+r.Intn(3)]
	if !open && len(p) == 2 {
		p = append(p, vh.Pt{x, y + b})
	}
	return p
}

type pattern struct {
	lines map[data.MicroPoint][]data.Path
	fail  data.MicroPoint
	calls int
	bad   int
	nr    int
}

func (p *pattern) Fill(layerNr int, part data.LayerPart) (data.Paths, error) {
	p.calls++
	if layerNr != p.nr {
		p.bad++
	}
	if p.fail == part.Outline()[0] {
		return nil, errors.New("no pattern")
	}
	return p.lines[part.Outline()[0]], nil
}

func TestVerifC21Features(t *testing.T) {
	vh.RunN(t, "C21", "layers with up to 4 parts of up to 4 insets of up to 3 pieces with up to 3 holes, up to 6 brim pieces and up to 5 parts to fill with up to 5 lines, absent and wrong attributes, failing patterns; non-trivial: something has to be printed", 1<<30, 0.5, func(r *vh.R) {
		o := vh.Options()
		o.Printer.StartGCode = data.NewGCodeHunk(nil)
		o.Filament.RetractionSpeed = 0
		o.Filament.InitialTemperatureLayerCount = 99
		o.Print.LayerSpeed, o.Print.OuterPerimeterSpeed, o.Print.IntialLayerSpeed, o.Print.MoveSpeed = data.Millimeter(10+r.Intn(3)), data.Millimeter(20+r.Intn(3)), data.Millimeter(30+r.Intn(3)), data.Millimeter(40+r.Intn(3))
		nr := r.Intn(3)
		z := data.Micrometer(10 * r.Int(0, 1000))
		var want []loop
		layerSpeed, outerSpeed := int(o.Print.LayerSpeed), int(o.Print.OuterPerimeterSpeed)
		if nr == 0 {
			layerSpeed, outerSpeed = int(o.Print.IntialLayerSpeed), int(o.Print.IntialLayerSpeed)
		}
		attr := map[string]interface{}{}
		part := func(holes int) data.LayerPart {
			var h data.Paths
			for ; holes > 0; holes-- {
				h = append(h, vh.Path(path(r, false)))
			}
			return data.NewBasicLayerPart(vh.Path(path(r, false)), h)
		}
		add := func(p data.Path, open bool, speed int, kind string) {
			want = append(want, loop{vh.Pts(p), open, speed, kind})
		}
		if r.Bool() {
			var brim clip.OffsetResult
			for p := r.Intn(3); p > 0; p-- {
				var lines [][]data.LayerPart
				for i := r.Intn(3); i > 0; i-- {
					var pieces []data.LayerPart
					for j := r.Intn(3); j > 0; j-- {
						pieces = append(pieces, part(0))
						add(pieces[len(pieces)-1].Outline(), false, layerSpeed, "SKIRT")
					}
					lines = append(lines, pieces)
				}
				brim = append(brim, lines)
			}
			attr["brim"] = brim
		}
		if r.Intn(4) > 0 {
			var per clip.OffsetResult
			for p := r.Intn(4); p > 0; p-- {
				var insets [][]data.LayerPart
				for i := r.Intn(4); i > 0; i-- {
					var pieces []data.LayerPart
					for j := r.Intn(3); j > 0; j-- {
						pieces = append(pieces, part(r.Intn(3)))
					}
					insets = append(insets, pieces)
				}
				per = append(per, insets)
				order := []int{}
				for i := 1; i < len(insets); i++ {
					order = append(order, i)
				}
				if len(insets) > 0 {
					order = append(order, 0)
				}
				for _, i := range order {
					speed, kind := layerSpeed, "WALL-INNER"
					if i == 0 {
						speed, kind = outerSpeed, "WALL-OUTER"
					}
					for _, piece := range insets[i] {
						for _, h := range piece.Holes() {
							add(h, false, speed, kind)
						}
						add(piece.Outline(), false, speed, kind)
					}
				}
			}
			attr["perimeters"] = per
		}
		pat := &pattern{lines: map[data.MicroPoint][]data.Path{}, nr: nr}
		failed := false
		if r.Intn(4) > 0 {
			var parts []data.LayerPart
			for p := r.Intn(4); p > 0; p-- {
				q := part(r.Intn(2))
				parts = append(parts, q)
				k := q.Outline()[0]
				if r.Intn(20) == 0 {
					pat.fail, failed = k, true
				}
				for l := r.Intn(4); l > 0; l-- {
					pat.lines[k] = append(pat.lines[k], vh.Path(path(r, true)))
					if !failed {
						add(pat.lines[k][len(pat.lines[k])-1], true, layerSpeed, "FILL")
					}
				}
			}
			attr["fill"] = parts
		}
		wrong := ""
		if r.Intn(15) == 0 {
			wrong = []string{"brim", "perimeters", "fill"}[r.Intn(3)]
			attr[wrong] = 5
		}
		layer := data.PartitionedLayer(partitioned{attr})
		r.Log("layer %d at %d, wrong %q, attributes %v, wanted %v", nr, z, wrong, attr, want)
		b := gcode.NewGCodeBuilder(&o)
		err := renderer.PreLayer{}.Render(b, nr, 9, layer, z, &o)
		if err == nil && nr != 0 {
			b.SetMoveSpeed(o.Print.MoveSpeed)
			b.SetExtrusion(200, 400)
		}
		fill := &renderer.Infill{PatternSetup: func(_, _ data.MicroPoint) clip.Pattern { return pat }, AttrName: "fill", Comments: []string{"TYPE:FILL"}}
		fill.Init(&vhModel{})
		for _, rend := range []gcode.Renderer{renderer.Brim{}, renderer.Perimeter{}, fill} {
			if err == nil {
				err = rend.Render(b, nr, 9, layer, z, &o)
			}
		}
		if wrong != "" || failed {
			r.Check(err != nil, "no error")
			return
		}
		r.Check(err == nil, "error %v", err)
		r.Check(pat.bad == 0, "pattern asked for wrong layer")
		m := vh.Machine{}
		s := m.Interpret(b.String())
		r.Check(s == "", "%s", s)
		k := 0
		next := func() (v vh.Move) {
			if k >= len(m.Moves) {
				r.Fail("only %d moves, wanted %v\n%s", k, want, b.String())
			}
			k++
			return m.Moves[k-1]
		}
		last := vh.Move{X: math.NaN()}
		for n, w := range want {
			first := true
			pts := w.pts
			if !w.open {
				pts = append(append([]vh.Pt{}, pts...), pts[0])
			}
			for _, p := range pts {
				if first && last.At(p[0], p[1], int64(z)) {
					first = false
					continue // no move needed
				}
				v := next()
				r.Check(v.At(p[0], p[1], int64(z)), "path %d %v: move %+v instead of %v at %d\n%s", n, w, v, p, z, b.String())
				if first {
					r.Check(v.G == 0, "path %d %v: extrudes on the way", n, w)
				} else {
					r.Check(v.G == 1 && v.E > v.E0 && v.F == float64(w.speed*60) && v.Type == w.kind, "path %d %v: printed as %+v\n%s", n, w, v, b.String())
				}
				first, last = false, v
			}
		}
		r.Check(k == len(m.Moves), "%d moves instead of %d\n%s", len(m.Moves), k, b.String())
		if len(want) == 0 {
			r.Skip()
		}
	})
}

type partitioned struct{ attr map[string]interface{} }

func (p partitioned) LayerParts() []data.LayerPart       { return nil }
func (p partitioned) Attributes() map[string]interface{} { return p.attr }
func (p partitioned) Bounds() (data.MicroPoint, data.MicroPoint) {
	return data.NewMicroPoint(0, 0), data.NewMicroPoint(0, 0)
}

// vhModel has only an extent
type vhModel struct{ data.OptimizedModel }

func (vhModel) Min() data.MicroVec3 { return data.NewMicroVec3(0, 0, 0) }
func (vhModel) Max() data.MicroVec3 { return data.NewMicroVec3(1, 1, 1) }

func TestVerifC21Pipeline(t *testing.T) {
	vh.RunN(t, "C21-pipeline", "whole pipeline on up to three boxes of 5-15 mm with up to 8 layers; non-trivial: distinct inputs", 1<<30, 0.5, func(r *vh.R) {
		o := vh.Options()
		o.Printer.StartGCode, o.Printer.EndGCode = data.NewGCodeHunk(nil), data.NewGCodeHunk(nil)
		o.Print.LayerSpeed, o.Print.OuterPerimeterSpeed, o.Print.IntialLayerSpeed, o.Print.MoveSpeed = 61, 43, 31, 151
		o.Print.NumberBottomLayers, o.Print.NumberTopLayers = r.Intn(3), r.Intn(3)
		o.Print.Support.Enabled = r.Bool()
		o.Print.InsetCount = 1 + r.Intn(3)
		o.Print.InfillPercent = r.Intn(3) * 20
		o.Print.BrimSkirt.BrimCount, o.Print.BrimSkirt.SkirtCount = r.Intn(3), r.Intn(3)
		mesh := &vh.Mesh{}
		n := r.Intn(3) + 1
		for k := 0; k < n; k++ {
			x, s, h := int64(k)*20000, r.Int(5000, 15000), 200+200*r.Int(0, 7)
			r.Log("box at %d: %d x %d", x, s, h)
			mesh.Ts = append(mesh.Ts, vh.Box(vh.V{x, 0, 0}, vh.V{x + s, s, h})...)
		}
		res := vhp.Slice(mesh, o)
		r.Check(res.Err == nil, "error %v", res.Err)
		m := vh.Machine{}
		s := m.Interpret(res.GCode)
		r.Check(s == "", "%s", s)
		at := func(l int) float64 {
			return float64(o.Print.InitialLayerThickness+data.Micrometer(l)*o.Print.LayerThickness) / 1000
		}
		// lines of the G-code per layer
		layer, starts := -1, []int{}
		for k, l := range strings.Split(res.GCode, "\n") {
			if strings.HasPrefix(l, ";LAYER:") {
				starts = append(starts, k)
			}
		}
		for _, v := range m.Moves {
			for layer+1 < len(starts) && starts[layer+1] < v.Line {
				layer++
			}
			if v.G == 0 || !strings.ContainsAny(v.Words, "XY") {
				continue
			}
			if strings.Contains(v.Words, "Z") || v.E < v.E0 {
				continue // retraction
			}
			r.Check(math.Abs(v.Z-at(layer)) < 0.0051, "line %d of layer %d printed at %f", v.Line, layer, v.Z)
			speed := 61.0
			if layer == 0 {
				speed = 31
			} else if v.Type == "WALL-OUTER" {
				speed = 43
			}
			r.Check(v.F == speed*60, "line %d of layer %d (%s) printed with speed %f", v.Line, layer, v.Type, v.F/60)
		}
	})
}
