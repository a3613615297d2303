//go:build go1.22

package gcode_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/vh"
)

type partLayer struct {
	data.PartitionedLayer
	parts []data.LayerPart
}

func (l *partLayer) LayerParts() []data.LayerPart { return l.parts }

// point inside a rectangle by a margin, outside by a margin
func inside(p vh.Pt, q []vh.Pt, m int64) bool {
	return p[0] >= q[0][0]+m && p[0] <= q[2][0]-m && p[1] >= q[0][1]+m && p[1] <= q[2][1]-m
}

func TestVerifC18Polygon(t *testing.T) {
	vh.Run(t, "C18", "up to 4 random paths of up to 30 points printed on a layer of up to 3 separate rectangles, some with a hole, or without a layer, with random retraction, z hop and speeds; crossing only decided for paths whose ends are clearly inside one rectangle or clearly outside of all; non-trivial: distinct inputs", func(r *vh.R) {
		o := vh.Options()
		o.Filament.ExtrusionMultiplier = int(r.Int(1, 200))
		o.Filament.FilamentDiameter = data.Micrometer(r.Int(1000, 3000))
		b := gcode.NewGCodeBuilder(&o)
		th, w := r.Int(50, 400), r.Int(100, 1000)
		b.SetExtrusion(data.Micrometer(th), data.Micrometer(w))
		rad := float64(o.Filament.FilamentDiameter) / 2000
		perMM := float64(th) / 1000 * float64(w) / 1000 / (math.Pi * rad * rad) * float64(o.Filament.ExtrusionMultiplier) / 100
		ms, es, ov, rs := int(r.Int(1, 200)), int(r.Int(1, 200)), 0, 0
		if r.One(3) {
			ov = int(r.Int(1, 200))
		}
		ra, hop := 0.0, 0.0
		if !r.One(4) {
			rs = int(r.Int(1, 100))
		}
		if !r.One(4) {
			ra = float64(r.Int(1, 64)) / 8
		}
		if !r.One(3) {
			hop = float64(r.Int(1, 16)) / 8
		}
		b.SetMoveSpeed(data.Millimeter(ms))
		b.SetExtrudeSpeed(data.Millimeter(es))
		b.SetExtrudeSpeedOverride(data.Millimeter(ov))
		b.SetRetractionSpeed(data.Millimeter(rs))
		b.SetRetractionAmount(data.Millimeter(ra))
		b.SetRetractionZHop(data.Millimeter(hop))
		r.Log("thickness %d width %d filament %d %d%% speeds move %d extrude %d override %d retract %d, retraction %v hop %v", th, w, o.Filament.FilamentDiameter, o.Filament.ExtrusionMultiplier, ms, es, ov, rs, ra, hop)
		if ov == 0 {
			ov = es
		}
		var rects, holeOf [][]vh.Pt
		l := &partLayer{}
		for k := r.Intn(4); k > 0; k-- {
			x := int64(len(rects)) * 40000
			q := vh.Rect(x, r.Int(-20000, 0), x+r.Int(5000, 30000), r.Int(5000, 30000))
			rects = append(rects, q)
			var holes data.Paths
			var hole []vh.Pt
			if r.Bool() {
				x0, y0 := r.Int(q[0][0]+1000, q[2][0]-2000), r.Int(q[0][1]+1000, q[2][1]-2000)
				hole = vh.Rect(x0, y0, r.Int(x0+500, q[2][0]-500), r.Int(y0+500, q[2][1]-500))
				h := []vh.Pt{hole[3], hole[2], hole[1], hole[0]}
				holes = append(holes, vh.Path(h))
			}
			holeOf = append(holeOf, hole)
			l.parts = append(l.parts, data.NewBasicLayerPart(vh.Path(q), holes))
		}
		pos, ok, old := vh.Pt{}, false, int64(0) // start of the head is not printed
		m := vh.Machine{}
		done, eAbs := "", 0.0
		z := r.Int(100, 50000)
		for k := r.Intn(r.Size(4)+1) + 1; k > 0; k-- {
			var ps []vh.Pt
			at := func() vh.Pt {
				if len(rects) > 0 && !r.One(4) {
					q := rects[r.Intn(len(rects))]
					return vh.Pt{r.Int(q[0][0], q[2][0]), r.Int(q[0][1], q[2][1])}
				}
				return vh.Pt{r.Int(-20000, 120000), r.Int(-30000, 60000)}
			}
			for n := r.Intn(r.Size(30)+1); n > 0; n-- {
				p := at()
				if r.One(3) && len(ps) > 0 {
					p = vh.Pt{ps[len(ps)-1][0] + r.Int(-30, 30), ps[len(ps)-1][1] + r.Int(-30, 30)}
				}
				ps = append(ps, p)
			}
			open := r.Bool()
			layer := data.PartitionedLayer(l)
			if r.One(4) {
				layer = nil
			}
			if r.One(2) {
				z += r.Int(0, 400)
			}
			r.Log("path %v open %v on layer %v of %v holes %v at %d", ps, open, layer != nil, rects, holeOf, z)
			path := vh.Path(ps)
			err := b.AddPolygon(layer, path, data.Micrometer(z), open)
			r.Check(err == nil, "error %v", err)
			r.Check(fmt.Sprint(vh.Pts(path)) == fmt.Sprint(ps), "the path was changed")
			text := b.String()
			if why := m.Interpret(text[len(done):]); why != "" {
				r.Fail("%s", why)
			}
			done = text
			got := m.Moves
			m.Moves = nil
			if len(ps) == 0 {
				r.Check(len(got) == 0 && len(m.Other) == 0, "empty path printed")
				continue
			}
			// is the way to the path printed with a retraction?
			must, may := false, false
			if layer != nil && rs != 0 && ra != 0 {
				may, must = true, false
				for n := int64(0); n <= 64 && pos != ps[0]; n++ {
					p := vh.Pt{pos[0] + (ps[0][0]-pos[0])*n/64, pos[1] + (ps[0][1]-pos[1])*n/64}
					out := true
					for i, q := range rects {
						if inside(p, q, -20) && (holeOf[i] == nil || !inside(p, holeOf[i], 20)) {
							out = false
						}
					}
					if out {
						must = true
					}
				}
				for i, q := range rects {
					if h := holeOf[i]; inside(pos, q, 20) && inside(ps[0], q, 20) && (h == nil || max(pos[0], ps[0][0]) < h[0][0]-20 || max(pos[1], ps[0][1]) < h[0][1]-20 || min(pos[0], ps[0][0]) > h[2][0]+20 || min(pos[1], ps[0][1]) > h[2][1]+20) {
						may = false
					}
				}
				if pos == ps[0] {
					may = false
				}
				if len(rects) == 0 && pos != ps[0] {
					must = true
				}
			}
			i := 0
			next := func() vh.Move {
				if i >= len(got) {
					r.Fail("only %d moves", len(got))
				}
				i++
				return got[i-1]
			}
			isMove := func(v vh.Move, p vh.Pt, z int64, what string) {
				r.Check(v.G == 0 && v.E == v.E0 && v.At(p[0], p[1], z) && v.F == float64(60*ms), "%s to %v, %d: %+v", what, p, z, v)
			}
			retracted := len(got) > 0 && got[0].G == 1 && got[0].E < got[0].E0 && got[0].F == float64(60*rs)
			r.Check(!retracted || may, "retraction although the way crosses nothing")
			r.Check(retracted || !must, "no retraction although the way leaves the parts")
			eTol := func() float64 { return 0.00021 + 1e-6*eAbs }
			if retracted {
				v := next()
				r.Check(vh.Near(v.E0-v.E, ra, eTol(), 0), "retracted %v instead of %v", v.E0-v.E, ra)
				if ok {
					r.Check(v.At(pos[0], pos[1], old), "moved while retracting: %+v", v)
				}
				lifted := z
				if hop > 0 {
					lifted = z + int64(hop*1000)
					isMove(next(), pos, lifted, "lift")
				}
				if hop > 0 && pos != ps[0] || pos != ps[0] || old != z {
					isMove(next(), ps[0], lifted, "way")
				}
				if hop > 0 {
					isMove(next(), ps[0], z, "drop")
				}
				v = next()
				r.Check(v.G == 1 && vh.Near(v.E-v.E0, ra, eTol(), 0) && v.At(ps[0][0], ps[0][1], z) && v.F == float64(60*rs), "pushing back: %+v", v)
				eAbs += 2 * ra
			} else if !ok || pos != ps[0] || old != z {
				isMove(next(), ps[0], z, "way")
			}
			pos, ok, old = ps[0], true, z
			// the rest of the path: points of the input in order
			line := func(v vh.Move, q vh.Pt) {
				d := math.Hypot(float64(q[0]-pos[0]), float64(q[1]-pos[1])) / 1000
				r.Check(v.At(q[0], q[1], z), "stands on %v %v %v instead of %v", v.X, v.Y, v.Z, q)
				r.Check(v.G == 1 && v.F == float64(60*ov), "line to %v: %+v", q, v)
				r.Check(vh.Near(v.E-v.E0, d*perMM, eTol(), 1e-4), "extruded %v instead of %v", v.E-v.E0, d*perMM)
				eAbs += d * perMM
				pos = q
			}
			sm := vh.Pts(data.DouglasPeucker(vh.Path(ps), -1))
			for _, q := range sm[1:] {
				if q != pos {
					line(next(), q)
				}
			}
			r.Check(pos == ps[len(ps)-1], "the path ends at %v", pos)
			if !open && pos != ps[0] {
				line(next(), ps[0])
			}
			r.Check(i == len(got), "%d moves instead of %d: %+v", len(got), i, got)
			r.Check(len(m.Other) == 0, "other lines: %q", m.Other)
		}
	})
}
