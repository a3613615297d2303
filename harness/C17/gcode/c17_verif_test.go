//go:build go1.22

package gcode_test

import (
	"math"
	"strings"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/vh"
)

func TestVerifC17Moves(t *testing.T) {
	vh.Run(t, "C17", "up to 40 moves with positions that often stay the same, extrusions and retractions, speeds and speed settings in between; non-trivial: distinct inputs", func(r *vh.R) {
		o := vh.Options()
		b := gcode.NewGCodeBuilder(&o)
		m := vh.Machine{}
		done, nMoves := "", 0
		sum, abs := 0.0, 0.0
		var x, y, z int64
		move, extrude, override := 0, 0, 0
		speed := func() int { return int(r.Int(0, 300)) }
		for k := r.Intn(r.Size(40)+1) + 1; k > 0; k-- {
			switch r.Intn(8) {
			case 0:
				move = speed()
				r.Log("move speed %d", move)
				b.SetMoveSpeed(data.Millimeter(move))
			case 1:
				extrude = speed()
				r.Log("extrude speed %d", extrude)
				b.SetExtrudeSpeed(data.Millimeter(extrude))
			case 2:
				if override = speed(); r.One(2) {
					override = 0
				}
				r.Log("override %d", override)
				if override == 0 {
					b.DisableExtrudeSpeedOverride()
				} else {
					b.SetExtrudeSpeedOverride(data.Millimeter(override))
				}
			default:
				c := func(v *int64) {
					switch r.Intn(4) {
					case 0:
						*v = r.Int(-1000000, 1000000)
					case 1:
						*v += r.Int(-9, 9)
					case 2:
						*v = 0
					}
				}
				ox, oy, oz := x, y, z
				if !r.One(4) {
					c(&x)
					c(&y)
					c(&z)
				}
				e := 0.0
				switch r.Intn(4) {
				case 0:
					e = float64(r.Int(-100000, 100000)) / 4096
				case 1:
					e = float64(r.Int(0, 20)) / 1024
				case 2:
					if r.One(3) {
						e = float64(r.Int(1, 20)) / 1048576
					}
				}
				p := vh.Vec(vh.V{x, y, z})
				s := move
				if e != 0 {
					if s = extrude; override > 0 {
						s = override
					}
				}
				if r.One(3) {
					s = speed()
					r.Log("move to %d %d %d extrude %v speed %d", x, y, z, e, s)
					b.AddMoveSpeed(p, data.Millimeter(e), s)
				} else {
					r.Log("move to %d %d %d extrude %v", x, y, z, e)
					b.AddMove(p, data.Millimeter(e))
				}
				sum += e
				abs += math.Abs(e)
				text := b.String()
				r.Check(strings.HasPrefix(text, done), "earlier text changed")
				if why := m.Interpret(text[len(done):]); why != "" {
					r.Fail("%s", why)
				}
				done = text
				n := len(m.Moves) - nMoves
				nMoves = len(m.Moves)
				if n == 0 {
					r.Check(nMoves > 0 && ox == x && oy == y && oz == z && e == 0, "a move was omitted")
					break
				}
				r.Check(n == 1, "%d moves instead of one", n)
				v := m.Moves[nMoves-1]
				want := 0
				if e != 0 {
					want = 1
				}
				r.Check(v.G == want, "G%d for extrusion %v", v.G, e)
				r.Check(v.At(x, y, z), "stands on %v %v %v", v.X, v.Y, v.Z)
				r.Check(v.F == float64(60*s), "speed %v mm/min instead of %d", v.F, 60*s)
				tol := 0.0001 + 1e-6*abs
				if e == 0 {
					r.Check(v.E == v.E0, "extruded %v without extrusion", v.E-v.E0)
				} else {
					r.Check(vh.Near(v.E, sum, tol, 0), "extruded %v instead of %v", v.E, sum)
				}
			}
		}
		r.Check(len(m.Other) == 0, "other lines: %q", m.Other)
	})
}
