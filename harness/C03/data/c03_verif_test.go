//go:build go1.22

package data_test

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

func sq(a, b int64) *big.Int { return new(big.Int).Mul(big.NewInt(a), big.NewInt(b)) }

// below reports whether the squared distance of p from the line through a and b is below eps.
func below(a, b, p data.MicroPoint, eps int64) bool {
	dx, dy := int64(b.X()-a.X()), int64(b.Y()-a.Y())
	px, py := int64(p.X()-a.X()), int64(p.Y()-a.Y())
	l := new(big.Int).Add(sq(dx, dx), sq(dy, dy))
	if l.Sign() == 0 {
		return new(big.Int).Add(sq(px, px), sq(py, py)).Cmp(big.NewInt(eps)) < 0
	}
	c := new(big.Int).Sub(sq(dx, py), sq(dy, px))
	return new(big.Int).Mul(c, c).Cmp(new(big.Int).Mul(l, big.NewInt(eps))) < 0
}

func TestVerifC03(t *testing.T) {
	vh.Run(t, "C03", "random paths of up to 400 distinct points: random walks, zig-zags, long almost straight runs and arcs of up to 10 m; tolerances from 1 square micrometer on; non-trivial: distinct inputs", func(r *vh.R) {
		var p data.Path
		seen := map[[2]int64]bool{}
		scale := []int64{3, 20, 200, 3000, 100000, 2000000, 10000000}[r.Intn(7)]
		x, y := r.Int(-scale, scale), r.Int(-scale, scale)
		dx, dy := r.Int(-scale/5, scale/5), r.Int(-scale/5, scale/5)
		mode := r.Intn(4)
		for k, n := 0, r.Size(400); k < n; k++ {
			switch mode {
			case 0:
				x, y = r.Int(-scale, scale), r.Int(-scale, scale)
			case 1:
				x, y = x+dx+r.Int(-9, 9), y+dy+r.Int(-9, 9)
			case 2:
				x, y = x+dx/20+r.Int(-30, 30), y+int64(r.Intn(25))
			case 3:
				x, y = x+r.Int(0, scale/10+1), y+r.Int(-12, 12)
			}
			x, y = max(-10000000, min(10000000, x)), max(-10000000, min(10000000, y))
			if seen[[2]int64{x, y}] {
				continue
			}
			seen[[2]int64{x, y}] = true
			p = append(p, data.NewMicroPoint(data.Micrometer(x), data.Micrometer(y)))
		}
		if r.One(8) && len(p) > 2 {
			p = append(p, data.NewMicroPoint(p[0].X(), p[0].Y())) // closed
		}
		eps := []int64{1, 2, 70, 25, r.Int(1, 100000), r.Int(1, scale*scale/4+1), 70}[r.Intn(7)]
		arg := data.Micrometer(eps)
		if eps == 70 && r.Bool() {
			arg = -1
		}
		s := ""
		for _, q := range p {
			s += fmt.Sprintf("(%d,%d)", q.X(), q.Y())
		}
		r.Log("tolerance %d path %s", arg, s)
		orig := append(data.Path{}, p...)
		big := append(append(data.Path{}, p...), data.NewMicroPoint(77, 77), data.NewMicroPoint(78, 78))
		in := big[:len(p)]
		out := data.DouglasPeucker(in, arg)
		var vals [][2]int64
		for _, q := range out {
			vals = append(vals, [2]int64{int64(q.X()), int64(q.Y())})
		}
		for k := range orig {
			r.Check(in[k] == orig[k], "point %d of the input was replaced", k)
		}
		r.Check(big[len(p)].X() == 77 && big[len(p)+1].X() == 78, "memory behind the input was changed")
		s2 := ""
		for _, q := range p {
			s2 += fmt.Sprintf("(%d,%d)", q.X(), q.Y())
		}
		r.Check(s == s2, "the points of the input were changed: %s", s2)
		if len(p) == 0 {
			r.Check(len(out) == 0, "an empty path became %v", vals)
			return
		}
		r.Check(len(out) >= min(len(p), 2), "only %d points left", len(out))
		is := func(a, b data.MicroPoint) bool { return a.X() == b.X() && a.Y() == b.Y() }
		r.Check(is(out[0], p[0]) && is(out[len(out)-1], p[len(p)-1]), "the ends were not kept: %v", vals)
		j := 0 // index in p of the point kept last
		for k := 1; k < len(out); k++ {
			from := j
			j++
			if k == len(out)-1 {
				j = len(p) - 1
			}
			for j < len(p) && !is(p[j], out[k]) {
				j++
			}
			r.Check(j < len(p) && j > from, "result point %d (%d,%d) is not a later point of the path: %v", k, out[k].X(), out[k].Y(), vals)
			for d := from + 1; d < j; d++ {
				r.Check(below(out[k-1], out[k], p[d], eps), "dropped point (%d,%d) is not within the tolerance of (%d,%d)-(%d,%d)", p[d].X(), p[d].Y(), out[k-1].X(), out[k-1].Y(), out[k].X(), out[k].Y())
			}
		}
	})
}
