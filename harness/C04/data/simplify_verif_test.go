//go:build go1.22

package data_test

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

func mul(a, b int64) *big.Int { return new(big.Int).Mul(big.NewInt(a), big.NewInt(b)) }

func xy(p data.MicroPoint) (int64, int64) { return int64(p.X()), int64(p.Y()) }

func shoe(a, b data.MicroPoint) *big.Int {
	ax, ay := xy(a)
	bx, by := xy(b)
	return new(big.Int).Sub(mul(ax, by), mul(ay, bx))
}

func len2(a, b data.MicroPoint) *big.Int {
	ax, ay := xy(a)
	bx, by := xy(b)
	return new(big.Int).Add(mul(bx-ax, bx-ax), mul(by-ay, by-ay))
}

// flat reports whether floor(v*v / base) <= limit.
func flat(v, base *big.Int, limit int64) bool {
	return new(big.Int).Mul(v, v).Cmp(new(big.Int).Mul(base, big.NewInt(limit+1))) < 0
}

// onLine reports whether the squared distance of p from the line through a and b is at most 25.
func onLine(a, b, p data.MicroPoint) bool {
	l := len2(a, b)
	if l.Sign() == 0 {
		return len2(a, p).Cmp(big.NewInt(25)) <= 0
	}
	c := new(big.Int).Add(shoe(a, b), shoe(b, p))
	c.Add(c, shoe(p, a))
	return new(big.Int).Mul(c, c).Cmp(new(big.Int).Mul(l, big.NewInt(25))) <= 0
}

func show(p data.Path) string {
	s := ""
	for _, q := range p {
		s += fmt.Sprintf("(%d,%d)", q.X(), q.Y())
	}
	return s
}

func TestVerifC04(t *testing.T) {
	vh.Run(t, "C04", "random polygons of up to 300 vertices and up to 10 m: rings, staircases of tiny steps, slowly curving runs, paths going forth and back, random vertices; default and random limits; non-trivial: distinct inputs", func(r *vh.R) {
		var p data.Path
		scale := []int64{8, 30, 300, 5000, 100000, 10000000}[r.Intn(6)]
		mode := r.Intn(6)
		x, y := r.Int(-scale, scale), r.Int(-scale, scale)
		dx, dy := r.Int(-12, 12), r.Int(-12, 12)
		n := r.Size(300)
		for k := 0; k < n; k++ {
			switch mode {
			case 0:
				x, y = r.Int(-scale, scale), r.Int(-scale, scale)
			case 1:
				x, y = x+r.Int(0, 7), y+r.Int(0, 7)
			case 2:
				dx, dy = dx+int64(r.Intn(3)-1), dy+int64(r.Intn(3)-1)
				x, y = x+dx, y+dy
			case 3:
				x, y = x+scale/20, y+r.Int(-7, 7)
			case 4: // forth and back
				if k%2 == 1 && k > 2 {
					x, y = xy(p[k-2])
				} else {
					x, y = x+r.Int(-scale/9, scale/9), y+r.Int(-40, 40)
				}
			case 5:
				x, y = x+int64(r.Intn(19)-9), y+int64(r.Intn(19)-9)
				if r.One(9) {
					x += scale / 10
				}
			}
			x, y = max(-10000000, min(10000000, x)), max(-10000000, min(10000000, y))
			p = append(p, data.NewMicroPoint(data.Micrometer(x), data.Micrometer(y)))
		}
		small, allowed := int64(100), int64(25)
		a1, a2 := data.Micrometer(-1), data.Micrometer(-1)
		if r.One(3) {
			small = []int64{0, 100, 1 + r.Int(0, 5000), scale * scale / 50, scale * scale}[r.Intn(5)]
			a1 = data.Micrometer(small)
		}
		if r.One(3) {
			allowed = []int64{0, 25, r.Int(0, 100), r.Int(0, 100000), scale * scale / 50}[r.Intn(5)]
			a2 = data.Micrometer(allowed)
		}
		before := show(p)
		r.Log("limits %d %d polygon %s", a1, a2, before)
		orig := append(data.Path{}, p...)
		big_ := append(append(data.Path{}, p...), data.NewMicroPoint(77, 77))
		in := big_[:len(p)]
		out := in.Simplify(a1, a2)
		res := show(out)
		for k := range orig {
			r.Check(in[k] == orig[k], "vertex %d of the polygon was replaced", k)
		}
		bx, by := xy(big_[len(p)])
		r.Check(bx == 77 && by == 77 && show(p) == before, "the polygon was modified: %s", show(p))
		if len(p) <= 2 {
			r.Check(len(out) == 0, "a polygon of %d points became %s", len(p), res)
			return
		}
		if len(p) == 3 {
			r.Check(res == before, "the triangle became %s", res)
			return
		}
		// place of the kept vertices
		at := map[data.MicroPoint]int{}
		for k, q := range p {
			at[q] = k
		}
		var place []int
		last := -1
		exact := true
		for k, q := range out {
			m, ok := at[q]
			if !ok { // a copy of the vertex
				exact = false
				for m = last + 1; m < len(p); m++ {
					px, py := xy(p[m])
					qx, qy := xy(q)
					if px == qx && py == qy {
						break
					}
				}
			}
			r.Check(m > last && m < len(p), "vertex %d of the result is not a later vertex of the polygon: %s", k, res)
			place = append(place, m)
			last = m
		}
		if !exact && mode == 4 {
			return // equal vertices: the places are ambiguous
		}
		kept := 0 // kept before the current vertex
		prev := p[len(p)-1]
		area := shoe(prev, p[0])
		for k, q := range p {
			var next data.MicroPoint
			switch {
			case k+1 < len(p):
				next = p[k+1]
			case kept > 1:
				next = out[0]
			default:
				next = p[0]
			}
			area = new(big.Int).Add(area, shoe(q, next))
			if kept < len(place) && place[kept] == k {
				kept++
				prev = q
				area = shoe(q, next)
				continue
			}
			cut := new(big.Int).Add(area, shoe(next, prev))
			base := len2(prev, next)
			ok := base.Sign() == 0
			ok = ok || flat(cut, base, 25) && onLine(q, prev, next)
			ok = ok || len2(prev, q).Cmp(big.NewInt(small)) < 0 && len2(q, next).Cmp(big.NewInt(small)) < 0 && flat(cut, base, allowed)
			r.Check(ok, "vertex %d (%d,%d) was dropped between (%d,%d) and (%d,%d): cut off area (doubled) %v, result %s", k, q.X(), q.Y(), prev.X(), prev.Y(), next.X(), next.Y(), cut, res)
		}
	})
}
