//go:build go1.22

package clip_test

import (
	"fmt"
	"sort"
	"testing"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

type rect struct{ x0, y0, x1, y1 int64 }

func (b rect) has(x, y int64) bool { return b.x0 < x && x < b.x1 && b.y0 < y && y < b.y1 }

// path goes counter-clockwise, or clockwise for holes; it starts anywhere.
func (b rect) path(cw bool, start int) data.Path {
	ps := [][2]int64{{b.x0, b.y0}, {b.x1, b.y0}, {b.x1, b.y1}, {b.x0, b.y1}}
	var p data.Path
	for i := range ps {
		q := ps[(i+start)%4]
		if cw {
			q = ps[(8-i-start)%4]
		}
		p = append(p, data.NewMicroPoint(data.Micrometer(q[0]), data.Micrometer(q[1])))
	}
	return p
}

// piece is a box with boxes cut out, with boxes in these, ...
type piece struct {
	b     rect
	holes []rect
}

func (p piece) has(x, y int64) bool {
	for _, h := range p.holes {
		if h.has(x, y) {
			return false
		}
	}
	return p.b.has(x, y)
}

func anyHas(ps []piece, x, y int64) bool {
	for _, p := range ps {
		if p.has(x, y) {
			return true
		}
	}
	return false
}

func inPath(p data.Path, x, y int64) bool {
	in := false
	for i, a := range p {
		b := p[(i+1)%len(p)]
		ax, ay, bx, by := float64(a.X()), float64(a.Y()), float64(b.X()), float64(b.Y())
		if (ay > float64(y)) != (by > float64(y)) && float64(x) < ax+(float64(y)-ay)*(bx-ax)/(by-ay) {
			in = !in
		}
	}
	return in
}

func inPart(p data.LayerPart, x, y int64) bool {
	if !inPath(p.Outline(), x, y) {
		return false
	}
	for _, h := range p.Holes() {
		if inPath(h, x, y) {
			return false
		}
	}
	return true
}

func count(ps []data.LayerPart, x, y int64) (n int) {
	for _, p := range ps {
		if inPart(p, x, y) {
			n++
		}
	}
	return
}

func area2(p data.Path) (a int64) {
	for i, q := range p {
		n := p[(i+1)%len(p)]
		a += int64(q.X())*int64(n.Y()) - int64(n.X())*int64(q.Y())
	}
	return
}

func text(ps []data.LayerPart) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprint(p == nil) + "{"
		for _, q := range append(data.Paths{p.Outline()}, p.Holes()...) {
			for _, a := range q {
				s += fmt.Sprintf("%d,%d ", a.X(), a.Y())
			}
			s += "|"
		}
		s += "}"
	}
	return s
}

// coords gives different multiples of 100 in a random order.
type coords struct {
	xs, ys []int64
}

func newCoords(r *vh.R, n int) *coords {
	c := &coords{}
	for i := 0; i < n; i++ {
		c.xs = append(c.xs, int64(i-n/2)*100)
		c.ys = append(c.ys, int64(i-n/2)*100)
	}
	for i := n - 1; i > 0; i-- {
		j, k := r.Intn(i+1), r.Intn(i+1)
		c.xs[i], c.xs[j] = c.xs[j], c.xs[i]
		c.ys[i], c.ys[k] = c.ys[k], c.ys[i]
	}
	return c
}

func (c *coords) nested(n int) (bs []rect) {
	xs, ys := append([]int64{}, c.xs[:2*n]...), append([]int64{}, c.ys[:2*n]...)
	c.xs, c.ys = c.xs[2*n:], c.ys[2*n:]
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	sort.Slice(ys, func(i, j int) bool { return ys[i] < ys[j] })
	for i := 0; i < n; i++ {
		bs = append(bs, rect{xs[i], ys[i], xs[2*n-1-i], ys[2*n-1-i]})
	}
	return
}

// operand consists of pieces, most of them with a hole, and islands in the holes.
func operand(r *vh.R, c *coords, n int) (ps []piece) {
	for i := 0; i < n; i++ {
		bs := c.nested(1 + r.Intn(5))
		for len(bs) > 0 {
			p := piece{b: bs[0]}
			bs = bs[1:]
			if len(bs) > 0 {
				p.holes = []rect{bs[0]}
				bs = bs[1:]
			}
			ps = append(ps, p)
		}
	}
	return
}

func parts(r *vh.R, ps []piece) (out []data.LayerPart) {
	for _, p := range ps {
		var holes data.Paths
		for _, h := range p.holes {
			holes = append(holes, h.path(true, r.Intn(4)))
		}
		out = append(out, data.NewBasicLayerPart(p.b.path(false, r.Intn(4)), holes))
	}
	return
}

func whole(r *vh.R, what string, res []data.LayerPart, inside func(x, y int64) bool) {
	for i, p := range res {
		r.Check(area2(p.Outline()) > 0, "%s: outline of part %d is not counter-clockwise", what, i)
		for _, h := range p.Holes() {
			r.Check(area2(h) < 0 && inPath(p.Outline(), (int64(h[0].X())+int64(h[1].X())+int64(h[2].X()))/3, (int64(h[0].Y())+int64(h[1].Y())+int64(h[2].Y()))/3) || len(h) != 4, "%s: part %d has a hole outside of its outline", what, i)
		}
	}
	for k := 0; k < 300; k++ {
		x, y := r.Int(-41, 41)*100+50, r.Int(-41, 41)*100+50
		n := count(res, x, y)
		if inside(x, y) {
			r.Check(n == 1, "%s: %d,%d should be in one part but is in %d of %s", what, x, y, n, text(res))
		} else {
			r.Check(n == 0, "%s: %d,%d should be in no part but is in %d of %s", what, x, y, n, text(res))
		}
	}
}

func TestVerifC11Areas(t *testing.T) {
	vh.RunN(t, "C11", "two operands of up to 4 nests of boxes with up to 5 levels, overlapping within and between operands; membership compared on a grid; non-trivial: distinct inputs", 1<<30, 3, func(r *vh.R) {
		c := newCoords(r, 80)
		A, B := operand(r, c, r.Intn(5)), operand(r, c, r.Intn(5))
		a, b := parts(r, A), parts(r, B)
		ta, tb := text(a), text(b)
		r.Log("A %s B %s", ta, tb)
		cl := clip.NewClipper()
		d, ok1 := cl.Difference(a, b)
		i, ok2 := cl.Intersection(a, b)
		u, ok3 := cl.Union(a, b)
		r.Check(ok1 && ok2 && ok3, "a valid operation failed: %v %v %v", ok1, ok2, ok3)
		r.Check(text(a) == ta && text(b) == tb, "an operand was changed")
		whole(r, "difference", d, func(x, y int64) bool { return anyHas(A, x, y) && !anyHas(B, x, y) })
		whole(r, "intersection", i, func(x, y int64) bool { return anyHas(A, x, y) && anyHas(B, x, y) })
		whole(r, "union", u, func(x, y int64) bool { return anyHas(A, x, y) || anyHas(B, x, y) })
	})
}

type layer struct {
	data.Layer
	ps data.Paths
}

func (l layer) Polygons() data.Paths { return l.ps }

func TestVerifC11Layer(t *testing.T) {
	vh.RunN(t, "C11", "layers with up to 4 nests of closed contours in any order and direction; insets of the parts; top level outlines; hull", 1<<30, 1, func(r *vh.R) {
		c := newCoords(r, 80)
		var bs []rect
		for i, n := 0, r.Intn(5); i < n; i++ {
			bs = append(bs, c.nested(1+r.Intn(6))...)
		}
		var l layer
		for _, i := range perm(r, len(bs)) {
			l.ps = append(l.ps, bs[i].path(r.Bool(), r.Intn(4)))
		}
		r.Log("contours %v", bs)
		cl := clip.NewClipper()
		pl, ok := cl.GenerateLayerParts(l)
		r.Check(ok && pl != nil, "no parts generated")
		whole(r, "layer parts", pl.LayerParts(), func(x, y int64) bool {
			n := 0
			for _, b := range bs {
				if b.has(x, y) {
					n++
				}
			}
			return n%2 == 1
		})

		// boxes side by side: what insets and exsets are is known exactly
		var ps []piece
		for i, n := 0, r.Intn(4); i < n; i++ {
			x := int64(i) * 100000
			p := piece{b: rect{x + r.Int(0, 1000), r.Int(0, 1000), x + r.Int(50000, 80000), r.Int(50000, 80000)}}
			if r.Bool() {
				p.holes = []rect{{x + r.Int(20000, 22000), r.Int(20000, 22000), x + r.Int(26000, 30000), r.Int(26000, 30000)}}
			}
			ps = append(ps, p)
		}
		in := parts(r, ps)
		was := text(in)
		off, first, n := r.Int(1, 900), r.Int(0, 1000), r.Intn(4)
		if r.One(3) { // outwards
			off, first = -off, r.Int(0, 1000)
		}
		res := cl.InsetLayer(in, data.Micrometer(off), n, data.Micrometer(-first))
		r.Check(text(in) == was, "insetting changed the parts")
		r.Check(len(res) == len(ps), "%d parts give insets of %d", len(ps), len(res))
		for i, p := range ps {
			r.Check(len(res[i]) == n, "part %d has %d insets, not %d", i, len(res[i]), n)
			for k := 0; k < n; k++ {
				d := first + int64(k)*off
				r.Check(len(res[i][k]) == 1, "part %d inset %d has %d pieces", i, k, len(res[i][k]))
				q := res[i][k][0]
				r.Check(box(q.Outline()) == rect{p.b.x0 + d, p.b.y0 + d, p.b.x1 - d, p.b.y1 - d}, "part %d %v inset %d by %d has the outline %v", i, p.b, k, d, box(q.Outline()))
				r.Check(len(q.Holes()) == len(p.holes), "part %d inset %d has %d holes", i, k, len(q.Holes()))
				for j, h := range p.holes {
					r.Check(box(q.Holes()[j]) == rect{h.x0 - d, h.y0 - d, h.x1 + d, h.y1 + d}, "hole %v of part %d inset by %d is %v", h, i, d, box(q.Holes()[j]))
				}
			}
		}
		if len(ps) == 0 {
			return
		}
		var inner []data.LayerPart
		for _, p := range ps {
			if len(p.holes) == 0 && r.Bool() {
				inner = append(inner, data.NewBasicLayerPart(rect{p.b.x0 + 5000, p.b.y0 + 5000, p.b.x0 + 9000, p.b.y0 + 9000}.path(false, 0), nil))
			}
		}
		top, ok := cl.TopLevelPolygons(append(inner, in...))
		r.Check(ok && len(top) == len(ps), "%d outlines on top, not %d", len(top), len(ps))
		for _, p := range ps {
			found := 0
			for _, o := range top {
				if box(o) == p.b && len(o) == 4 {
					found++
				}
			}
			r.Check(found == 1, "outline %v is there %d times", p.b, found)
		}
		hull, ok := cl.Hull(append(inner, in...))
		r.Check(ok, "no hull")
		for _, p := range ps {
			for _, q := range p.b.path(false, 0) {
				for i, a := range hull {
					b := hull[(i+1)%len(hull)]
					cr := int64(b.X()-a.X())*int64(q.Y()-a.Y()) - int64(b.Y()-a.Y())*int64(q.X()-a.X())
					r.Check(cr >= 0, "%v is outside of the hull %v", q, hull)
				}
			}
		}
		for _, q := range hull {
			found := false
			for _, p := range ps {
				for _, o := range p.b.path(false, 0) {
					found = found || o.X() == q.X() && o.Y() == q.Y()
				}
			}
			r.Check(found, "hull point %v is no point of an outline", q)
		}
	})
}

func box(p data.Path) rect {
	if len(p) == 0 {
		return rect{}
	}
	b := rect{int64(p[0].X()), int64(p[0].Y()), int64(p[0].X()), int64(p[0].Y())}
	for _, q := range p {
		b.x0, b.x1 = min(b.x0, int64(q.X())), max(b.x1, int64(q.X()))
		b.y0, b.y1 = min(b.y0, int64(q.Y())), max(b.y1, int64(q.Y()))
	}
	return b
}

func perm(r *vh.R, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
