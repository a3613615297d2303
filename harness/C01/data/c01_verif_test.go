//go:build go1.22

package data_test

import (
	"math/big"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

type um = data.Micrometer

const lim = 10000000

func xy(p data.MicroPoint) [2]int64 { return [2]int64{int64(p.X()), int64(p.Y())} }
func xyz(p data.MicroVec3) [3]int64 { return [3]int64{int64(p.X()), int64(p.Y()), int64(p.Z())} }
func quo(a, b int64) int64          { return new(big.Int).Quo(big.NewInt(a), big.NewInt(b)).Int64() }

func TestVerifC01(t *testing.T) {
	vh.Run(t, "C01", "random coordinates up to 10 m, factors up to 10^11, operands sometimes the same object; non-trivial: all", func(r *vh.R) {
		ax, ay, az := r.Int(-lim, lim), r.Int(-lim, lim), r.Int(-lim, lim)
		bx, by, bz := r.Int(-lim, lim), r.Int(-lim, lim), r.Int(-lim, lim)
		k := r.Int(-100000000000, 100000000000)
		alias := r.One(5)
		l := r.Int(-1000, lim)
		if r.One(4) {
			ax, ay, az = r.Int(-5, 5), r.Int(-5, 5), r.Int(-5, 5)
			l = r.Int(-6, 6)
		}
		a, b := data.NewMicroPoint(um(ax), um(ay)), data.NewMicroPoint(um(bx), um(by))
		v, w := data.NewMicroVec3(um(ax), um(ay), um(az)), data.NewMicroVec3(um(bx), um(by), um(bz))
		if alias {
			b, w = a, v
			bx, by, bz = ax, ay, az
		}
		r.Log("a=(%d,%d,%d) b=(%d,%d,%d) k=%d length=%d alias=%v", ax, ay, az, bx, by, bz, k, l, alias)
		A, B := [2]int64{ax, ay}, [2]int64{bx, by}
		V, W := [3]int64{ax, ay, az}, [3]int64{bx, by, bz}
		same := func(what string) {
			r.Check(xy(a) == A && xy(b) == B && xyz(v) == V && xyz(w) == W, "%s changed an operand", what)
		}
		p2 := func(what string, p data.MicroPoint, x, y int64) {
			r.Check(xy(p) == [2]int64{x, y}, "point %s: got %v want (%d,%d)", what, xy(p), x, y)
			same(what)
			p.SetX(um(x + 1))
			r.Check(xy(p) == [2]int64{x + 1, y}, "%s: SetX", what)
			p.SetY(um(y - 1))
			r.Check(xy(p) == [2]int64{x + 1, y - 1}, "%s: SetY", what)
			same("changing the result of " + what)
		}
		p3 := func(what string, p data.MicroVec3, x, y, z int64) {
			r.Check(xyz(p) == [3]int64{x, y, z}, "vector %s: got %v want (%d,%d,%d)", what, xyz(p), x, y, z)
			same(what)
			p.SetX(um(x + 1))
			r.Check(xyz(p) == [3]int64{x + 1, y, z}, "%s: SetX", what)
			p.SetY(um(y - 1))
			r.Check(xyz(p) == [3]int64{x + 1, y - 1, z}, "%s: SetY", what)
			p.SetZ(um(z + 2))
			r.Check(xyz(p) == [3]int64{x + 1, y - 1, z + 2}, "%s: SetZ", what)
			same("changing the result of " + what)
		}
		p2("Add", a.Add(b), ax+bx, ay+by)
		p2("Sub", a.Sub(b), ax-bx, ay-by)
		p2("Mul", a.Mul(um(k)), ax*k, ay*k)
		p2("Copy", a.Copy(), ax, ay)
		p2("PointXY", v.PointXY(), ax, ay)
		p3("Add", v.Add(w), ax+bx, ay+by, az+bz)
		p3("Sub", v.Sub(w), ax-bx, ay-by, az-bz)
		p3("Mul", v.Mul(um(k)), ax*k, ay*k, az*k)
		p3("Copy", v.Copy(), ax, ay, az)
		if k != 0 {
			p2("Div", a.Div(um(k)), quo(ax, k), quo(ay, k))
			p3("Div", v.Div(um(k)), quo(ax, k), quo(ay, k), quo(az, k))
			d := k%1000 + 1000*0
			if d != 0 {
				p2("Div", a.Div(um(d)), quo(ax, d), quo(ay, d))
				p3("Div", v.Div(um(d)), quo(ax, d), quo(ay, d), quo(az, d))
			}
		}
		s2, s3 := ax*ax+ay*ay, ax*ax+ay*ay+az*az
		r.Check(int64(a.Size2()) == s2, "Size2 of the point: %d want %d", a.Size2(), s2)
		r.Check(int64(v.Size2()) == s3, "Size2 of the vector: %d want %d", v.Size2(), s3)
		r.Check(a.ShorterThanOrEqual(um(l)) == (l >= 0 && s2 <= l*l), "ShorterThanOrEqual(%d) of the point", l)
		if l >= 0 {
			r.Check(v.ShorterThanOrEqual(um(l)) == (s3 <= l*l), "ShorterThanOrEqual(%d) of the vector", l)
		}
		r.Check(int64(data.DotProduct(a, b)) == ax*bx+ay*by, "DotProduct %d", data.DotProduct(a, b))
		m := max(ax, ay, az)
		r.Check(int64(v.Max()) == m, "Max of the vector: %d want %d", v.Max(), m)
		r.Check(int64(data.Max(um(ax), um(bx))) == max(ax, bx) && int64(data.Min(um(ax), um(bx))) == min(ax, bx), "Max/Min")
		same("reading")
	})
}
