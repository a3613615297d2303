//go:build go1.22

package vh

import (
	"fmt"
	"io"
	"log"

	"github.com/aligator/goslice/data"
)

// V is a point in micrometers.
type V [3]int64

// T is a triangle.
type T [3]V

// Mesh is a list of triangles, used as model.
type Mesh struct {
	Ts    []T
	cache map[int]data.Face
}

type face struct{ p [3]data.MicroVec3 }

func (f face) Points() [3]data.MicroVec3 { return f.p }

func (m *Mesh) FaceCount() int { return len(m.Ts) }
func (m *Mesh) Face(i int) data.Face {
	if m.cache == nil {
		m.cache = map[int]data.Face{}
	}
	if _, ok := m.cache[i]; !ok {
		f := face{}
		for j, v := range m.Ts[i] {
			f.p[j] = Vec(v)
		}
		m.cache[i] = f
	}
	return m.cache[i]
}
func (m *Mesh) ext(max bool) data.MicroVec3 {
	e := m.Ts[0][0]
	for _, t := range m.Ts {
		for _, v := range t {
			for c := range v {
				if max == (v[c] > e[c]) && v[c] != e[c] {
					e[c] = v[c]
				}
			}
		}
	}
	return Vec(e)
}
func (m *Mesh) Min() data.MicroVec3 { return m.ext(false) }
func (m *Mesh) Max() data.MicroVec3 { return m.ext(true) }

// Vec converts a point.
func Vec(v V) data.MicroVec3 {
	return data.NewMicroVec3(data.Micrometer(v[0]), data.Micrometer(v[1]), data.Micrometer(v[2]))
}

// Val reads a point.
func Val(p data.MicroVec3) V { return V{int64(p.X()), int64(p.Y()), int64(p.Z())} }

// Tri reads a triangle.
func Tri(f data.Face) T {
	p := f.Points()
	return T{Val(p[0]), Val(p[1]), Val(p[2])}
}

func (m *Mesh) String() string { return fmt.Sprint(m.Ts) }

// Options are the default options without output.
func Options() data.Options {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	return o
}

// RandMesh makes a random triangle mesh: soups, closed boxes and spiky fans; up to n triangles.
func RandMesh(r *R, n int, scale int64) *Mesh {
	m := &Mesh{}
	switch r.Intn(3) {
	case 0: // soup with shared points
		var ps []V
		for k := r.Intn(n+1)/2 + 3; k > 0; k-- {
			v := V{r.Int(-scale, scale), r.Int(-scale, scale), r.Int(-scale, scale)}
			if r.One(4) && len(ps) > 0 { // close to another point
				v = ps[r.Intn(len(ps))]
				for c := range v {
					v[c] += int64(r.Intn(81) - 40)
				}
			}
			ps = append(ps, v)
		}
		for k := r.Intn(n) + 1; k > 0; k-- {
			t := T{ps[r.Intn(len(ps))], ps[r.Intn(len(ps))], ps[r.Intn(len(ps))]}
			if r.One(5) && len(m.Ts) > 0 {
				t = m.Ts[r.Intn(len(m.Ts))]
				s := r.Intn(3)
				t = T{t[s], t[(s+1)%3], t[(s+2)%3]}
			}
			m.Ts = append(m.Ts, t)
		}
	case 1: // boxes
		for k := r.Intn(n/12+1) + 1; k > 0; k-- {
			a := V{r.Int(-scale, scale), r.Int(-scale, scale), r.Int(-scale, scale)}
			b := V{a[0] + 1 + r.Int(0, scale), a[1] + 1 + r.Int(0, scale), a[2] + 1 + r.Int(0, scale)}
			m.Ts = append(m.Ts, Box(a, b)...)
		}
	case 2: // independent triangles
		for k := r.Intn(n) + 1; k > 0; k-- {
			var t T
			for i := range t {
				for c := range t[i] {
					t[i][c] = r.Int(-scale, scale)
				}
			}
			m.Ts = append(m.Ts, t)
		}
	}
	return m
}

// Box is a closed box with outward facing sides.
func Box(a, b V) []T {
	p := func(i int) V {
		v := a
		for c := 0; c < 3; c++ {
			if i>>c&1 == 1 {
				v[c] = b[c]
			}
		}
		return v
	}
	var ts []T
	for _, q := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		ts = append(ts, T{p(q[0]), p(q[1]), p(q[2])}, T{p(q[0]), p(q[2]), p(q[3])})
	}
	return ts
}
