//go:build go1.22

package reader_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/reader"
	"github.com/aligator/goslice/vh"
)

type tri [4][3]float32 // normal and vertices

func binaryFile(head string, ts []tri) []byte {
	b := make([]byte, 80)
	copy(b, head)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(ts)))
	for _, t := range ts {
		for _, p := range t {
			for _, c := range p {
				b = binary.LittleEndian.AppendUint32(b, math.Float32bits(c))
			}
		}
		b = append(b, 0, 0)
	}
	return b
}

func num(r *vh.R, c float32) string {
	f := []byte("geE")[r.Intn(3)]
	return strconv.FormatFloat(float64(c), f, -1, 32)
}

func asciiTokens(r *vh.R, ts []tri) []string {
	w := []string{"solid", " test\n"}
	add := func(k string, p [3]float32, end string) {
		w = append(w, k, " ", num(r, p[0]), " ", num(r, p[1]), " ", num(r, p[2]), end)
	}
	for _, t := range ts {
		w = append(w, " facet ")
		add("normal", t[0], "\n")
		w = append(w, "  outer", " loop", "\n")
		for k := 1; k < 4; k++ {
			add("   vertex", t[k], "\n")
		}
		w = append(w, "  endloop", "\n", " endfacet", "\n")
	}
	return append(w, "endsolid", " test\n")
}

// matches reports whether m is mm converted to micrometers (by way of 32 bit floats).
func matches(m data.Micrometer, mm float32) bool {
	exact := float64(mm) * 1000
	return math.Abs(float64(m)-exact) <= 0.5+math.Abs(exact)/(1<<23)
}

func TestVerifC05(t *testing.T) {
	dir := t.TempDir()
	vh.Run(t, "C05", "binary and text model files with up to 400 random triangles (degenerate and repeated ones included), coordinates up to 10 m, good, cut off, damaged, empty and missing ones; non-trivial: distinct inputs", func(r *vh.R) {
		var ts []tri
		n := r.Size(400)
		scale := []float64{1, 30, 200, 3000, 10000}[r.Intn(5)]
		for k := 0; k < n; k++ {
			var x tri
			for i := range x {
				for j := range x[i] {
					v := (r.Float64()*2 - 1) * scale
					if r.One(4) {
						v = math.Round(v)
					}
					if r.One(9) {
						v = math.Round(v) + 0.0005
					}
					x[i][j] = float32(v)
				}
			}
			switch r.Intn(9) {
			case 0:
				x[2] = x[1]
			case 1:
				x[3] = x[1]
				x[3][2] = x[1][2] + 1
			case 2:
				if k > 0 {
					x = ts[k-1]
				}
			case 3:
				x[0] = [3]float32{}
			}
			ts = append(ts, x)
		}
		kind := r.Intn(8)
		var file []byte
		good := true
		text := r.Bool()
		name := filepath.Join(dir, "model.stl")
		os.RemoveAll(name)
		desc := ""
		if text {
			w := asciiTokens(r, ts)
			file = []byte(strings.Join(w, ""))
			switch {
			case kind == 0: // cut off in or before the last keyword
				cut := r.Intn(len(file) - len("d test\n"))
				desc, good = fmt.Sprintf("cut off after %d of %d bytes", cut, len(file)), false
				file = file[:cut]
			case kind == 1 && n > 0: // a number or keyword inside of a triangle is damaged
				for {
					k := r.Intn(len(w))
					s := strings.TrimSpace(w[k])
					if s == "" || s == "solid" || s == "test" || s == "endsolid" || s == "facet" {
						continue
					}
					w[k] = strings.Replace(w[k], s, "q"+s, 1)
					desc, good = fmt.Sprintf("token %d %s damaged", k, s), false
					break
				}
				file = []byte(strings.Join(w, ""))
			case kind == 2:
				file = bytes.ReplaceAll(file, []byte("\n"), []byte("\r\n"))
			}
		} else {
			head := []string{"", "exported by something", "solid x"}[r.Intn(3)]
			file = binaryFile(head, ts)
			switch kind {
			case 0, 1:
				cut := r.Intn(len(file))
				desc, good = fmt.Sprintf("cut off after %d of %d bytes", cut, len(file)), false
				file = file[:cut]
			case 2:
				file = append(file, make([]byte, 1+r.Intn(60))...)
				desc, good = "bytes behind the last triangle", false
			}
		}
		missing := ""
		if kind == 7 && r.One(3) {
			good = false
			missing = []string{"missing", "directory", "below a file"}[r.Intn(3)]
		}
		r.Log("text %v triangles %v %s %s", text, ts, desc, missing)
		if n == 0 {
			good = false
		}
		switch missing {
		case "missing":
		case "directory":
			os.MkdirAll(name, 0o755)
		case "below a file":
			os.WriteFile(name, file, 0o644)
			name += "/x.stl"
		default:
			if err := os.WriteFile(name, file, 0o644); err != nil {
				t.Fatal(err)
			}
		}
		m, err := reader.Reader(&data.Options{}).Read(name)
		os.RemoveAll(filepath.Join(dir, "model.stl"))
		if !good {
			r.Check(err != nil, "no error for an unreadable or empty model file")
			return
		}
		r.Check(err == nil, "error %v for a good file", err)
		r.Check(m.FaceCount() == n, "%d of %d triangles", m.FaceCount(), n)
		for k := 0; k < n; k++ {
			ps := m.Face(k).Points()
			for v := 0; v < 3; v++ {
				c := ts[k][v+1]
				p := ps[v]
				r.Check(matches(p.X(), c[0]) && matches(p.Y(), c[1]) && matches(p.Z(), c[2]),
					"face %d vertex %d is (%d,%d,%d) instead of (%v,%v,%v) mm", k, v, p.X(), p.Y(), p.Z(), c[0], c[1], c[2])
			}
		}
	})
}
