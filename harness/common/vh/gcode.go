//go:build go1.22

package vh

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
)

// Move is the state of the machine after a move command.
type Move struct {
	G          int
	X, Y, Z, E float64 // millimeters, NaN if never set
	F          float64 // mm per minute
	E0         float64 // extruded before
	Words      string  // letters of the words
	Line       int
	Type       string // last TYPE: comment
}

// Machine interprets the moves of a G-code.
type Machine struct {
	Moves []Move
	Other []string // all other lines in order
	cur   Move
}

var word = regexp.MustCompile(`^([XYZEF])(-?[0-9]+(?:\.[0-9]+)?)$`)

// Interpret runs all lines of a text, an empty string means that it could.
func (m *Machine) Interpret(text string) string {
	if m.cur.Words == "" && len(m.Moves) == 0 {
		n := math.NaN()
		m.cur = Move{X: n, Y: n, Z: n}
	}
	if text == "" {
		return ""
	}
	if !strings.HasSuffix(text, "\n") {
		return fmt.Sprintf("unfinished line in %q", text)
	}
	for nr, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		fs := strings.Split(l, " ")
		if fs[0] != "G0" && fs[0] != "G1" {
			m.Other = append(m.Other, l)
			if strings.HasPrefix(l, ";TYPE:") {
				m.cur.Type = l[6:]
			}
			continue
		}
		c := &m.cur
		c.G, c.Words, c.E0, c.Line = int(fs[0][1]-'0'), "", c.E, nr
		for _, w := range fs[1:] {
			p := word.FindStringSubmatch(w)
			if p == nil || strings.Contains(c.Words, p[1]) {
				return fmt.Sprintf("bad word %q in line %q", w, l)
			}
			v, _ := strconv.ParseFloat(p[2], 64)
			c.Words += p[1]
			switch p[1] {
			case "X":
				c.X = v
			case "Y":
				c.Y = v
			case "Z":
				c.Z = v
			case "E":
				c.E = v
			case "F":
				c.F = v
			}
		}
		m.Moves = append(m.Moves, *c)
	}
	return ""
}

// At tells whether the machine stands on a position, up to the printed digits.
func (v Move) At(x, y, z int64) bool {
	near := func(mm float64, um int64) bool { return math.Abs(mm*1000-float64(um)) <= 5.001+math.Abs(float64(um))*1e-6 }
	return near(v.X, x) && near(v.Y, y) && near(v.Z, z)
}

// Near compares floats.
func Near(a, b, abs, rel float64) bool { return math.Abs(a-b) <= abs+rel*math.Max(math.Abs(a), math.Abs(b)) }

// Pt is a point of a path.
type Pt [2]int64

// Path makes a path.
func Path(ps []Pt) data.Path {
	var r data.Path
	for _, p := range ps {
		r = append(r, data.NewMicroPoint(data.Micrometer(p[0]), data.Micrometer(p[1])))
	}
	return r
}

// Pts reads a path.
func Pts(p data.Path) []Pt {
	var r []Pt
	for _, q := range p {
		r = append(r, Pt{int64(q.X()), int64(q.Y())})
	}
	return r
}

// Rect is a rectangle, counter clockwise.
func Rect(x0, y0, x1, y1 int64) []Pt { return []Pt{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}} }
