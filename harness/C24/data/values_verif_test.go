//go:build go1.22

package data_test

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

var numbers = []string{"0", "1", "2", "3", "7", "10", "254", "255", "256", "300", "-1", "-0", "+5", "007", "", " ", " 1", "1 ", "x", "1.5", "0x10", "0b11", "0o7", "1_000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "1e3"}

func someNumber(r *vh.R) string {
	if r.One(2) {
		return strconv.Itoa(r.Intn(300) - 10)
	}
	if r.One(3) {
		return strconv.Itoa(r.Intn(8))
	}
	return numbers[r.Intn(len(numbers))]
}

func TestVerifC24FanSpeed(t *testing.T) {
	vh.RunN(t, "C24", "fan speed tables with up to 7 entries, repeated layers, entries with 0..3 '=' signs, about 30 unusual numbers; non-trivial: distinct texts", 1<<30, 0.4, func(r *vh.R) {
		var es []string
		for k := r.Intn(7) + 1; k > 0; k-- {
			e := fmt.Sprintf("%d=%d", r.Intn(6), r.Intn(256))
			switch r.Intn(12) {
			case 0:
				e = someNumber(r) + "=" + someNumber(r)
			case 1:
				e = strings.Repeat("=", r.Intn(4)) + someNumber(r)
			case 2:
				e = fmt.Sprintf("%d=%d=%d", r.Intn(6), r.Intn(256), r.Intn(256))
			case 3:
				e = fmt.Sprintf("%d=%d", r.Intn(6), 250+r.Intn(10))
			case 4:
				e = fmt.Sprintf("%d=%d", r.Intn(4)-2, r.Intn(10)-2)
			}
			es = append(es, e)
		}
		s := strings.Join(es, ",")
		r.Log("%q", s)
		before := map[int]int{}
		for k := r.Intn(3); k > 0; k-- {
			before[r.Intn(6)] = r.Intn(256)
		}
		keep := map[int]int{}
		for k, v := range before {
			keep[k] = v
		}
		want := map[int]int{}
		good := true
		for _, e := range strings.Split(s, ",") {
			a, b, found := strings.Cut(e, "=")
			l, e1 := strconv.ParseInt(a, 10, 64)
			v, e2 := strconv.ParseInt(b, 10, 64)
			if !found || e1 != nil || e2 != nil || l < 0 || v < 0 || v > 255 {
				good = false
				break
			}
			want[int(l)] = int(v)
		}
		f := data.FanSpeedOptions{LayerToSpeedLUT: before}
		err := f.Set(s)
		r.Check((err == nil) == good, "accepted: %v, expected %v", err == nil, good)
		if err != nil {
			r.Check(reflect.DeepEqual(f.LayerToSpeedLUT, keep), "rejected, but the table is %v instead of %v", f.LayerToSpeedLUT, keep)
			return
		}
		r.Check(reflect.DeepEqual(f.LayerToSpeedLUT, want), "table is %v instead of %v", f.LayerToSpeedLUT, want)
		r.Check(reflect.DeepEqual(before, keep), "the map of the old table was changed to %v", before)
	})
}

func TestVerifC24Point(t *testing.T) {
	vh.RunN(t, "C24", "points with 0..5 coordinates, about 30 unusual numbers in every position; non-trivial: distinct texts", 1<<30, 0.3, func(r *vh.R) {
		n := 3
		if r.One(5) {
			n = r.Intn(6)
		}
		var cs []string
		for ; n > 0; n-- {
			c := strconv.FormatInt(r.Int(-300000, 300000), 10)
			if r.One(4) {
				c = someNumber(r)
			}
			cs = append(cs, c)
		}
		s := strings.Join(cs, "_")
		r.Log("%q", s)
		ps := strings.Split(s, "_")
		good := len(ps) == 3
		var w [3]int64
		for k := 0; good && k < 3; k++ {
			v, err := strconv.ParseInt(ps[k], 0, 64)
			good = good && err == nil
			w[k] = v
		}
		v := data.NewMicroVec3(data.Micrometer(r.Intn(1000)), data.Micrometer(r.Intn(1000)), data.Micrometer(r.Intn(1000)))
		x, y, z := v.X(), v.Y(), v.Z()
		err := v.(interface{ Set(string) error }).Set(s)
		r.Check((err == nil) == good, "accepted: %v, expected %v", err == nil, good)
		if err != nil {
			r.Check(v.X() == x && v.Y() == y && v.Z() == z, "rejected, but the point is %v instead of %v", v, []data.Micrometer{x, y, z})
			return
		}
		r.Check(int64(v.X()) == w[0] && int64(v.Y()) == w[1] && int64(v.Z()) == w[2], "point is %v instead of %v", v, w)
	})
}

func TestVerifC24Lines(t *testing.T) {
	rows := []string{"", " ", "\t", "\r", " \t ", "G1 X1", "G1 X1", " M104 S1", "M105 ", ";comment", "x", " ", "M190 S{print_bed_temperature} ; 100%", "\\n", "a\r", "\u00a0", "\u200b"}
	vh.RunN(t, "C24", "start and end lines: up to 8 rows of 17 kinds (blank ones, repeated ones, with white space around); non-trivial: distinct texts", 1<<30, 0.3, func(r *vh.R) {
		var rs []string
		for k := r.Intn(8) + 1; k > 0; k-- {
			rs = append(rs, rows[r.Intn(len(rows))])
		}
		s := strings.Join(rs, "\n")
		r.Log("%q", s)
		old := []string{"old", "G28"}
		g := data.GCodeHunk{GCodeLines: old}
		err := g.Set(s)
		if err != nil {
			r.Check(len(rs) == 1, "rejected: %v", err)
			r.Check(len(g.GCodeLines) == 2 && g.GCodeLines[0] == "old" && g.GCodeLines[1] == "G28", "rejected, but the lines are %q", g.GCodeLines)
			return
		}
		var want []string
		for _, x := range rs {
			if strings.TrimSpace(x) != "" {
				want = append(want, x)
			}
		}
		r.Check(len(want) == len(g.GCodeLines) && (len(want) == 0 || reflect.DeepEqual(want, g.GCodeLines)), "lines are %q instead of %q", g.GCodeLines, want)
		r.Check(old[0] == "old" && old[1] == "G28", "the old lines were changed")
	})
}
