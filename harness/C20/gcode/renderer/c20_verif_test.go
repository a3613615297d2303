//go:build go1.22

package renderer_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/vh"
	"github.com/aligator/goslice/vhp"
)

var vocabulary = []string{"M104 S1", "M109 S{print_temperature}", "  M140 S{print_bed_temperature} ; bed", "M190", "G28 ; home", "M117 100% done %d %s", "; M104 only a comment", "", "   ", "G29;M190",
	"M104;x", "T0 M109", "{print_temperature}", "M117 {print_bed_temperature} {print_temperature}{print_temperature}", "{print_bed_{print_temperature}", "M1", "M10", "M105", "G92 E0"}

func lines(r *vh.R) []string {
	var l []string
	for k := r.Intn(r.Size(6) + 1); k > 0; k-- {
		l = append(l, vocabulary[r.Intn(len(vocabulary))])
	}
	return l
}

// the first word of a line contains one of the codes
func has(lines []string, codes ...string) bool {
	for _, l := range lines {
		w := strings.Split(strings.TrimSpace(l), " ")[0]
		for _, c := range codes {
			if strings.Contains(w, c) {
				return true
			}
		}
	}
	return false
}

func setup(r *vh.R, o *data.Options, layers int) {
	o.Printer.ForceSafeStartStopGCode, o.Printer.HasHeatedBed = r.Bool(), r.Bool()
	o.Printer.StartGCode, o.Printer.EndGCode = data.NewGCodeHunk(lines(r)), data.NewGCodeHunk(lines(r))
	f := &o.Filament
	f.InitialBedTemperature, f.InitialHotEndTemperature, f.BedTemperature, f.HotEndTemperature = r.Intn(100), r.Intn(300), r.Intn(100), r.Intn(300)
	f.InitialTemperatureLayerCount = r.Intn(layers + 2)
	f.FanSpeed.LayerToSpeedLUT = map[int]int{}
	for k := r.Intn(3); k > 0; k-- {
		f.FanSpeed.LayerToSpeedLUT[r.Intn(layers+2)] = r.Intn(3) * r.Intn(128)
	}
	r.Log("safe %v heated bed %v start %q end %q initial bed %d hotend %d, bed %d hotend %d after %d layers, fan %v", o.Printer.ForceSafeStartStopGCode, o.Printer.HasHeatedBed,
		o.Printer.StartGCode.GCodeLines, o.Printer.EndGCode.GCodeLines, f.InitialBedTemperature, f.InitialHotEndTemperature, f.BedTemperature, f.HotEndTemperature, f.InitialTemperatureLayerCount, f.FanSpeed.LayerToSpeedLUT)
}

// pre and post are the commands (without comments except for LAYER and configured lines) expected at the start and the end of a layer
func pre(o *data.Options, layer int) (w []string) {
	f, s := &o.Filament, o.Printer.StartGCode.GCodeLines
	if layer == 0 {
		if o.Printer.ForceSafeStartStopGCode {
			if o.Printer.HasHeatedBed && !has(s, "M140", "M190") {
				w = append(w, fmt.Sprintf("M190 S%d", f.InitialBedTemperature))
			}
			if !has(s, "M104", "M109") {
				w = append(w, fmt.Sprintf("M109 S%d", f.InitialHotEndTemperature))
			}
		}
		w = append(w, "START GCODE")
		for _, l := range s {
			w = append(w, "="+strings.ReplaceAll(strings.ReplaceAll(l, "{print_bed_temperature}", fmt.Sprint(f.InitialBedTemperature)), "{print_temperature}", fmt.Sprint(f.InitialHotEndTemperature)))
		}
		w = append(w, "G92 E0")
	}
	w = append(w, fmt.Sprintf("=;LAYER:%d", layer))
	if v, ok := f.FanSpeed.LayerToSpeedLUT[layer]; ok {
		if v == 0 {
			w = append(w, "M107")
		} else {
			w = append(w, fmt.Sprintf("M106 S%d", v))
		}
	}
	if layer == f.InitialTemperatureLayerCount {
		w = append(w, fmt.Sprintf("M140 S%d", f.BedTemperature), fmt.Sprintf("M104 S%d", f.HotEndTemperature))
	}
	return w
}

func post(o *data.Options) (w []string) {
	e := o.Printer.EndGCode.GCodeLines
	w = append(w, "END GCODE")
	if o.Printer.ForceSafeStartStopGCode {
		if !has(e, "M104", "M109") {
			w = append(w, "M104 S0")
		}
		if o.Printer.HasHeatedBed && !has(e, "M140", "M190") {
			w = append(w, "M140 S0")
		}
	}
	for _, l := range e {
		w = append(w, "="+l)
	}
	return w
}

// reduce leaves out generated comments; start and end line counts tell which lines are configured ones
func check(r *vh.R, text string, want []string) {
	var got []string
	if text != "" {
		got = strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	}
	i := 0
	for _, w := range want {
		// skip generated comments and moves, unless they are wanted
		if w == "START GCODE" || w == "END GCODE" {
			continue
		}
		for i < len(got) && (strings.HasPrefix(got[i], ";") || strings.HasPrefix(got[i], "G0") || strings.HasPrefix(got[i], "G1")) && w != "="+got[i] {
			i++
		}
		if i == len(got) {
			r.Fail("missing line %q in\n%s", w, text)
		}
		if w[0] == '=' {
			r.Check(got[i] == w[1:], "line %q instead of %q", got[i], w[1:])
		} else {
			c, _, _ := strings.Cut(got[i], ";")
			r.Check(strings.TrimSpace(c) == w, "line %q instead of %q", got[i], w)
		}
		i++
	}
	for ; i < len(got); i++ {
		r.Check(strings.HasPrefix(got[i], ";") || strings.HasPrefix(got[i], "G0") || strings.HasPrefix(got[i], "G1"), "additional line %q", got[i])
	}
}

func TestVerifC20Lines(t *testing.T) {
	vh.RunN(t, "C20", "pre and post layer on up to 8 layers with up to 6 configured lines from a vocabulary with temperature codes, placeholders, comments, blank lines and percent signs; non-trivial: distinct inputs", 1<<30, 0.5, func(r *vh.R) {
		o := vh.Options()
		n := r.Intn(r.Size(8)+1) + 1
		setup(r, &o, n)
		b := gcode.NewGCodeBuilder(&o)
		done := ""
		for l := 0; l < n; l++ {
			err := renderer.PreLayer{}.Render(b, l, n-1, nil, 0, &o)
			r.Check(err == nil, "error %v", err)
			text := b.String()
			r.Check(strings.HasPrefix(text, done), "text changed")
			check(r, text[len(done):], pre(&o, l))
			done = text
			err = renderer.PostLayer{}.Render(b, l, n-1, nil, 0, &o)
			r.Check(err == nil, "error %v", err)
			text = b.String()
			if l == n-1 {
				check(r, text[len(done):], post(&o))
			} else {
				r.Check(text == done, "post layer %d of %d added %q", l, n, text[len(done):])
			}
			done = text
		}
	})
	vh.RunN(t, "C20-pipeline", "whole pipeline on boxes with up to 6 layers, the same options", 1<<30, 0.5, func(r *vh.R) {
		o := vh.Options()
		n := r.Intn(5) + 2
		setup(r, &o, n)
		h := int64(o.Print.InitialLayerThickness) + int64(n-1)*int64(o.Print.LayerThickness)
		m := &vh.Mesh{Ts: vh.Box(vh.V{0, 0, 0}, vh.V{4000, 4000, h})}
		res := vhp.Slice(m, o)
		r.Check(res.Err == nil, "error %v", res.Err)
		var want []string
		for l := range res.Layers {
			want = append(want, pre(&o, l)...)
		}
		check(r, res.GCode, append(want, post(&o)...))
		if es := o.Printer.EndGCode.GCodeLines; len(es) > 0 {
			r.Check(strings.HasSuffix(res.GCode, "\n"+strings.Join(es, "\n")+"\n"), "the end lines do not come last")
		}
	})
}
