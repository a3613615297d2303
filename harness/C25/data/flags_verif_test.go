//go:build go1.22

package data_test

import (
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"

	flag "github.com/spf13/pflag"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

// option, flag and documented default
const flagTable = `Slicing.MeldDistance meld-distance 30
Slicing.JoinPolygonSnapDistance join-polygon-snap-distance 160
Slicing.FinishPolygonSnapDistance finish-polygon-snap-distance 1000
Print.IntialLayerSpeed initial-layer-speed 30
Print.LayerSpeed layer-speed 60
Print.OuterPerimeterSpeed outer-perimeter-speed 40
Print.MoveSpeed move-speed 150
Print.InitialLayerThickness initial-layer-thickness 200
Print.LayerThickness layer-thickness 200
Print.InsetCount inset-count 2
Print.InfillOverlapPercent infill-overlap-percent 50
Print.AdditionalInternalInfillOverlapPercent additional-internal-infill-overlap-percent 400
Print.InfillPercent infill-percent 20
Print.InfillRotationDegree infill-rotation-degree 45
Print.InfillZigZag infill-zig-zag false
Print.NumberBottomLayers number-bottom-layers 3
Print.NumberTopLayers number-top-layers 4
Print.Support.Enabled support-enabled false
Print.Support.ThresholdAngle support-threshold-angle 60
Print.Support.TopGapLayers support-top-gap-layers 3
Print.Support.InterfaceLayers support-interface-layers 2
Print.Support.PatternSpacing support-pattern-spacing 2.5
Print.Support.Gap support-gap 0.6
Print.BrimSkirt.SkirtCount skirt-count 2
Print.BrimSkirt.SkirtDistance skirt-distance 5
Print.BrimSkirt.BrimCount brim-count 0
Filament.FilamentDiameter filament-diameter 1750
Filament.InitialBedTemperature initial-bed-temperature 60
Filament.InitialHotEndTemperature initial-hot-end-temperature 205
Filament.BedTemperature bed-temperature 55
Filament.HotEndTemperature hot-end-temperature 200
Filament.InitialTemperatureLayerCount initial-temperature-layer-count 3
Filament.RetractionSpeed retraction-speed 30
Filament.RetractionLength retraction-length 2
Filament.RetractionZHop retraction-z-hop 0
Filament.ExtrusionMultiplier extrusion-multiplier 100
Printer.ExtrusionWidth extrusion-width 400
Printer.ForceSafeStartStopGCode force-safe-gcode true
Printer.HasHeatedBed has-heated-bed true
GoSlice.PrintVersion version false
GoSlice.OutputFilePath output `

func field(o *data.Options, path string) reflect.Value {
	v := reflect.ValueOf(o).Elem()
	for _, p := range strings.Split(path, ".") {
		v = v.FieldByName(p)
	}
	return v
}

func setText(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.Bool:
		b, _ := strconv.ParseBool(s)
		v.SetBool(b)
	case reflect.String:
		v.SetString(s)
	case reflect.Float32:
		f, _ := strconv.ParseFloat(s, 32)
		v.SetFloat(f)
	default:
		i, _ := strconv.ParseInt(s, 10, 64)
		v.SetInt(i)
	}
}

func TestVerifC25Flags(t *testing.T) {
	args, cl := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = args, cl }()
	rows := strings.Split(flagTable, "\n")
	vh.Run(t, "C25", "command lines with none, one, a few or all of the 45 flags in random order and both spellings, repeated flags, 0..2 positional arguments; non-trivial: distinct command lines", func(r *vh.R) {
		var want data.Options
		for _, row := range rows {
			f := strings.SplitN(row, " ", 3)
			setText(field(&want, f[0]), f[2])
		}
		want.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{2: 255}
		center := [3]int64{100000, 100000, 0}
		want.Printer.StartGCode.GCodeLines = []string{
			";SET BED TEMP",
			"M190 S{print_bed_temperature} ; heat and wait for bed",
			";SET HOTEND TEMP",
			"M109 S{print_temperature} ; wait for hot end temperature",
			"M107 ; disable fan",
			"G1 Z5 F5000 ; lift nozzle",
		}
		want.Printer.EndGCode.GCodeLines = []string{"M107 ; disable fan", "G28 X0  ; home X axis to get head out of the way", "M84 ;steppers off"}
		all := len(rows) + 4
		var line []string
		give := func(name, value string, isBool bool) {
			switch {
			case isBool && value == "true" && r.Bool():
				line = append(line, "--"+name)
			case isBool || r.Bool():
				line = append(line, "--"+name+"="+value)
			default:
				line = append(line, "--"+name, value)
			}
		}
		one := func(k int) {
			switch k - len(rows) {
			case 0:
				m := map[int]int{}
				var s []string
				for n := r.Intn(4) + 1; n > 0; n-- {
					l, v := r.Intn(10), r.Intn(256)
					m[l] = v
					s = append(s, fmt.Sprintf("%d=%d", l, v))
				}
				want.Filament.FanSpeed.LayerToSpeedLUT = m
				give("fan-speed", strings.Join(s, ","), false)
			case 1:
				center = [3]int64{r.Int(-9999, 99999), r.Int(-9999, 99999), r.Int(-999, 999)}
				for k, d := range []int64{100000, 100000, 0} {
					if r.One(3) {
						center[k] = d // as the default
					}
				}
				give("center", fmt.Sprintf("%d_%d_%d", center[0], center[1], center[2]), false)
			case 2:
				want.Printer.StartGCode.GCodeLines = []string{"G28", fmt.Sprint("M1 S", r.Intn(100))}
				give("start-gcode", strings.Join(want.Printer.StartGCode.GCodeLines, "\n"), false)
			case 3:
				want.Printer.EndGCode.GCodeLines = []string{"G29", fmt.Sprint("M2 S", r.Intn(100))}
				give("end-gcode", strings.Join(want.Printer.EndGCode.GCodeLines, "\n"), false)
			default:
				f := strings.SplitN(rows[k], " ", 3)
				v := field(&want, f[0])
				var s string
				switch v.Kind() {
				case reflect.Bool:
					s = strconv.FormatBool(r.Bool())
				case reflect.String:
					s = fmt.Sprintf("out%d.gcode", r.Intn(50))
				case reflect.Float32:
					s = fmt.Sprintf("%d.%d", r.Intn(300), r.Intn(1000))
				default:
					s = strconv.FormatInt(r.Int(-5, 3000), 10)
				}
				setText(v, s)
				give(f[1], s, v.Kind() == reflect.Bool)
			}
		}
		switch r.Intn(5) {
		case 0:
			for _, k := range r.Perm(all) {
				one(k)
			}
		case 1, 2:
			one(r.Intn(all))
		case 3:
			for n := r.Intn(8); n > 0; n-- {
				one(r.Intn(all))
			}
		}
		for n := r.Intn(3); n > 0; n-- {
			p := fmt.Sprintf("model%d.stl", r.Intn(100))
			if want.GoSlice.InputFilePath == "" {
				want.GoSlice.InputFilePath = p
			}
			line = append(line, p)
		}
		r.Log("%q", line)
		os.Args = append([]string{"goslice"}, line...)
		flag.CommandLine = flag.NewFlagSet("goslice", flag.PanicOnError)
		got := data.ParseFlags()
		c := got.Printer.Center
		r.Check(c != nil && c.X() == data.Micrometer(center[0]) && c.Y() == data.Micrometer(center[1]) && c.Z() == data.Micrometer(center[2]), "center is %v instead of %v", c, center)
		r.Check(got.GoSlice.Logger != nil, "no logger")
		got.GoSlice.Logger, got.Printer.Center = nil, nil
		if !reflect.DeepEqual(got, want) {
			r.Fail("options are\n%+v\ninstead of\n%+v", got, want)
		}
	})
}
