//go:build go1.22

package gcode_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/vh"
)

type fakeLayer struct {
	data.PartitionedLayer
	nr int
}

type fakeModel struct{ data.OptimizedModel }

type recRenderer struct {
	nr   int
	log  *[]string
	fail map[int]error
	opt  *data.Options
	text bool
}

func (f *recRenderer) Init(m data.OptimizedModel) {
	*f.log = append(*f.log, fmt.Sprintf("init %d %p", f.nr, m))
}

func (f *recRenderer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, options *data.Options) error {
	*f.log = append(*f.log, fmt.Sprintf("render %d %d %d %d %d %v", f.nr, layerNr, maxLayer, layer.(*fakeLayer).nr, z, options == f.opt))
	if f.text {
		b.AddCommand("r%d l%d", f.nr, layerNr)
	}
	return f.fail[layerNr]
}

func TestVerifC22Generate(t *testing.T) {
	vh.Run(t, "C22", "up to 12 recording renderers and up to 40 layers, random layer heights and failures; several runs of one generator; non-trivial: distinct inputs", func(r *vh.R) {
		o := vh.Options()
		o.Print.InitialLayerThickness = data.Micrometer(r.Int(0, 1000000))
		o.Print.LayerThickness = data.Micrometer(r.Int(0, 1000000))
		nr, nl := r.Intn(r.Size(12)+1), r.Intn(r.Size(40)+1)
		failing := r.One(3)
		r.Log("%d renderers %d layers heights %d %d", nr, nl, o.Print.InitialLayerThickness, o.Print.LayerThickness)
		var log []string
		var rs []*recRenderer
		g := gcode.NewGenerator(&o)
		for k := 0; k < nr; k++ {
			f := &recRenderer{nr: k, log: &log, fail: map[int]error{}, opt: &o, text: !r.One(4)}
			if failing && r.One(2) && nl > 0 {
				l := r.Intn(nl)
				f.fail[l] = errors.New("failure")
				r.Log("renderer %d fails on layer %d", k, l)
			}
			rs = append(rs, f)
		}
		if nr > 0 {
			g = newGen(&o, rs)
		}
		m := &fakeModel{}
		g.Init(m)
		var want []string
		for k := range rs {
			want = append(want, fmt.Sprintf("init %d %p", k, m))
		}
		r.Check(fmt.Sprint(log) == fmt.Sprint(want), "initialization: got %v instead of %v", log, want)
		for rep := 0; rep < 2; rep++ {
			log = nil
			var layers []data.PartitionedLayer
			for k := 0; k < nl; k++ {
				layers = append(layers, &fakeLayer{nr: k + 100*rep})
			}
			want = nil
			text := ""
			var wantErr error
		loop:
			for l := range layers {
				for k, f := range rs {
					z := int64(o.Print.InitialLayerThickness) + int64(l)*int64(o.Print.LayerThickness)
					want = append(want, fmt.Sprintf("render %d %d %d %d %d true", k, l, nl-1, l+100*rep, z))
					if f.text {
						text += fmt.Sprintf("r%d l%d\n", k, l)
					}
					if wantErr = f.fail[l]; wantErr != nil {
						text = ""
						break loop
					}
				}
			}
			got, err := g.Generate(layers)
			r.Check(strings.Join(log, "; ") == strings.Join(want, "; "), "run %d: calls %v instead of %v", rep, log, want)
			r.Check(err == wantErr, "run %d: error %v instead of %v", rep, err, wantErr)
			r.Check(got == text, "run %d: result %q instead of %q", rep, got, text)
		}
	})
}

func newGen(o *data.Options, rs []*recRenderer) handler.GCodeGenerator {
	opts := optsOf(gcode.WithRenderer(rs[0])) // the option type is not exported
	for _, f := range rs[1:] {
		opts = append(opts, gcode.WithRenderer(f))
	}
	return gcode.NewGenerator(o, opts...)
}

func optsOf[T any](o T) []T { return []T{o} }
