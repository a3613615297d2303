//go:build go1.22

package goslice_test

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	goslice "github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/vh"
)

type optModel struct {
	data.OptimizedModel
	n int
}

type layer struct {
	data.PartitionedLayer
	n int
}

type fake struct {
	log    *[]string
	name   string
	err    error
	mesh   *vh.Mesh
	om     *optModel
	layers []data.PartitionedLayer
	text   string
}

func (f *fake) add(s string, a ...any) { *f.log = append(*f.log, f.name+": "+fmt.Sprintf(s, a...)) }
func (f *fake) GetName() string        { return f.name }

type fReader struct{ *fake }
type fOptimizer struct{ *fake }
type fSlicer struct{ *fake }
type fModifier struct{ *fake }
type fGenerator struct{ *fake }
type fWriter struct{ *fake }

func (f fReader) Read(n string) (data.Model, error) {
	f.add("read %q", n)
	if f.err != nil {
		return nil, f.err
	}
	return f.mesh, nil
}
func (f fOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	f.add("optimize %v", m == data.Model(f.mesh))
	return f.om, f.err
}
func (f fSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	f.add("slice %v", m == data.OptimizedModel(f.om))
	return f.layers, f.err
}
func same(a, b []data.PartitionedLayer) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}
func (f fModifier) Init(m data.OptimizedModel) { f.add("init %v", m == data.OptimizedModel(f.om)) }
func (f fModifier) Modify(l []data.PartitionedLayer) error {
	s := ""
	for k := range l {
		s += fmt.Sprint(l[k].(*layer).n, ",")
		l[k] = &layer{n: l[k].(*layer).n + 1}
	}
	f.add("modify %v %s", same(l, f.layers), s)
	return f.err
}
func (f fGenerator) Init(m data.OptimizedModel) { f.add("init %v", m == data.OptimizedModel(f.om)) }
func (f fGenerator) Generate(l []data.PartitionedLayer) (string, error) {
	f.add("generate %v", same(l, f.layers))
	return f.text, f.err
}
func (f fWriter) Write(s, d string) error {
	f.add("write %q %q", s, d)
	return f.err
}

func TestVerifC23Process(t *testing.T) {
	vh.RunN(t, "C23", "recording stages, up to 8 modifiers, up to 5 layers, a failure of none, one or all stages, with and without output path; non-trivial: distinct inputs", 1<<30, 0.6, func(r *vh.R) {
		var log []string
		o := vh.Options()
		in, out := []string{"m.stl", "", "a b/c.STL", "x.gcode"}[r.Intn(4)], []string{"", "", "o.gcode", "dir/out"}[r.Intn(4)]
		o.GoSlice.InputFilePath, o.GoSlice.OutputFilePath = in, out
		mesh, om := vh.RandMesh(r, 3, 100), &optModel{}
		var layers []data.PartitionedLayer
		for k := r.Intn(6); k > 0; k-- {
			layers = append(layers, &layer{n: 10 * k})
		}
		text := []string{"", "G1 X1", "G1 %d %s\n;ü"}[r.Intn(3)]
		nm := r.Intn(r.Size(8) + 1)
		stages := 5 + nm
		failing := map[int]bool{}
		for k := r.Intn(4); k > 1; k-- {
			failing[r.Intn(stages)] = true
		}
		if r.One(10) {
			for k := 0; k < stages; k++ {
				failing[k] = true
			}
		}
		r.Log("input %q output %q text %q layers %d modifiers %d failing stages %v", in, out, text, len(layers), nm, failing)
		errs := make([]error, stages)
		st := 0
		mk := func(name string) *fake {
			f := &fake{log: &log, name: name, mesh: mesh, om: om, layers: layers, text: text}
			if failing[st] {
				f.err = errors.New("failure of " + name)
				errs[st] = f.err
			}
			st++
			return f
		}
		s := &goslice.GoSlice{Options: o.GoSlice}
		s.Reader = fReader{mk("reader")}
		s.Optimizer = fOptimizer{mk("optimizer")}
		s.Slicer = fSlicer{mk("slicer")}
		for k := 0; k < nm; k++ {
			s.Modifiers = append(s.Modifiers, handler.LayerModifier(fModifier{mk(fmt.Sprint("modifier", k))}))
		}
		s.Generator = fGenerator{mk("generator")}
		s.Writer = fWriter{mk("writer")}

		dest := out
		if dest == "" {
			dest = in + ".gcode"
		}
		var want []string
		var wantErr error
		step := func(n int, lines ...string) {
			if wantErr == nil {
				want = append(want, lines...)
				wantErr = errs[n]
			}
		}
		step(0, fmt.Sprintf("reader: read %q", in))
		step(1, "optimizer: optimize true")
		step(2, "slicer: slice true")
		for k := 0; k < nm; k++ {
			ls := ""
			for _, l := range layers {
				ls += fmt.Sprint(l.(*layer).n+k, ",")
			}
			step(3+k, fmt.Sprintf("modifier%d: init true", k), fmt.Sprintf("modifier%d: modify true %s", k, ls))
		}
		step(3+nm, "generator: init true", "generator: generate true")
		step(4+nm, fmt.Sprintf("writer: write %q %q", text, dest))

		err := s.Process()
		r.Check(strings.Join(log, "\n") == strings.Join(want, "\n"), "stages %q instead of %q", log, want)
		r.Check(err == wantErr, "error %v instead of %v", err, wantErr)
	})
}
