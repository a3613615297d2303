//go:build go1.22

// Package vhp runs the whole slicing pipeline on a model in memory.
package vhp

import (
	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

type memReader struct{ m data.Model }

func (r memReader) Read(string) (data.Model, error) { return r.m, nil }

type memWriter struct{ text *string }

func (w memWriter) Write(gcode, _ string) error { *w.text = gcode; return nil }

type spy struct{ layers *[]data.PartitionedLayer }

func (s spy) Init(data.OptimizedModel) {}
func (s spy) GetName() string          { return "spy" }
func (s spy) Modify(layers []data.PartitionedLayer) error {
	*s.layers = append([]data.PartitionedLayer{}, layers...)
	return nil
}

// Result of slicing.
type Result struct {
	GCode  string
	Cut    []data.PartitionedLayer // as cut
	Layers []data.PartitionedLayer // after all modifiers
	Err    error
}

// Slice runs the built-in steps.
func Slice(m data.Model, o data.Options) *Result {
	r := &Result{}
	s := goslice.NewGoSlice(o)
	s.Reader = memReader{m}
	s.Writer = memWriter{&r.GCode}
	s.Modifiers = append(append([]handler.LayerModifier{spy{&r.Cut}}, s.Modifiers...), spy{&r.Layers})
	r.Err = s.Process()
	return r
}
