//go:build go1.22

package modifier

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/vh"
)

type attrLayer struct {
	data.PartitionedLayer
	a map[string]interface{}
}

func (l attrLayer) Attributes() map[string]interface{} { return l.a }

func someParts(r *vh.R) []data.LayerPart {
	if r.One(5) {
		return nil
	}
	ps := make([]data.LayerPart, r.Intn(4), 6)
	for k := range ps {
		ps[k] = data.NewBasicLayerPart(data.Path{data.NewMicroPoint(data.Micrometer(r.Intn(100)), 0)}, nil)
	}
	return ps
}

func TestVerifC26Attributes(t *testing.T) {
	type named []data.LayerPart
	read := map[string]func(l data.PartitionedLayer) (any, error){
		"bottom":            func(l data.PartitionedLayer) (any, error) { return BottomInfill(l) },
		"top":               func(l data.PartitionedLayer) (any, error) { return TopInfill(l) },
		"fullSupport":       func(l data.PartitionedLayer) (any, error) { return FullSupport(l) },
		"outerBrim":         func(l data.PartitionedLayer) (any, error) { return BrimOuterDimension(l) },
		"brim":              func(l data.PartitionedLayer) (any, error) { return Brim(l) },
		"perimeters":        func(l data.PartitionedLayer) (any, error) { return Perimeters(l) },
		"overlapPerimeters": func(l data.PartitionedLayer) (any, error) { return OverlapPerimeters(l) },
	}
	keys := []string{"bottom", "top", "fullSupport", "outerBrim", "brim", "perimeters", "overlapPerimeters", "infill", "support", "supportInterface", "", "x"}
	for _, k := range keys {
		if read[k] == nil {
			k := k
			read[k] = func(l data.PartitionedLayer) (any, error) { return PartsAttribute(l, k) }
		}
	}
	vh.Run(t, "C26", "attribute maps with up to 12 keys and 10 types of values (also nil and empty ones), read by every accessor before and after up to 4 extensions; non-trivial: distinct inputs", func(r *vh.R) {
		parts := []data.LayerPart{data.NewBasicLayerPart(data.Path{data.NewMicroPoint(1, 2), data.NewMicroPoint(data.Micrometer(r.Intn(50)), 9)}, nil)}
		base := data.NewPartitionedLayer(parts[:r.Intn(2)])
		var a map[string]interface{}
		if !r.One(6) {
			a = map[string]interface{}{}
			for _, k := range keys {
				if r.One(2) {
					continue
				}
				switch r.Intn(14) {
				case 0:
					a[k] = nil
				case 1:
					a[k] = r.Intn(5)
				case 2:
					a[k] = named(someParts(r))
				case 3:
					a[k] = [][][]data.LayerPart{{someParts(r)}}
				case 4:
					a[k] = clip.OffsetResult(nil)
				case 5:
					a[k] = clip.OffsetResult{{someParts(r), nil}, nil}
				case 8:
					a[k] = clip.OffsetResult{}
				case 9:
					a[k] = []data.LayerPart{}
				case 10:
					a[k] = [][]data.LayerPart{}
				case 6, 7:
					a[k] = [][]data.LayerPart{someParts(r), nil}
				default:
					a[k] = someParts(r)
				}
			}
		}
		want := map[string]interface{}{}
		for k, v := range a {
			want[k] = v
		}
		r.Log("attributes %v parts %d", a, len(base.LayerParts()))
		var l data.PartitionedLayer = attrLayer{base, a}
		check := func(l data.PartitionedLayer) {
			for _, k := range keys {
				got, err := read[k](l)
				w, have := want[k]
				rt := reflect.TypeOf(got)
				switch {
				case !have:
					r.Check(err == nil && reflect.ValueOf(got).IsNil(), "%q: got %v, %v for a missing attribute", k, got, err)
				case w != nil && reflect.TypeOf(w) == rt:
					g, x := reflect.ValueOf(got), reflect.ValueOf(w)
					r.Check(err == nil && g.Len() == x.Len() && g.IsNil() == x.IsNil() && (g.IsNil() || g.Pointer() == x.Pointer()), "%q: got %v, %v instead of %v", k, got, err, w)
				default:
					r.Check(err != nil && reflect.ValueOf(got).IsNil(), "%q: got %v, %v for a value of type %T", k, got, err, w)
				}
			}
			r.Check(len(l.LayerParts()) == len(base.LayerParts()), "geometry changed")
			for k := range l.LayerParts() {
				r.Check(reflect.DeepEqual(l.LayerParts()[k], base.LayerParts()[k]), "geometry changed")
			}
			a1, a2 := l.Bounds()
			b1, b2 := base.Bounds()
			r.Check(fmt.Sprint(a1.X(), a1.Y(), a2.X(), a2.Y()) == fmt.Sprint(b1.X(), b1.Y(), b2.X(), b2.Y()), "bounds changed")
			r.Check(len(l.Attributes()) == len(want), "attributes %v instead of %v", l.Attributes(), want)
		}
		check(l)
		for k := r.Intn(5); k > 0; k-- {
			var x extendedLayer
			if r.Bool() {
				x = newExtendedLayer(l)
			} else {
				x = newExtendedLayer(l, "type")
				r.Check(x.typ == "type", "type is %q", x.typ)
			}
			check(x)
			if r.Bool() { // a new attribute is kept by the next extension
				key := keys[r.Intn(len(keys))]
				ps := someParts(r)
				x.attributes[key] = ps
				want[key] = ps
				check(x)
			}
			l = x
		}
	})
}
