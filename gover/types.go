// Go types flattened to leaves.
package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

type Leaf struct {
	path string
	sort Sort
	typ  types.Type // type of the scalar or compound this leaf belongs to
	part string     // "", arr, off, len, cap, tag, val
}

var (
	leafMu    sync.Mutex
	leafCache = map[string][]Leaf{}
)

const modPath = "github.com/aligator/goslice"

var (
	keyMu    sync.Mutex
	keyTypes = map[string]types.Type{}
)

func typeKey(t types.Type) string {
	k := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	keyMu.Lock()
	keyTypes[k] = t
	keyMu.Unlock()
	return k
}

// keyLeaf returns the leaf a heap key "H:type:i" or "S:type:i" stores.
func keyLeaf(key string) (Leaf, bool) {
	i := strings.LastIndexByte(key, ':')
	if i < 2 || key[0] == 'M' {
		return Leaf{}, false
	}
	keyMu.Lock()
	t := keyTypes[key[2:i]]
	keyMu.Unlock()
	if t == nil {
		return Leaf{}, false
	}
	n := 0
	fmt.Sscan(key[i+1:], &n)
	ls := leavesOf(t)
	if n >= len(ls) {
		return Leaf{}, false
	}
	return ls[n], true
}

// opaqueStruct: struct types of other modules which are never looked into.
func opaqueStruct(n *types.Named) bool {
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), modPath) || p.Path() == "" {
		return false
	}
	switch p.Path() + "." + n.Obj().Name() {
	case "github.com/hschendel/stl.Triangle", "github.com/aligator/go.clipper.IntPoint", "github.com/aligator/go.clipper.PolyNode", "github.com/aligator/go.clipper.PolyTree", "github.com/aligator/go.clipper.ClipperOffset", "github.com/hschendel/stl.Solid":
		return false
	}
	return true
}

func isBuffer(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

func basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Info()&types.IsInteger != 0:
		return SInt
	case b.Kind() == types.Float32:
		return SF32
	case b.Info()&types.IsFloat != 0:
		return SF64
	}
	return SInt
}

func leavesOf(t types.Type) []Leaf {
	k := types.TypeString(t, nil)
	leafMu.Lock()
	if l, ok := leafCache[k]; ok {
		leafMu.Unlock()
		return l
	}
	leafMu.Unlock()
	l := computeLeaves(t)
	leafMu.Lock()
	leafCache[k] = l
	leafMu.Unlock()
	return l
}

func computeLeaves(t types.Type) []Leaf {
	if n, ok := t.(*types.Named); ok {
		if isBuffer(n) {
			return []Leaf{{"content", SStr, t, ""}}
		}
		if _, ok := n.Underlying().(*types.Struct); ok && opaqueStruct(n) {
			return []Leaf{{"", SInt, t, "opaque"}}
		}
	}
	switch u := t.Underlying().(type) {
	case *ghostArr:
		return []Leaf{{"", arrSort(SInt, leavesOf(u.elem)[0].sort), t, ""}}
	case *types.Basic:
		return []Leaf{{"", basicSort(u), t, ""}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, t, ""}}
	case *types.Slice:
		return []Leaf{{"#arr", SInt, t, "arr"}, {"#off", SInt, t, "off"}, {"#len", SInt, t, "len"}, {"#cap", SInt, t, "cap"}}
	case *types.Interface:
		return []Leaf{{"#tag", SInt, t, "tag"}, {"#val", SInt, t, "val"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				l.path = "." + u.Field(i).Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		if u.Len() > 64 {
			panic(unsupported("array of " + fmt.Sprint(u.Len()) + " elements"))
		}
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leavesOf(u.Elem()) {
				l.path = fmt.Sprintf("[%d]%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				l.path = fmt.Sprintf("(%d)%s", i, l.path)
				out = append(out, l)
			}
		}
		return out
	case *types.TypeParam:
		return []Leaf{{"", SInt, t, "opaque"}}
	}
	panic(unsupported(fmt.Sprintf("type %s (%T)", t, t)))
}

func nLeaves(t types.Type) int { return len(leavesOf(t)) }

// fieldOffset is the leaf offset of field i in struct type t.
func fieldOffset(t types.Type, i int) (int, types.Type) {
	s := t.Underlying().(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += nLeaves(s.Field(j).Type())
	}
	return off, s.Field(i).Type()
}

func tupleOffset(t *types.Tuple, i int) int {
	off := 0
	for j := 0; j < i; j++ {
		off += nLeaves(t.At(j).Type())
	}
	return off
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string      { return "unsupported: " + u.msg }
func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

// dynamic type tags
var (
	tagMu   sync.Mutex
	tagIDs  = map[string]int64{}
	tagType = map[int64]types.Type{}
)

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	tagMu.Lock()
	defer tagMu.Unlock()
	id, ok := tagIDs[k]
	if !ok {
		id = int64(len(tagIDs) + 1)
		tagIDs[k] = id
		tagType[id] = t
	}
	return mkInt(id)
}

func tagToType(t *Term) types.Type {
	if !isInt(t) {
		return nil
	}
	tagMu.Lock()
	defer tagMu.Unlock()
	return tagType[t.iv.Int64()]
}

// scalarPtr: payloads of this type are stored directly in the interface.
func directIface(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func zeroLeaf(l Leaf) *Term {
	switch l.sort {
	case SInt:
		return tZero
	case SBool:
		return tFalse
	case SStr:
		return mkConcat()
	case SF32:
		return f32Const(0)
	case SF64:
		return f64Const(0)
	}
	panic("zeroLeaf " + string(l.sort))
}

type Val struct {
	T types.Type
	L []*Term
}

func zeroVal(t types.Type) Val {
	ls := leavesOf(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = zeroLeaf(l)
	}
	return v
}

func freshVal(name string, t types.Type) Val {
	ls := leavesOf(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = freshVar(name+l.path, l.sort)
	}
	return v
}

// boxing of non-pointer values into interfaces: pure constructor terms.
func boxVal(v Val) *Term {
	if directIface(v.T) {
		return v.L[0]
	}
	name := "box:" + typeKey(v.T)
	if _, ok := boxTypes.Load(name); !ok {
		boxTypes.Store(name, leavesOf(v.T))
	}
	return mkApp(name, SInt, v.L...)
}

var boxTypes sync.Map // box function -> its leaves

func unboxVal(payload *Term, t types.Type) Val {
	if directIface(t) {
		return Val{t, []*Term{payload}}
	}
	ls := leavesOf(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	name := "box:" + typeKey(t)
	if payload.op == OApp && payload.name == name && len(payload.args) == len(ls) {
		copy(v.L, payload.args)
		return v
	}
	for i, l := range ls {
		v.L[i] = mkApp("un"+name+l.path, l.sort, payload)
	}
	return v
}
