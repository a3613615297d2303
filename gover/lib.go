// Models of library functions (part of the trusted base).
package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type libFn func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val

func (x *Exec) libModel(fn *ssa.Function) libFn {
	n := shortName(fn)
	m := libTable[n]
	if m == nil {
		switch {
		case strings.HasPrefix(n, "(*log.Logger).Print"), n == "fmt.Println", n == "fmt.Printf", n == "fmt.Print", n == "fmt.Fprintf", n == "fmt.Fprintln":
			m = libIgnore
		case strings.HasPrefix(n, "math."):
			m = libUF
		case strings.HasPrefix(n, "pflag.") && (strings.HasSuffix(n, "Var") || strings.HasSuffix(n, "VarP")):
			m = flagVar
		}
	}
	if m != nil {
		x.sh.mu.Lock()
		x.sh.trust["model "+n] = true
		x.sh.mu.Unlock()
	}
	return m
}

func errVal(what string, args ...*Term) Val {
	T := types.Universe.Lookup("error").Type()
	return Val{T, []*Term{typeTag(T), mkApp("err:"+what, SInt, args...)}}
}
func nilErr() Val {
	return zeroVal(types.Universe.Lookup("error").Type())
}

// libIgnore: no observable effect; results unconstrained.
func libIgnore(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
	var out []Val
	for k := 0; k < fn.Signature.Results().Len(); k++ {
		out = append(out, freshVal("ign", fn.Signature.Results().At(k).Type()))
	}
	return out
}

// libUF: deterministic function of scalar arguments.
func libUF(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
	n := shortName(fn)
	var ls []*Term
	for _, a := range args {
		ls = append(ls, a.L...)
	}
	if len(ls) == 1 {
		if f, ok := fconst(ls[0]); ok {
			switch n {
			case "math.Sqrt":
				return []Val{{fn.Signature.Results().At(0).Type(), []*Term{f64Const(math.Sqrt(f))}}}
			case "math.Round":
				return []Val{{fn.Signature.Results().At(0).Type(), []*Term{f64Const(math.Round(f))}}}
			case "math.RoundToEven":
				return []Val{{fn.Signature.Results().At(0).Type(), []*Term{f64Const(math.RoundToEven(f))}}}
			}
		}
	}
	var out []Val
	for k := 0; k < fn.Signature.Results().Len(); k++ {
		T := fn.Signature.Results().At(k).Type()
		v := Val{T: T}
		for _, l := range leavesOf(T) {
			sfx := ""
			if fn.Signature.Results().Len() > 1 {
				sfx = fmt.Sprintf("#%d", k)
			}
			v.L = append(v.L, mkApp(n+sfx+l.path, l.sort, ls...))
		}
		if !x.spec {
			x.valFacts(st, v)
		}
		out = append(out, v)
	}
	return out
}

// elems reads a slice with a literal number of elements.
func (x *Exec) elems(st *State, s Val) ([]Val, bool) {
	if !isInt(s.L[2]) || s.L[2].iv.Int64() > 64 {
		return nil, false
	}
	et := s.T.Underlying().(*types.Slice).Elem()
	y := *x
	y.spec = true
	var out []Val
	for k := int64(0); k < s.L[2].iv.Int64(); k++ {
		out = append(out, y.load(st, elemPtr(s.L[0], mkAdd(s.L[1], mkInt(k)), typeKey(et), 0), et))
	}
	return out, true
}

// unboxAny turns an interface{} value into its dynamic value if known.
func unboxAny(v Val) Val {
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		if dt := tagToType(v.L[0]); dt != nil {
			return unboxVal(v.L[1], dt)
		}
	}
	return v
}

func (x *Exec) fmtValue(st *State, verb string, v Val) *Term {
	v = unboxAny(v)
	if len(v.L) == 1 && v.L[0].sort == SStr && (verb == "%s" || verb == "%v") {
		if _, ok := v.T.(*types.Basic); ok || v.T.String() == "string" {
			return v.L[0]
		}
	}
	b, isB := v.T.Underlying().(*types.Basic)
	named := false
	if n, ok := v.T.(*types.Named); ok {
		ms := types.NewMethodSet(n)
		if ms.Lookup(n.Obj().Pkg(), "String") != nil || ms.Lookup(n.Obj().Pkg(), "Error") != nil {
			named = true
		}
	}
	if named && (verb == "%v" || verb == "%s") {
		fn := x.p.prog.LookupMethod(v.T, v.T.(*types.Named).Obj().Pkg(), "String")
		if fn != nil {
			if r, err := x.pureCall(st, fn, []Val{v}); err == "" && len(r.L) == 1 {
				return r.L[0]
			}
		}
	}
	if isB && len(v.L) == 1 {
		t := v.L[0]
		if isInt(t) && (verb == "%d" || verb == "%v") && b.Info()&types.IsInteger != 0 {
			return mkLit(t.iv.String())
		}
		if b.Info()&types.IsInteger != 0 && verb == "%d" {
			verb = "%v"
		}
		// the static type matters for floats (float32 prints differently)
		k := ""
		if t.sort == SF32 {
			k = "32"
		}
		if f, ok := fconst(t); ok {
			if k == "32" {
				return mkLit(fmt.Sprintf(verb, float32(f)))
			}
			return mkLit(fmt.Sprintf(verb, f))
		}
		return mkApp("fmt"+k+":"+verb, SStr, t)
	}
	return mkApp("fmt:"+verb+":"+typeKey(v.T), SStr, v.L...)
}

// format implements Sprintf for a literal format.
func (x *Exec) format(st *State, f string, args []Val) *Term {
	var parts []*Term
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, mkLit(f[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			parts = append(parts, mkLit("%!(NOVERB)"))
			break
		}
		verb := f[i : j+1]
		i = j + 1
		if verb[len(verb)-1] == '%' {
			parts = append(parts, mkLit("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, mkLit("%!"+verb[1:]+"(MISSING)"))
			continue
		}
		parts = append(parts, x.fmtValue(st, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		parts = append(parts, mkApp("fmt:EXTRA", SStr))
	}
	return mkConcat(parts...)
}

func (x *Exec) sprintf(st *State, fv Val, va Val) *Term {
	l := litOf(fv.L[0])
	as, ok := x.elems(st, va)
	if l != nil && ok {
		return x.format(st, *l, as)
	}
	if ok {
		ts := []*Term{fv.L[0]}
		for _, a := range as {
			ts = append(ts, unboxAny(a).L...)
		}
		sfx := ""
		for _, t := range ts {
			sfx += string(t.sort) + ","
		}
		return mkApp("fmt.dyn:"+sfx, SStr, ts...)
	}
	return mkApp("fmt.dynv", SStr, append(append([]*Term{}, fv.L...), va.L...)...)
}

func strT() types.Type { return types.Typ[types.String] }

func lit2(args []Val) (string, string, bool) {
	a, b := litOf(args[0].L[0]), litOf(args[1].L[0])
	if a == nil || b == nil {
		return "", "", false
	}
	return *a, *b, true
}

var libTable map[string]libFn

func init() {
	libTable = map[string]libFn{
		"fmt.Sprintf": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return []Val{{strT(), []*Term{x.sprintf(st, args[0], args[1])}}}
		},
		"fmt.Sprint": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			as, ok := x.elems(st, args[0])
			if !ok || len(as) != 1 {
				panic(unsupported("fmt.Sprint with several operands"))
			}
			return []Val{{strT(), []*Term{x.fmtValue(st, "%v", as[0])}}}
		},
		"fmt.Errorf": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return []Val{errVal("fmt", x.sprintf(st, args[0], args[1]))}
		},
		"errors.New": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return []Val{errVal("new", args[0].L[0])}
		},
		"errors.Is": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			t := mkApp("errors.Is", SBool, append(append([]*Term{}, args[0].L...), args[1].L...)...)
			t = mkIte(mkEq(args[0].L[0], tZero), mkEq(args[1].L[0], tZero), t)
			return []Val{{fn.Signature.Results().At(0).Type(), []*Term{t}}}
		},
		"strings.Contains": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			t := mkApp("strings.Contains", SBool, args[0].L[0], args[1].L[0])
			if a, b, ok := lit2(args); ok {
				t = mkBool(strings.Contains(a, b))
			}
			return []Val{{fn.Signature.Results().At(0).Type(), []*Term{t}}}
		},
		"strings.TrimSpace": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			if l := litOf(args[0].L[0]); l != nil {
				return []Val{{strT(), []*Term{mkLit(strings.TrimSpace(*l))}}}
			}
			return []Val{{strT(), []*Term{mkApp("strings.TrimSpace", SStr, args[0].L[0])}}}
		},
		"strings.Replace": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return []Val{{strT(), []*Term{mkApp("strings.Replace", SStr, args[0].L[0], args[1].L[0], args[2].L[0], args[3].L[0])}}}
		},
		"strings.ReplaceAll": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return []Val{{strT(), []*Term{mkApp("strings.Replace", SStr, args[0].L[0], args[1].L[0], args[2].L[0], mkInt(-1))}}}
		},
		"strings.Split":  libSplit,
		"strings.Fields": libSplit,
		"strings.Join": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			h := x.heapGet(st, elemKey("string", 0), arrSort(SInt, arrSort(SInt, SStr)))
			return []Val{{strT(), []*Term{mkApp("strings.Join", SStr, mkSelect(h, args[0].L[0]), args[0].L[1], args[0].L[2], args[1].L[0])}}}
		},
		"strconv.Atoi": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return parseModel(x, st, "strconv.Atoi", fn, args)
		},
		"strconv.ParseInt": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return parseModel(x, st, "strconv.ParseInt", fn, args)
		},
		"strconv.ParseFloat": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return parseModel(x, st, "strconv.ParseFloat", fn, args)
		},
		"strconv.Itoa": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			return []Val{{strT(), []*Term{x.fmtValue(st, "%v", args[0])}}}
		},
		"strconv.FormatInt":   libUF,
		"strconv.FormatFloat": libUF,
		"bits.Mul64": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			T := fn.Signature.Results().At(0).Type()
			hi, lo := freshVar("mulhi", SInt), freshVar("mullo", SInt)
			two64 := mkBig(new(big.Int).Lsh(big.NewInt(1), 64))
			st.assume(mkEq(mkAdd(mkMul(hi, two64), lo), mkMul(args[0].L[0], args[1].L[0])))
			st.assume(mkAnd(mkLe(tZero, hi), mkLt(hi, two64), mkLe(tZero, lo), mkLt(lo, two64)))
			return []Val{{T, []*Term{hi}}, {T, []*Term{lo}}}
		},
		"bits.Div64": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			T := fn.Signature.Results().At(0).Type()
			q, r := freshVar("quo", SInt), freshVar("rem", SInt)
			two64 := mkBig(new(big.Int).Lsh(big.NewInt(1), 64))
			x.oblige(st, "div", "bits.Div64 quotient fits", i.Pos(), mkLt(args[0].L[0], args[2].L[0]))
			st.assume(mkEq(mkAdd(mkMul(q, args[2].L[0]), r), mkAdd(mkMul(args[0].L[0], two64), args[1].L[0])))
			st.assume(mkAnd(mkLe(tZero, q), mkLt(q, two64), mkLe(tZero, r), mkLt(r, args[2].L[0])))
			return []Val{{T, []*Term{q}}, {T, []*Term{r}}}
		},
		"bytes.NewBuffer": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			ref := x.newRef(st)
			k := objKey("bytes.Buffer", 0)
			h := x.heapGet(st, k, arrSort(SInt, SStr))
			x.noteWrite(st, k, ref)
			c := mkConcat()
			if !(isInt(args[0].L[2]) && args[0].L[2].iv.Sign() == 0) {
				c = mkApp("str.frombytes", SStr, args[0].L...)
			}
			st.heap[k] = mkStore(h, ref, c)
			return []Val{{fn.Signature.Results().At(0).Type(), []*Term{ref}}}
		},
		"(*bytes.Buffer).WriteString": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			x.bufWrite(st, args[0], args[1].L[0], i)
			return []Val{{types.Typ[types.Int], []*Term{strLen(args[1].L[0])}}, nilErr()}
		},
		"(*bytes.Buffer).String": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			v := x.load(st, args[0].L[0], derefType(fn.Signature.Recv().Type()))
			return []Val{{strT(), v.L}}
		},
		"(*bytes.Buffer).Reset": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			T := derefType(fn.Signature.Recv().Type())
			x.store(st, args[0].L[0], Val{T, []*Term{mkConcat()}})
			return []Val{}
		},
		"pflag.Parse": flagParse,
		"pflag.NArg": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			n := mkApp("flag.narg", SInt)
			st.assume(mkLe(tZero, n))
			return []Val{{types.Typ[types.Int], []*Term{n}}}
		},
		"pflag.Args": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			ref := x.newRef(st)
			k := elemKey("string", 0)
			h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, SStr)))
			x.noteWrite(st, k, ref)
			st.heap[k] = mkStore(h, ref, mkApp("flag.args", arrSort(SInt, SStr)))
			n := mkApp("flag.narg", SInt)
			st.assume(mkLe(tZero, n))
			return []Val{{fn.Signature.Results().At(0).Type(), []*Term{ref, tZero, n, n}}}
		},
		"time.Now":        libIgnore,
		"(time.Time).Sub": libIgnore,
		"time.Since":      libIgnore,
		"os.Exit": func(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
			panic(stopPath{"exit"})
		},
	}
}

func (x *Exec) bufWrite(st *State, p Val, s *Term, i *ssa.Call) {
	if i != nil {
		x.nilCheck(st, p.L[0], i.Pos())
	}
	T := derefType(p.T)
	v := x.load(st, p.L[0], T)
	x.store(st, p.L[0], Val{T, []*Term{mkConcat(v.L[0], s)}})
}

func libSplit(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
	T := fn.Signature.Results().At(0).Type()
	ref := x.newRef(st)
	n := shortName(fn)
	var ls []*Term
	for _, a := range args {
		ls = append(ls, a.L...)
	}
	k := elemKey("string", 0)
	h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, SStr)))
	x.noteWrite(st, k, ref)
	st.heap[k] = mkStore(h, ref, mkApp(n+".row", arrSort(SInt, SStr), ls...))
	ln := mkApp(n+".len", SInt, ls...)
	lo := int64(0)
	if n == "strings.Split" {
		if l := litOf(args[1].L[0]); l != nil && *l != "" {
			lo = 1
		}
	}
	st.assume(mkLe(mkInt(lo), ln))
	return []Val{{T, []*Term{ref, tZero, ln, ln}}}
}

func parseModel(x *Exec, st *State, n string, fn *ssa.Function, args []Val) []Val {
	T := fn.Signature.Results().At(0).Type()
	var ls []*Term
	for _, a := range args {
		ls = append(ls, a.L...)
	}
	if l := litOf(ls[0]); l != nil && n == "strconv.Atoi" {
		if v, err := strconv.Atoi(*l); err == nil {
			return []Val{{T, []*Term{mkInt(int64(v))}}, nilErr()}
		}
	}
	v := Val{T, []*Term{mkApp(n, leavesOf(T)[0].sort, ls...)}}
	if !x.spec {
		x.valFacts(st, v)
	}
	bad := mkApp(n+".err", SBool, ls...)
	e := errVal(n, ls...)
	return []Val{v, {e.T, []*Term{mkIte(bad, e.L[0], tZero), mkIte(bad, e.L[1], tZero)}}}
}

// flagVar: pflag.XxxVar(&target, name, default, usage) stores the default; pflag.Var(value, name, usage) does not.
func flagVar(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
	n := shortName(fn)
	ptr := args[0]
	def := -1
	if !strings.HasPrefix(n, "pflag.Var") {
		def = 2
		if strings.HasSuffix(n, "P") {
			def = 3
		}
	} else {
		ptr = unboxAny(ptr)
		if _, ok := ptr.T.Underlying().(*types.Pointer); !ok {
			panic(unsupported("flag value of unknown type"))
		}
	}
	name := litOf(args[1].L[0])
	if name == nil {
		panic(unsupported("flag with a computed name"))
	}
	for _, f := range st.flags {
		if f.name == *name {
			x.oblige(st, "flag", "flag "+*name+" is defined only once", i.Pos(), tFalse)
		}
	}
	if def >= 0 {
		x.store(st, ptr.L[0], Val{derefType(ptr.T), args[def].L})
	}
	st.flags = append(st.flags[:len(st.flags):len(st.flags)], flagReg{*name, ptr})
	return nil
}

func flagGiven(name string) *Term { return mkApp("flag.given", SBool, mkLit(name)) }

// flagValue: the value of type T which is written on the command line for the flag.
func flagValue(name string, T types.Type) Val {
	v := Val{T: T}
	for k, l := range leavesOf(T) {
		v.L = append(v.L, mkApp(fmt.Sprintf("flag.value:%s:%d", l.sort, k), l.sort, mkLit(name)))
	}
	return v
}

// flagParse: pflag.Parse stores the value of each given flag in the target it was defined with (and ends the process
// if there is an unknown flag or a value is rejected).
func flagParse(x *Exec, st *State, i *ssa.Call, fn *ssa.Function, args []Val) []Val {
	a := freshVar("alloc", SInt)
	st.assume(mkLe(st.alloc, a))
	st.alloc = a
	for _, f := range st.flags {
		T := derefType(f.ptr.T)
		old := x.load(st, f.ptr.L[0], T)
		v := flagValue(f.name, T)
		x.valFacts(st, v)
		g := flagGiven(f.name)
		for k := range v.L {
			v.L[k] = mkIte(g, v.L[k], old.L[k])
		}
		x.store(st, f.ptr.L[0], v)
	}
	return nil
}
