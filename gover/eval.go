// Evaluation of specification expressions over symbolic states.
package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ghostArr is the type of specification maps.
type ghostArr struct{ elem types.Type }

func (g *ghostArr) Underlying() types.Type { return g }
func (g *ghostArr) String() string         { return "ghostmap[" + g.elem.String() + "]" }

var (
	tyInt  = types.Typ[types.UntypedInt]
	tyBool = types.Typ[types.Bool]
	tySeq  = types.Typ[types.String]
)

type Env struct {
	x      *Exec
	st     *State
	old    *State
	vars   map[string]Val
	locals func(name string) (Val, bool)
	prev   *Env
	callst *State // state whose call log is used
}

type specErr struct{ msg string }

func (e *Env) fail(x *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s: %s", x.pos, fmt.Sprintf(f, a...))})
}

func (e *Env) with(name string, v Val) *Env {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}

func (e *Env) boolean(x *Expr) *Term {
	v := e.eval(x)
	if len(v.L) != 1 || v.L[0].sort != SBool {
		e.fail(x, "not a boolean")
	}
	return v.L[0]
}
func (e *Env) term(x *Expr) *Term {
	v := e.eval(x)
	if len(v.L) != 1 {
		e.fail(x, "not a scalar: %s of %s", x.k, v.T)
	}
	return v.L[0]
}

func iv(t *Term) Val { return Val{tyInt, []*Term{t}} }
func bv(t *Term) Val { return Val{tyBool, []*Term{t}} }
func sv(t *Term) Val { return Val{tySeq, []*Term{t}} }

func (e *Env) lookup(name string) (Val, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	if e.locals != nil {
		if v, ok := e.locals(name); ok {
			return v, true
		}
	}
	return Val{}, false
}

func (e *Env) spec() *Exec {
	y := *e.x
	y.spec = true
	y.disc = nil
	y.work = nil
	return &y
}

func (e *Env) eval(x *Expr) Val {
	switch x.k {
	case "float":
		f, _ := strconv.ParseFloat(x.s, 64)
		return Val{types.Typ[types.Float64], []*Term{f64Const(f)}}
	case "int":
		b, _ := new(big.Int).SetString(x.s, 10)
		return iv(mkBig(b))
	case "str":
		return sv(mkLit(x.s))
	case "id":
		switch x.s {
		case "true":
			return bv(tTrue)
		case "false":
			return bv(tFalse)
		case "nil":
			return Val{types.Typ[types.UntypedNil], []*Term{tZero}}
		}
		if v, ok := e.lookup(x.s); ok {
			return v
		}
		if k := ghostKeys[x.s]; k != "" { // ghost: what happened so far
			h := e.spec().heapGet(e.st, k, arrSort(SInt, SStr))
			return sv(mkSelect(h, traceRef))
		}
		e.fail(x, "unknown name %s", x.s)
	case "un":
		switch x.s {
		case "!":
			return bv(mkNot(e.boolean(x.a[0])))
		case "-":
			v := e.eval(x.a[0])
			if v.L[0].sort != SInt {
				return Val{v.T, []*Term{mkFNeg(v.L[0].sort, v.L[0])}}
			}
			return Val{v.T, []*Term{mkNeg(v.L[0])}}
		case "*":
			v := e.eval(x.a[0])
			return e.spec().load(e.st, v.L[0], derefType(v.T))
		}
	case "bin":
		return e.bin(x)
	case "ite":
		c := e.boolean(x.a[0])
		if c == tTrue {
			return e.eval(x.a[1])
		} else if c == tFalse {
			return e.eval(x.a[2])
		}
		a := e.eval(x.a[1])
		b := e.eval(x.a[2])
		return mergeVal(c, a, b)
	case "first":
		v, ok := e.tryEval(x.a[0])
		if ok {
			return v
		}
		return e.eval(x.a[1])
	case "let":
		return e.with(x.s, e.eval(x.a[0])).eval(x.a[1])
	case "sel":
		return e.sel(x)
	case "idx":
		return e.index(x, e.eval(x.a[0]), e.eval(x.a[1]))
	case "slice":
		v := e.eval(x.a[0])
		lo := tZero
		if x.a[1] != nil {
			lo = e.term(x.a[1])
		}
		hi := (*Term)(nil)
		if x.a[2] != nil {
			hi = e.term(x.a[2])
		}
		if len(v.L) == 4 {
			if hi == nil {
				hi = v.L[2]
			}
			return Val{v.T, []*Term{v.L[0], mkAdd(v.L[1], lo), mkSub(hi, lo), mkSub(v.L[3], lo)}}
		}
		if hi == nil {
			hi = strLen(v.L[0])
		}
		return sv(mkApp("str.sub", SStr, v.L[0], lo, hi))
	case "call":
		return e.call(x)
	case "forall", "exists":
		return bv(e.quant(x))
	case "seq":
		k := boundVar(x.bv[0], SInt)
		lo := e.term(x.a[0])
		n := mkSub(e.term(x.a[1]), lo)
		body := e.with(x.bv[0], iv(mkAdd(k, lo))).term(x.a[2])
		return sv(mkFold(k, n, body))
	case "sum":
		k := boundVar(x.bv[0], SInt)
		lo := e.term(x.a[0])
		n := mkSub(e.term(x.a[1]), lo)
		body := e.with(x.bv[0], iv(mkAdd(k, lo))).term(x.a[2])
		return iv(mkSum(k, n, body))
	case "lambda":
		k := boundVar(x.bv[0], SInt)
		body := e.with(x.bv[0], iv(k)).eval(x.a[2])
		f := freshVar("lam", arrSort(SInt, body.L[0].sort))
		ax := mkForall([]*Term{k}, mkEq(mkSelect(f, k), body.L[0]), []*Term{mkSelect(f, k)})
		e.st.assume(ax)
		return Val{&ghostArr{body.T}, []*Term{f}}
	}
	e.fail(x, "cannot evaluate %s %s", x.k, x.s)
	return Val{}
}

func mergeVal(c *Term, a, b Val) Val {
	if len(a.L) != len(b.L) {
		if len(a.L) == 1 && a.L[0] == tZero { // nil
			a = zeroVal(b.T)
		} else if len(b.L) == 1 && b.L[0] == tZero {
			b = zeroVal(a.T)
		} else {
			panic(specErr{"merge of different shapes"})
		}
	}
	T := a.T
	if T == types.Type(tyInt) {
		T = b.T
	}
	v := Val{T, make([]*Term, len(a.L))}
	for i := range a.L {
		v.L[i] = mkIte(c, a.L[i], b.L[i])
	}
	return v
}

func isNilVal(v Val) bool {
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// sameVal: leafwise identity.
func (e *Env) sameVal(x *Expr, a, b Val) *Term {
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		return mkEq(a.L[0], tZero)
	}
	if len(a.L) != len(b.L) {
		// concrete pointer against interface
		if len(a.L) == 2 && len(b.L) == 1 {
			return mkAnd(mkEq(a.L[0], typeTag(b.T)), mkEq(a.L[1], b.L[0]))
		}
		if len(a.L) == 1 && len(b.L) == 2 {
			return mkAnd(mkEq(b.L[0], typeTag(a.T)), mkEq(b.L[1], a.L[0]))
		}
		e.fail(x, "comparison of %s and %s", a.T, b.T)
	}
	var cs []*Term
	y := e.spec()
	for i := range a.L {
		p, q := a.L[i], b.L[i]
		if p.op == OCell {
			p = y.resolve(e.st, p)
		}
		if q.op == OCell {
			q = y.resolve(e.st, q)
		}
		if p.sort != q.sort {
			p, q = coerceF(p, q)
		}
		cs = append(cs, mkEq(p, q))
	}
	return mkAnd(cs...)
}

// coerceF converts integer literals to floats.
func coerceF(p, q *Term) (*Term, *Term) {
	if isInt(p) && (q.sort == SF32 || q.sort == SF64) {
		return mkI2F(q.sort, p), q
	}
	if isInt(q) && (p.sort == SF32 || p.sort == SF64) {
		return p, mkI2F(p.sort, q)
	}
	return p, q
}

func (e *Env) bin(x *Expr) Val {
	switch x.s {
	case "&&":
		a := e.boolean(x.a[0])
		if a == tFalse {
			return bv(tFalse)
		}
		return bv(mkAnd(a, e.boolean(x.a[1])))
	case "||":
		a := e.boolean(x.a[0])
		if a == tTrue {
			return bv(tTrue)
		}
		return bv(mkOr(a, e.boolean(x.a[1])))
	case "==>":
		a := e.boolean(x.a[0])
		if a == tFalse {
			return bv(tTrue)
		}
		return bv(mkImp(a, e.boolean(x.a[1])))
	case "<==>":
		a, b := e.boolean(x.a[0]), e.boolean(x.a[1])
		return bv(mkAnd(mkImp(a, b), mkImp(b, a)))
	}
	a, b := e.eval(x.a[0]), e.eval(x.a[1])
	switch x.s {
	case "==":
		return bv(e.sameVal(x, a, b))
	case "!=":
		return bv(mkNot(e.sameVal(x, a, b)))
	case "++":
		return sv(mkConcat(a.L[0], b.L[0]))
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		e.fail(x, "operands of %s", x.s)
	}
	p, q := coerceF(a.L[0], b.L[0])
	a.L, b.L = []*Term{p}, []*Term{q}
	if p.sort != q.sort {
		e.fail(x, "operand sorts %s %s of %s", p.sort, q.sort, x.s)
	}
	T := a.T
	if T == types.Type(tyInt) {
		T = b.T
	}
	if p.sort == SInt {
		switch x.s {
		case "+":
			return Val{T, []*Term{mkAdd(p, q)}}
		case "-":
			return Val{T, []*Term{mkSub(p, q)}}
		case "*":
			return Val{T, []*Term{mkMul(p, q)}}
		case "/":
			return Val{T, []*Term{mkTDiv(p, q)}}
		case "%":
			return Val{T, []*Term{mkTMod(p, q)}}
		case "<":
			return bv(mkLt(p, q))
		case "<=":
			return bv(mkLe(p, q))
		case ">":
			return bv(mkLt(q, p))
		case ">=":
			return bv(mkLe(q, p))
		}
	}
	ops := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}
	o, ok := ops[x.s]
	if !ok {
		e.fail(x, "operator %s", x.s)
	}
	a.T, b.T = T, T
	v := e.spec().binop(e.st, o, a, b, T, token.NoPos)
	if hasPrefixAny(x.s, "<", ">") {
		v.T = tyBool
	}
	return v
}

func (e *Env) index(x *Expr, v, i Val) Val {
	if g, ok := v.T.(*ghostArr); ok {
		return Val{g.elem, []*Term{mkSelect(v.L[0], i.L[0])}}
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return e.spec().load(e.st, elemPtr(v.L[0], mkAdd(v.L[1], i.L[0]), typeKey(u.Elem()), 0), u.Elem())
	case *types.Map:
		y := e.spec()
		dom, w := y.mapGet(e.st, v, i)
		z := zeroVal(u.Elem())
		return mergeVal(dom, w, z)
	case *types.Basic:
		return iv(mkApp("str.at", SInt, v.L[0], i.L[0]))
	case *types.Array:
		n := nLeaves(u.Elem())
		if isInt(i.L[0]) {
			k := int(i.L[0].iv.Int64())
			return Val{u.Elem(), v.L[k*n : (k+1)*n]}
		}
		out := Val{u.Elem(), append([]*Term{}, v.L[:n]...)}
		for j := 0; j < n; j++ {
			for k := 1; k < int(u.Len()); k++ {
				out.L[j] = mkIte(mkEq(i.L[0], mkInt(int64(k))), v.L[k*n+j], out.L[j])
			}
		}
		return out
	case *types.Pointer:
		return e.index(x, e.spec().load(e.st, v.L[0], u.Elem()), i)
	}
	e.fail(x, "index of %s", v.T)
	return Val{}
}

// pkgMember: package constant, variable or function
func (e *Env) pkgOf(x *Expr) *types.Package {
	if x.k != "id" {
		return nil
	}
	if _, ok := e.lookup(x.s); ok {
		return nil
	}
	return e.x.p.byName[x.s]
}

func (e *Env) sel(x *Expr) Val {
	if pk := e.pkgOf(x.a[0]); pk != nil {
		switch o := pk.Scope().Lookup(x.s).(type) {
		case *types.Const:
			return constVal(o.Val(), o.Type())
		case *types.Var:
			sp := e.x.p.spkg[pk]
			if sp == nil {
				e.fail(x, "package %s", pk.Name())
			}
			return e.spec().loadGlobal(e.st, sp.Var(x.s))
		}
		e.fail(x, "unknown %s.%s", pk.Name(), x.s)
	}
	v := e.eval(x.a[0])
	return e.field(x, v, x.s)
}

func (e *Env) field(x *Expr, v Val, name string) Val {
	// internal leaves of slices
	if len(v.L) == 4 {
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			switch name {
			case "arr":
				return iv(v.L[0])
			case "off":
				return iv(v.L[1])
			}
		}
	}
	T := v.T
	if it, ok := T.Underlying().(*types.Interface); ok {
		_ = it
		v = e.concrete(x, v)
		T = v.T
	}
	if p, ok := T.Underlying().(*types.Pointer); ok {
		_ = p
		st := derefType(T)
		if i, sub := fieldIndex(st, name); i >= 0 {
			off, ft := fieldOffset(st, i)
			y := e.spec()
			return y.load(e.st, addOff(y.resolve(e.st, v.L[0]), st, off), ft)
		} else if sub != nil {
			off, ft := 0, st
			for _, k := range sub {
				o, t2 := fieldOffset(ft, k)
				off += o
				ft = t2
				if _, isPtr := ft.Underlying().(*types.Pointer); isPtr && ft != st {
					break
				}
			}
			y := e.spec()
			return y.load(e.st, addOff(y.resolve(e.st, v.L[0]), st, off), ft)
		}
		e.fail(x, "no field %s in %s", name, st)
	}
	if _, ok := T.Underlying().(*types.Struct); ok {
		if i, sub := fieldIndex(T, name); i >= 0 {
			off, ft := fieldOffset(T, i)
			if off+nLeaves(ft) > len(v.L) {
				e.fail(x, "value of type %s with %d leaves: %s", v.T, len(v.L), v.L[0])
			}
			return Val{ft, v.L[off : off+nLeaves(ft)]}
		} else if sub != nil {
			cur := v
			for _, k := range sub {
				off, ft := fieldOffset(cur.T, k)
				cur = Val{ft, cur.L[off : off+nLeaves(ft)]}
			}
			return cur
		}
	}
	if tp, ok := T.(*types.Tuple); ok && name[0] == '_' {
		k := int(name[1] - '0')
		off := tupleOffset(tp, k)
		return Val{tp.At(k).Type(), v.L[off : off+nLeaves(tp.At(k).Type())]}
	}
	e.fail(x, "no field %s in %s", name, v.T)
	return Val{}
}

// fieldIndex finds a field, or the path to a promoted field.
func fieldIndex(T types.Type, name string) (int, []int) {
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, nil
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if j, sub := fieldIndex(s.Field(i).Type(), name); j >= 0 {
				return -1, []int{i, j}
			} else if sub != nil {
				return -1, append([]int{i}, sub...)
			}
		}
	}
	return -1, nil
}

// concrete unwraps an interface value with a statically known dynamic type.
func (e *Env) concrete(x *Expr, v Val) Val {
	if _, ok := v.T.Underlying().(*types.Interface); !ok {
		return v
	}
	dt := tagToType(v.L[0])
	if dt == nil {
		dt = e.x.p.soleImpl(v.T)
	}
	if dt == nil {
		e.fail(x, "dynamic type of %s is not known", v.T)
	}
	return unboxVal(v.L[1], dt)
}

func (e *Env) typeByName(x *Expr, s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(e.typeByName(x, s[2:]))
	case s == "interface{}":
		return types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(e.typeByName(x, s[1:]))
	}
	if i := strings.Index(s, "."); i > 0 {
		if pk := e.x.p.byName[s[:i]]; pk != nil {
			if o := pk.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	switch s {
	case "Int":
		return tyInt
	case "Bool":
		return tyBool
	case "Seq":
		return tySeq
	}
	e.fail(x, "unknown type %s", s)
	return nil
}

func specSort(s string) (Sort, types.Type) {
	switch s {
	case "Int":
		return SInt, tyInt
	case "Bool":
		return SBool, tyBool
	case "Seq":
		return SStr, tySeq
	case "F32":
		return SF32, types.Typ[types.Float32]
	case "F64":
		return SF64, types.Typ[types.Float64]
	case "(Int)Int":
		return arrSort(SInt, SInt), &ghostArr{tyInt}
	case "(Int)Bool":
		return arrSort(SInt, SBool), &ghostArr{tyBool}
	case "(Int)Seq":
		return arrSort(SInt, SStr), &ghostArr{tySeq}
	}
	panic(specErr{"unknown sort " + s})
}

func (e *Env) quant(x *Expr) *Term {
	env := e
	var bs []*Term
	var guards []*Term
	for i, n := range x.bv {
		if nm, ok := strings.CutSuffix(n, " Seq"); ok {
			b := boundVar(nm, SStr)
			bs = append(bs, b)
			env = env.with(nm, sv(b))
			continue
		}
		b := boundVar(n, SInt)
		lo, hi := x.a[2*i], x.a[2*i+1]
		bs = append(bs, b)
		env = env.with(n, iv(b))
		if lo != nil {
			guards = append(guards, mkLe(env.term(lo), b), mkLt(b, env.term(hi)))
		}
	}
	body := env.boolean(x.a[len(x.a)-1])
	if len(x.pats) > 0 && x.k == "forall" {
		var pats [][]*Term
		for _, ps := range x.pats {
			var ts []*Term
			for _, q := range ps {
				for _, l := range env.eval(q).L {
					if l.nbound > 0 && l.op != OPoly && l.op != OVar {
						ts = append(ts, l)
						break
					}
				}
			}
			if len(ts) > 0 {
				pats = append(pats, ts)
			}
		}
		return normQuant(mkForall(bs, mkImp(mkAnd(guards...), body), pats...))
	}
	if x.k == "forall" {
		return normQuant(mkForall(bs, mkImp(mkAnd(guards...), body)))
	}
	return normQuant(mkExists(bs, mkAnd(append(guards, body)...)))
}

// selIndices collects index polynomials of selects which contain v with
// coefficient one and other summands.
func selIndices(t, v *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	have := map[int]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t.id] || t.nbound == 0 {
			return
		}
		seen[t.id] = true
		if t.op == OSelect {
			ix := t.args[1]
			if ix == v {
				if !have[tZero.id] {
					have[tZero.id] = true
					out = append(out, tZero)
				}
			} else if ix.op == OPoly {
				rest := mkSub(ix, v)
				if !occurs(rest, v) && !have[rest.id] {
					have[rest.id] = true
					out = append(out, rest)
				}
			}
		}
		for _, a := range t.args {
			f(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				f(a)
			}
		}
	}
	f(t)
	return out
}

// plainArg reports whether v is itself an argument in t.
func plainArg(t, v *Term) bool {
	for _, a := range t.args {
		if a == v || plainArg(a, v) {
			return true
		}
	}
	return false
}

// normQuant renames bound variables so that select indices are plain variables.
func normQuant(t *Term) *Term {
	if t.op != OForall && t.op != OExists {
		return t
	}
	body := t.args[0]
	for i, v := range t.bv {
		rs := selIndices(body, v)
		if len(rs) == 0 || rs[0] == tZero {
			continue
		}
		plain := false
		for _, r := range rs {
			if r == tZero {
				plain = true
			}
		}
		for _, p := range t.pats { // explicit triggers with plain variables stay as they are
			for _, q := range p {
				plain = plain || plainArg(q, v)
			}
		}
		if plain {
			continue
		}
		r := rs[0]
		// r may only contain variables bound further out or earlier
		bad := false
		for j := i; j < len(t.bv); j++ {
			if occurs(r, t.bv[j]) {
				bad = true
			}
		}
		if bad {
			continue
		}
		m := map[*Term]*Term{v: mkSub(v, r)}
		body = subst(body, m)
		pats := make([][]*Term, len(t.pats))
		for i, p := range t.pats {
			for _, q := range p {
				pats[i] = append(pats[i], subst(q, m))
			}
		}
		t = &Term{op: t.op, bv: t.bv, pats: pats}
	}
	return mkQ(t.op, t.bv, body, t.pats)
}

// quantVariants: other renamings of a universally quantified hypothesis.
func quantVariants(t *Term) []*Term {
	if t.op == OAnd {
		var out []*Term
		for _, a := range t.args {
			out = append(out, quantVariants(a)...)
		}
		return out
	}
	if t.op == OOr { // guard ==> forall ...
		var qi = -1
		for i, a := range t.args {
			if a.op == OForall {
				if qi >= 0 {
					return nil
				}
				qi = i
			}
		}
		if qi < 0 {
			return nil
		}
		var out []*Term
		for _, q := range quantVariants(t.args[qi]) {
			as := append([]*Term{}, t.args...)
			as[qi] = q
			out = append(out, mkOr(as...))
		}
		return out
	}
	if t.op != OForall || len(t.pats) > 0 {
		return nil
	}
	var out []*Term
	for i, v := range t.bv {
		rs := selIndices(t.args[0], v)
		if len(rs) < 2 {
			continue
		}
		for _, r := range rs {
			if r == tZero {
				continue
			}
			bad := false
			for j := i; j < len(t.bv); j++ {
				if occurs(r, t.bv[j]) {
					bad = true
				}
			}
			if !bad {
				out = append(out, mkQ(t.op, t.bv, subst(t.args[0], map[*Term]*Term{v: mkSub(v, r)}), nil))
			}
		}
	}
	return out
}

func (e *Env) refOf(v Val) *Term {
	switch {
	case len(v.L) == 2:
		return v.L[1]
	case len(v.L) == 4:
		return v.L[0]
	}
	if r := v.L[0]; r.op == OPField && r.iv.Sign() == 0 { // the first field has the address of the object
		return r.args[0]
	}
	return v.L[0]
}

func (e *Env) known(name string) bool { _, ok := e.lookup(name); return ok }

func (e *Env) call(x *Expr) Val {
	f := x.a[0]
	args := x.a[1:]
	if f.k == "id" {
		if d := e.x.p.measures[f.s]; d != nil && !e.known(f.s) {
			if m := e.measure(d, e.eval(args[0])); m.sort == SStr {
				return sv(m)
			} else {
				return iv(m)
			}
		}
		if so, ok := e.x.p.fields[f.s]; ok {
			s, t := specSort(so)
			r := e.refOf(e.eval(args[0]))
			return Val{t, []*Term{mkSelect(e.spec().heapGet(e.st, fieldKey(f.s), arrSort(SInt, s)), r)}}
		}
		switch f.s {
		case "len":
			v := e.eval(args[0])
			if len(v.L) == 4 {
				return iv(v.L[2])
			}
			if at, ok := v.T.Underlying().(*types.Array); ok {
				return iv(mkInt(at.Len()))
			}
			if len(v.L) == 1 && v.L[0].sort == SStr {
				return iv(strLen(v.L[0]))
			}
			e.fail(x, "len of %s", v.T)
		case "cap":
			return iv(e.eval(args[0]).L[3])
		case "old":
			n := *e
			n.st = e.old
			if n.callst == nil {
				n.callst = e.st
			}
			return n.eval(args[0])
		case "prev":
			if e.prev == nil {
				e.fail(x, "prev outside of a loop step")
			}
			n := *e.prev
			n.vars = map[string]Val{}
			for k, v := range e.vars {
				n.vars[k] = v
			}
			for k, v := range e.prev.vars {
				n.vars[k] = v
			}
			return n.eval(args[0])
		case "abs":
			t := e.term(args[0])
			return iv(mkIte(mkLe(tZero, t), t, mkNeg(t)))
		case "min":
			a, b := e.term(args[0]), e.term(args[1])
			return iv(mkIte(mkLe(a, b), a, b))
		case "max":
			a, b := e.term(args[0]), e.term(args[1])
			return iv(mkIte(mkLe(a, b), b, a))
		case "fresh":
			v := e.eval(args[0])
			r := e.refOf(v)
			if r.op == OCell {
				return bv(tTrue)
			}
			if len(v.L) == 4 {
				return bv(mkOr(mkEq(v.L[3], tZero), mkLe(e.old.alloc, r)))
			}
			return bv(mkLe(e.old.alloc, r))
		case "newer", "older": // older(x[, n]): existed when loop n was entered; newer(x[, n]): allocated since loop n (this loop) was entered
			v := e.eval(args[0])
			r := e.refOf(v)
			nm := "@alloc"
			if len(args) > 1 {
				nm += args[1].s
			}
			al, ok := e.vars[nm]
			if !ok {
				panic(unsupported("newer(): no such loop"))
			}
			if f.s == "older" {
				return bv(mkLt(r, al.L[0]))
			}
			if r.op == OCell {
				return bv(tTrue)
			}
			if len(v.L) == 4 {
				return bv(mkOr(mkEq(v.L[3], tZero), mkLe(al.L[0], r)))
			}
			return bv(mkLe(al.L[0], r))
		case "allocated": // the reference existed at entry
			return bv(mkLt(e.refOf(e.eval(args[0])), e.st.alloc))
		case "same":
			return bv(e.sameVal(x, e.eval(args[0]), e.eval(args[1])))
		case "ref":
			return iv(e.refOf(e.eval(args[0])))
		case "ptr": // ptr(n, "T"): the object of type T with the reference n
			return Val{types.NewPointer(e.typeByName(x, args[1].s)), []*Term{e.term(args[0])}}
		case "feq": // Go's == on floating point numbers (in specifications == is identity)
			a, b := e.term(args[0]), e.term(args[1])
			if a.sort != b.sort {
				a, b = coerceF(a, b)
			}
			return bv(mkFCmp("eq", a.sort, a, b))
		case "about": // the same apart from rounding
			return bv(mkAbout(e.term(args[0]), e.term(args[1])))
		case "leaf": // leaf(x, k): k-th component of the representation of x
			v := e.eval(args[0])
			k := int(e.term(args[1]).iv.Int64())
			if k < 0 || k >= len(v.L) || v.L[k].sort != SInt {
				panic(unsupported("leaf"))
			}
			return iv(v.L[k])
		case "int": // value as a mathematical integer
			return iv(e.term(args[0]))
		case "is":
			v := e.eval(args[0])
			return bv(mkEq(v.L[0], typeTag(e.typeByName(x, args[1].s))))
		case "as":
			v := e.eval(args[0])
			return unboxVal(v.L[1], e.typeByName(x, args[1].s))
		case "zero":
			return zeroVal(e.typeByName(x, args[0].s))
		case "conv": // conv(expr, "type")
			v := e.eval(args[0])
			if v.T == types.Type(tyInt) {
				v.T = types.Typ[types.Int64]
			}
			return e.spec().convert(e.st, v, e.typeByName(x, args[1].s))
		case "has":
			v := e.eval(args[0])
			dom, _ := e.spec().mapGet(e.st, v, e.eval(args[1]))
			return bv(dom)
		case "entryOf": // stored(map, key): what a map has for a key it has (anything for other keys)
			y := e.spec()
			m, k := e.eval(args[0]), e.eval(args[1])
			kt, vt, tk := mapTypes(m.T)
			ks := leavesOf(kt)[0].sort
			v := Val{T: vt}
			for j, l := range leavesOf(vt) {
				v.L = append(v.L, mkSelect(mkSelect(y.heapGet(e.st, mapValKey(tk, j), arrSort(SInt, arrSort(ks, l.sort))), m.L[0]), k.L[0]))
			}
			return v
		case "atom":
			var ls []*Term
			for _, a := range args[1:] {
				ls = append(ls, e.eval(a).L...)
			}
			return sv(mkApp("atom:"+args[0].s, SStr, ls...))
		case "store":
			a := e.eval(args[0])
			return Val{a.T, []*Term{mkStore(a.L[0], e.term(args[1]), e.term(args[2]))}}
		case "const":
			v := e.eval(args[0])
			return Val{&ghostArr{v.T}, []*Term{mkConstArr(arrSort(SInt, v.L[0].sort), v.L[0])}}
		case "fmt":
			var as []Val
			for _, a := range args[1:] {
				v := e.eval(a)
				if v.T == types.Type(tyInt) {
					v.T = types.Typ[types.Int]
				}
				as = append(as, v)
			}
			return sv(e.spec().format(e.st, args[0].s, as))
		case "given": // given("name"): the flag is on the command line
			return bv(flagGiven(args[0].s))
		case "value": // value("name", "type"): value of the flag
			return flagValue(args[0].s, e.typeByName(x, args[1].s))
		case "flagged": // flagged("name", default)
			d := e.eval(args[1])
			if d.T == types.Type(tyInt) {
				d.T = types.Typ[types.Int]
			}
			v := flagValue(args[0].s, d.T)
			for k := range v.L {
				v.L[k] = mkIte(flagGiven(args[0].s), v.L[k], d.L[k])
			}
			return v
		case "narg":
			return iv(mkApp("flag.narg", SInt))
		case "arg":
			return sv(mkSelect(mkApp("flag.args", arrSort(SInt, SStr)), e.term(args[0])))
		case "nsplit": // nsplit(s, sep): len(strings.Split(s, sep))
			return iv(mkApp("strings.Split.len", SInt, e.term(args[0]), e.term(args[1])))
		case "piece": // piece(s, sep, k): strings.Split(s, sep)[k]
			return sv(mkSelect(mkApp("strings.Split.row", arrSort(SInt, SStr), e.term(args[0]), e.term(args[1])), e.term(args[2])))
		case "parsed", "parseErr": // parsed("strconv.Atoi", args...)
			var ls []*Term
			for _, a := range args[1:] {
				ls = append(ls, e.term(a))
			}
			if f.s == "parseErr" {
				return bv(mkApp(args[0].s+".err", SBool, ls...))
			}
			if args[0].s == "strconv.ParseFloat" {
				return Val{types.Typ[types.Float64], []*Term{mkApp(args[0].s, SF64, ls...)}}
			}
			return iv(mkApp(args[0].s, SInt, ls...))
		case "ncalls":
			return iv(mkInt(int64(len(e.log(args[0].s)))))
		case "callret", "callarg", "callghost":
			l := e.log(args[0].s)
			k := e.term(args[1])
			if !isInt(k) || k.iv.Int64() >= int64(len(l)) || k.iv.Sign() < 0 {
				e.fail(x, "call %s not made on this path", args[0].s)
			}
			c := l[k.iv.Int64()]
			if f.s == "callghost" {
				g, ok := c.ghosts[args[2].s]
				if !ok {
					e.fail(x, "no ghost %s", args[2].s)
				}
				return g
			}
			i := 0
			if len(args) > 2 {
				i = int(e.term(args[2]).iv.Int64())
			}
			if f.s == "callret" {
				return c.ret[i]
			}
			return c.args[i]
		}
		if v, ok := e.lookup(f.s); ok {
			if g, ok := v.T.(*ghostArr); ok {
				return Val{g.elem, []*Term{mkSelect(v.L[0], e.term(args[0]))}}
			}
		}
		if d := e.x.p.defs[f.s]; d != nil {
			if d.body != nil {
				if len(args) != len(d.params) {
					e.fail(x, "%s takes %d arguments", f.s, len(d.params))
				}
				n := *e
				n.vars = map[string]Val{}
				n.locals = nil
				for i, pn := range d.params {
					n.vars[pn] = e.eval(args[i])
				}
				return n.eval(d.body)
			}
			var ls []*Term
			for _, a := range args {
				ls = append(ls, e.eval(a).L...)
			}
			rs, rt := specSort(d.ret)
			if len(ls) != len(d.sorts) {
				e.fail(x, "%s takes %d arguments, got %d", f.s, len(d.sorts), len(ls))
			}
			for i := range ls {
				ss, _ := specSort(d.sorts[i])
				if ls[i].sort != ss {
					e.fail(x, "argument %d of %s has sort %s", i, f.s, ls[i].sort)
				}
			}
			return Val{rt, []*Term{mkApp("spec:"+d.name, rs, ls...)}}
		}
	}
	if f.k == "sel" {
		if pk := e.pkgOf(f.a[0]); pk != nil {
			var as []Val
			for _, a := range args {
				as = append(as, e.eval(a))
			}
			if tn, ok := pk.Scope().Lookup(f.s).(*types.TypeName); ok { // conversion
				v := as[0]
				if v.T == types.Type(tyInt) {
					v.T = types.Typ[types.Int64]
				}
				return e.spec().convert(e.st, v, tn.Type())
			}
			fn := e.x.p.fns[pk.Name()+"."+f.s]
			if fn == nil {
				for _, ip := range e.x.p.prog.AllPackages() {
					if ip.Pkg.Path() == pk.Path() && fn == nil {
						fn = ip.Func(f.s)
					}
				}
			}
			if fn == nil {
				e.fail(x, "unknown function %s.%s", pk.Name(), f.s)
			}
			return e.pure(x, fn, as)
		}
		recv := e.eval(f.a[0])
		var as []Val
		for _, a := range args {
			as = append(as, e.eval(a))
		}
		return e.method(x, recv, f.s, as)
	}
	if f.k != "id" && len(args) == 1 {
		v := e.eval(f)
		if g, ok := v.T.(*ghostArr); ok {
			return Val{g.elem, []*Term{mkSelect(v.L[0], e.term(args[0]))}}
		}
	}
	e.fail(x, "unknown function %s", f.s)
	return Val{}
}

// ghost traces: memory which only contracts know
var ghostKeys = map[string]string{"trace": "H:$trace:0", "moves": "H:$moves:0"}

var traceRef = mkInt(-7)

func (e *Env) log(name string) []ghostCall {
	s := e.st
	if e.callst != nil {
		s = e.callst
	}
	l := s.calls[name]
	if len(l) > 0 && l[0].poison {
		panic(specErr{"the calls of " + name + " in a finished loop cannot be counted"})
	}
	return l
}

func (e *Env) method(x *Expr, recv Val, name string, as []Val) Val {
	if _, ok := recv.T.Underlying().(*types.Interface); ok {
		dt := tagToType(recv.L[0])
		if dt == nil {
			dt = e.x.p.soleImpl(recv.T)
		}
		if dt == nil {
			it := recv.T.Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == name {
					return e.spec().ifaceUF(recv, it.Method(i), as)
				}
			}
			e.fail(x, "no method %s", name)
		}
		recv = unboxVal(recv.L[1], dt)
	}
	T := recv.T
	obj, _, ind := types.LookupFieldOrMethod(T, true, pkgOfType(T), name)
	m, ok := obj.(*types.Func)
	if !ok {
		e.fail(x, "no method %s of %s", name, T)
	}
	_ = ind
	fn := e.x.p.prog.LookupMethod(T, m.Pkg(), name)
	if fn == nil {
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			_ = pt
		}
		e.fail(x, "no method %s of %s", name, T)
	}
	return e.pure(x, fn, append([]Val{recv}, as...))
}

func pkgOfType(T types.Type) *types.Package {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	if n, ok := T.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// pure evaluates a call of a real function inside a specification.
func (e *Env) pure(x *Expr, fn *ssa.Function, args []Val) Val {
	for i := range args {
		if i < len(fn.Params) {
			pt := fn.Params[i].Type()
			if types.IsInterface(pt) && !types.IsInterface(args[i].T) && len(args[i].L) != 2 {
				args[i] = e.spec().makeIface(e.st, args[i], pt)
			}
			if isNilVal(args[i]) {
				args[i] = zeroVal(pt)
			}
			if len(args[i].L) == 1 && isInt(args[i].L[0]) {
				ls := leavesOf(pt)
				if len(ls) == 1 && (ls[0].sort == SF32 || ls[0].sort == SF64) {
					args[i].L = []*Term{mkI2F(ls[0].sort, args[i].L[0])}
				}
			}
			args[i].T = pt
		}
	}
	v, err := e.spec().pureCall(e.st, fn, args)
	if err != "" {
		e.fail(x, "%s", err)
	}
	return v
}

// pureCall runs fn symbolically without side effects and merges its paths.
func (x *Exec) pureCall(st *State, fn *ssa.Function, args []Val) (Val, string) {
	if c := x.p.contractFor(fn); c != nil && c.pure {
		if v, ok := x.pureDef(st, c, fn, args); ok {
			return v, ""
		}
	}
	y := *x
	y.spec = true
	y.disc = nil
	y.work = nil
	s := st.clone()
	s.loops = nil
	base := len(s.pc)
	y.baseDepth = len(s.frames)
	type res struct {
		c *Term
		v Val
	}
	var rs []res
	rt := resultType(fn)
	y.onReturn = func(s *State, rets []Val) {
		c := mkAnd(s.pc[min(base, len(s.pc)):]...)
		rs = append(rs, res{c, tupleVal(rt, rets)})
		for id, cl := range s.cells {
			if _, ok := st.cells[id]; !ok {
				st.cells[id] = cl
			}
		}
		for id, cl := range s.clos {
			if _, ok := st.clos[id]; !ok {
				st.clos[id] = cl
			}
		}
	}
	if m := x.libModel(fn); m != nil {
		r := m(&y, s, nil, fn, args)
		return tupleVal(rt, r), ""
	}
	s.frames = append(s.frames, y.newFrame(fn, args, nil, nil, "pure"))
	y.runAll(s)
	if len(rs) == 0 {
		return Val{}, "no path through " + shortName(fn)
	}
	v := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		v = mergeVal(rs[i].c, rs[i].v, v)
	}
	v.T = rt
	return v, ""
}

func resultType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// pureDef evaluates the defining postcondition "def: result == e".
func (x *Exec) pureDef(st *State, c *Contract, fn *ssa.Function, args []Val) (Val, bool) {
	for _, cl := range c.ensures {
		if cl.label == "def" && cl.e.k == "bin" && cl.e.s == "==" && cl.e.a[0].k == "id" {
			env := &Env{x: x, st: st, old: st, vars: map[string]Val{}}
			for i, n := range c.params {
				if i < len(args) {
					env.vars[n] = args[i]
				}
			}
			v := env.eval(cl.e.a[1])
			v.T = resultType(fn)
			if len(v.L) == 1 && isInt(v.L[0]) {
				ls := leavesOf(v.T)
				if ls[0].sort == SF32 || ls[0].sort == SF64 {
					v.L = []*Term{mkI2F(ls[0].sort, v.L[0])}
				}
			}
			return v, true
		}
	}
	for _, a := range args {
		for _, l := range leavesOf(a.T) {
			if l.part != "" || (l.sort == SInt && isRefType(l.typ)) {
				return Val{}, false
			}
		}
	}
	var ls []*Term
	for _, a := range args {
		ls = append(ls, a.L...)
	}
	rt := resultType(fn)
	v := Val{T: rt}
	for _, l := range leavesOf(rt) {
		v.L = append(v.L, mkApp("fn:"+shortName(fn)+l.path, l.sort, ls...))
	}
	return v, true
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice, *types.Interface:
		return true
	}
	return false
}

var _ = constant.MakeBool

func (e *Env) tryEval(x *Expr) (v Val, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); !is {
				panic(r)
			}
			ok = false
		}
	}()
	return e.eval(x), true
}

func fieldKey(n string) string { return "H:$f." + n + ":0" }

// measure is the sum over the elements of a slice (or the sequence for a body which is a text).
func (e *Env) measure(d *SpecDef, v Val) *Term {
	if isNilVal(v) {
		return tZero
	}
	sum := func(k *Term, n, body *Term) *Term {
		if body.sort == SStr {
			return mkFold(k, n, body)
		}
		return mkSum(k, n, body)
	}
	et := v.T.Underlying().(*types.Slice).Elem()
	k := boundVar("k", SInt)
	el := Val{T: et}
	for j, l := range leavesOf(et) {
		h := e.spec().heapGet(e.st, elemKey(typeKey(et), j), arrSort(SInt, arrSort(SInt, l.sort)))
		el.L = append(el.L, mkSelect(mkSelect(h, v.L[0]), mkAdd(v.L[1], k)))
	}
	return sum(k, v.L[2], e.with(d.params[0], el).term(d.body))
}

// measureOf is the summand of a measure for an element.
func (e *Env) measureOf(d *SpecDef, T types.Type, ls []*Term) *Term {
	return e.with(d.params[0], Val{T, ls}).term(d.body)
}
