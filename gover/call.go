// Calls: contracts, models of library functions, inlining, builtins.
package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 30

func (x *Exec) call(st *State, i *ssa.Call) bool {
	com := &i.Call
	var args []Val
	for _, a := range com.Args {
		args = append(args, x.val(st, a))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return x.builtin(st, i, b, args)
	}
	if com.IsInvoke() {
		recv := x.val(st, com.Value)
		recv.T = com.Value.Type()
		return x.invoke(st, i, recv, com.Method, args)
	}
	if fn := com.StaticCallee(); fn != nil {
		var free []Val
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			_ = mc
			cl := st.clos[x.val(st, com.Value).L[0].name]
			free = cl.binds
		}
		return x.callFn(st, i, fn, args, free)
	}
	// function value
	fv := x.val(st, com.Value)
	return x.callValue(st, i, fv, com.Value.Type(), args)
}

func (x *Exec) callValue(st *State, i *ssa.Call, fv Val, T types.Type, args []Val) bool {
	t := fv.L[0]
	if t.op == OClo {
		cl := st.clos[t.name]
		if cl == nil {
			panic(unsupported("unknown closure"))
		}
		return x.callFn(st, i, cl.fn, args, cl.binds)
	}
	if t.op == OIte && t.cells {
		c := t.args[0]
		return x.branch(st, c,
			func(s *State) bool {
				return x.callValue(s, i, Val{fv.T, []*Term{t.args[1]}}, T, args)
			},
			func(s *State) bool {
				return x.callValue(s, i, Val{fv.T, []*Term{t.args[2]}}, T, args)
			})
	}
	x.oblige(st, "nonnil", "call-func-value", i.Pos(), mkNot(mkEq(t, tZero)))
	key := "dyn " + sigKey(T)
	if c := x.p.contracts[key]; c != nil {
		x.applyContract(st, c, nil, T.Underlying().(*types.Signature), append([]Val{fv}, args...), i.Pos(), func(s *State, rets []Val) {
			x.set(s, i, tupleVal(i.Type(), rets))
		})
		return true
	}
	panic(unsupported("call of an unknown function value of type " + typeKey(T)))
}

// sigKey is the name of a function type without parameter names.
func sigKey(T types.Type) string {
	s, ok := T.Underlying().(*types.Signature)
	if !ok {
		return typeKey(T)
	}
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return typeKey(types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic()))
}

func (x *Exec) invoke(st *State, i *ssa.Call, recv Val, m *types.Func, args []Val) bool {
	tag := recv.L[0]
	if tag.op == OIte {
		return x.branch(st, tag.args[0],
			func(s *State) bool {
				return x.invoke(s, i, Val{recv.T, []*Term{tag.args[1], pick(tag.args[0], recv.L[1], true)}}, m, args)
			},
			func(s *State) bool {
				return x.invoke(s, i, Val{recv.T, []*Term{tag.args[2], pick(tag.args[0], recv.L[1], false)}}, m, args)
			})
	}
	dt := tagToType(tag)
	if dt == nil && !isInt(tag) {
		key := "(" + shorten(types.TypeString(recv.T, nil)) + ")." + m.Name()
		if c := x.p.contracts[key]; c != nil {
			x.oblige(st, "nonnil", "invoke", i.Pos(), mkNot(mkEq(tag, tZero)))
			x.applyContract(st, c, nil, m.Type().(*types.Signature), append([]Val{recv}, args...), i.Pos(), func(s *State, rets []Val) {
				x.set(s, i, tupleVal(i.Type(), rets))
			})
			return true
		}
		if c := x.p.contracts["iface "+shorten(types.TypeString(recv.T, nil))]; c != nil {
			x.oblige(st, "nonnil", "invoke", i.Pos(), mkNot(mkEq(tag, tZero)))
			x.sh.mu.Lock()
			x.sh.trust["iface "+shorten(types.TypeString(recv.T, nil))] = true
			x.sh.mu.Unlock()
			v := x.ifaceUF(recv, m, args)
			if !x.spec {
				x.valFacts(st, v)
			}
			x.set(st, i, v)
			return true
		}
		dt = x.p.soleImpl(recv.T)
		if dt != nil {
			x.oblige(st, "nonnil", "invoke", i.Pos(), mkNot(mkEq(tag, tZero)))
		}
	}
	if dt == nil {
		if isErrorType(recv.T) && m.Name() == "Error" {
			x.set(st, i, Val{i.Type(), []*Term{mkApp("error.Error", SStr, recv.L...)}})
			return true
		}
		panic(unsupported(fmt.Sprintf("dynamic call of %s.%s", recv.T, m.Name())))
	}
	fn := x.p.prog.LookupMethod(dt, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("no method " + m.Name()))
	}
	r := unboxVal(recv.L[1], dt)
	return x.callFn(st, i, fn, append([]Val{r}, args...), nil)
}

func pick(c, t *Term, yes bool) *Term {
	if t.op == OIte && t.args[0] == c {
		if yes {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// ifaceUF: methods of an abstract, immutable interface value are functions of
// the value and the arguments.
func (x *Exec) ifaceUF(recv Val, m *types.Func, args []Val) Val {
	sig := m.Type().(*types.Signature)
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	ls := append([]*Term{}, recv.L...)
	for _, a := range args {
		ls = append(ls, a.L...)
	}
	v := Val{T: rt}
	for _, l := range leavesOf(rt) {
		v.L = append(v.L, mkApp("m:"+shorten(types.TypeString(recv.T, nil))+"."+m.Name()+l.path, l.sort, ls...))
	}
	return v
}

func (x *Exec) callFn(st *State, i *ssa.Call, fn *ssa.Function, args []Val, free []Val) bool {
	name := shortName(fn)
	if c := x.p.contracts[name]; c != nil && !c.inline && !(x.spec && !c.trusted && !c.pure) {
		if x.spec {
			if c.pure {
				if v, ok := x.pureDef(st, c, fn, args); ok {
					x.set(st, i, Val{i.Type(), v.L})
					return true
				}
			}
			if c.trusted {
				panic(specErr{"call of trusted " + name + " in a specification"})
			}
		}
		x.applyContract(st, c, fn, fn.Signature, args, i.Pos(), func(s *State, rets []Val) {
			x.set(s, i, tupleVal(i.Type(), rets))
		})
		return true
	}
	if m := x.libModel(fn); m != nil {
		rets := m(x, st, i, fn, args)
		if rets == nil && i.Type() != nil {
			if t, ok := i.Type().(*types.Tuple); !ok || t.Len() > 0 {
				return false
			}
		}
		if len(rets) > 0 {
			x.set(st, i, tupleVal(i.Type(), rets))
		}
		return true
	}
	if fn.Blocks == nil {
		panic(unsupported("no contract, model or body for " + name))
	}
	if !inModule(fn) && fn.Synthetic == "" {
		panic(unsupported("no contract or model for " + name))
	}
	if len(st.frames) > maxInline {
		panic(unsupported("recursion without contract in " + name))
	}
	for _, f := range st.frames {
		if f.fn == fn && !x.spec {
			panic(unsupported("recursion without contract in " + name))
		}
	}
	x.sh.mu.Lock()
	x.sh.inline[name] = true
	x.sh.mu.Unlock()
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], x.newFrame(fn, args, free, i, st.top().path+fmt.Sprintf("/%d", i.Pos())))
	return true
}

func (x *Exec) callDeferred(st *State, d deferred) {
	com := d.com
	if com.IsInvoke() {
		panic(unsupported("deferred interface call"))
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		panic(unsupported("deferred builtin"))
	}
	fn := com.StaticCallee()
	var free []Val
	if fn == nil {
		if d.fn.L[0].op != OClo {
			panic(unsupported("deferred function value"))
		}
		cl := st.clos[d.fn.L[0].name]
		fn, free = cl.fn, cl.binds
	} else if _, ok := com.Value.(*ssa.MakeClosure); ok {
		free = st.clos[d.fn.L[0].name].binds
	}
	if c := x.p.contractFor(fn); c != nil {
		x.applyContract(st, c, fn, fn.Signature, d.args, com.Pos(), func(*State, []Val) {})
		return
	}
	if m := x.libModel(fn); m != nil {
		m(x, st, nil, fn, d.args)
		return
	}
	f := x.newFrame(fn, d.args, free, nil, st.top().path+fmt.Sprintf("/%d", com.Pos()))
	f.onRet = func(*State, []Val) {}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], f)
}

// ---- contracts at call sites ----

type modTarget struct {
	key string
	ref *Term // nil: the whole key
}

// modTargets evaluates a modifies clause.
func (e *Env) modTargets(m *Expr) []modTarget {
	y := e.spec()
	obj := func(p *Term, T types.Type) (out []modTarget) {
		p = y.resolve(e.st, p)
		switch p.op {
		case OCell:
			return []modTarget{{"cell:" + p.name, tZero}}
		case OPField:
			off := int(p.iv.Int64())
			for i := range leavesOf(T) {
				out = append(out, modTarget{objKey(p.name, off+i), p.args[0]})
			}
		case OPElem:
			off := int(p.iv.Int64())
			for i := range leavesOf(T) {
				out = append(out, modTarget{elemKey(p.name, off+i), p.args[0]})
			}
		default:
			for i := range leavesOf(T) {
				out = append(out, modTarget{objKey(typeKey(T), i), p})
			}
		}
		return
	}
	switch m.k {
	case "id":
		if k := ghostKeys[m.s]; k != "" {
			return []modTarget{{k, traceRef}}
		}
	case "un":
		if m.s == "*" {
			v := e.eval(m.a[0])
			if _, ok := v.T.Underlying().(*types.Interface); ok {
				v = e.concrete(m, v)
			}
			return obj(v.L[0], derefType(v.T))
		}
	case "sel":
		v := e.eval(m.a[0])
		if _, ok := v.T.Underlying().(*types.Interface); ok {
			v = e.concrete(m, v)
		}
		T := derefType(v.T)
		i, sub := fieldIndex(T, m.s)
		off, ft := 0, T
		if i >= 0 {
			off, ft = fieldOffset(T, i)
		} else {
			for _, k := range sub {
				o, t2 := fieldOffset(ft, k)
				off += o
				ft = t2
			}
		}
		return obj(addOff(y.resolve(e.st, v.L[0]), T, off), ft)
	case "call":
		if so, ok := e.x.p.fields[m.a[0].s]; ok {
			s, _ := specSort(so)
			e.spec().heapGet(e.st, fieldKey(m.a[0].s), arrSort(SInt, s))
			return []modTarget{{fieldKey(m.a[0].s), e.refOf(e.eval(m.a[1]))}}
		}
		switch m.a[0].s {
		case "elems":
			v := e.eval(m.a[1])
			et := v.T.Underlying().(*types.Slice).Elem()
			var out []modTarget
			for i := range leavesOf(et) {
				out = append(out, modTarget{elemKey(typeKey(et), i), v.L[0]})
			}
			return out
		case "map":
			v := e.eval(m.a[1])
			_, vt, tk := mapTypes(v.T)
			out := []modTarget{{mapDomKey(tk), v.L[0]}}
			for j := range leavesOf(vt) {
				out = append(out, modTarget{mapValKey(tk, j), v.L[0]})
			}
			return out
		case "all": // all objects of a struct type
			T := e.typeByName(m, m.a[1].s)
			var out []modTarget
			for i := range leavesOf(T) {
				out = append(out, modTarget{objKey(typeKey(T), i), nil})
			}
			return out
		case "allelems":
			T := e.typeByName(m, m.a[1].s)
			var out []modTarget
			for i := range leavesOf(T) {
				out = append(out, modTarget{elemKey(typeKey(T), i), nil})
			}
			return out
		case "allmaps":
			kT, vT := e.typeByName(m, m.a[1].s), e.typeByName(m, m.a[2].s)
			tk := typeKey(kT) + "->" + typeKey(vT)
			out := []modTarget{{mapDomKey(tk), nil}}
			for j := range leavesOf(vT) {
				out = append(out, modTarget{mapValKey(tk, j), nil})
			}
			return out
		}
	}
	e.fail(m, "modifies clause")
	return nil
}

func keyLeafSort(h *Term) (Sort, bool) { // range of outer array
	_, r := arrElem(h.sort)
	return r, true
}

func (x *Exec) sortOfKey(st *State, key string) Sort {
	if t, ok := st.heap[key]; ok {
		return t.sort
	}
	x.sh.mu.Lock()
	defer x.sh.mu.Unlock()
	if t, ok := x.sh.base[key]; ok {
		return t.sort
	}
	return ""
}

// ensureKeys makes the heap arrays of a type exist.
func (x *Exec) ensureObj(st *State, T types.Type) {
	for i, l := range leavesOf(T) {
		x.heapGet(st, objKey(typeKey(T), i), arrSort(SInt, l.sort))
	}
}
func (x *Exec) ensureElems(st *State, T types.Type) {
	for i, l := range leavesOf(T) {
		x.heapGet(st, elemKey(typeKey(T), i), arrSort(SInt, arrSort(SInt, l.sort)))
	}
}

func (x *Exec) ensureTargets(st *State, e *Env, m *Expr) {
	switch m.k {
	case "id":
		e.eval(m)
	case "un":
		v := e.eval(m.a[0])
		if _, ok := v.T.Underlying().(*types.Interface); ok {
			v = e.concrete(m, v)
		}
		e.spec().load(st, v.L[0], derefType(v.T))
	case "sel":
		e.eval(m)
	case "call":
		if _, ok := x.p.fields[m.a[0].s]; ok {
			e.eval(m)
			return
		}
		switch m.a[0].s {
		case "elems":
			x.ensureElems(st, e.eval(m.a[1]).T.Underlying().(*types.Slice).Elem())
		case "map":
			v := e.eval(m.a[1])
			kt, vt, tk := mapTypes(v.T)
			x.ensureMap(st, kt, vt, tk)
		case "all":
			x.ensureObj(st, e.typeByName(m, m.a[1].s))
		case "allelems":
			x.ensureElems(st, e.typeByName(m, m.a[1].s))
		case "allmaps":
			kT, vT := e.typeByName(m, m.a[1].s), e.typeByName(m, m.a[2].s)
			x.ensureMap(st, kT, vT, typeKey(kT)+"->"+typeKey(vT))
		}
	}
}

func (x *Exec) ensureMap(st *State, kt, vt types.Type, tk string) {
	ks := leavesOf(kt)[0].sort
	x.heapGet(st, mapDomKey(tk), arrSort(SInt, arrSort(ks, SBool)))
	for j, l := range leavesOf(vt) {
		x.heapGet(st, mapValKey(tk, j), arrSort(SInt, arrSort(ks, l.sort)))
	}
}

func (x *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos, k func(*State, []Val)) {
	x.sh.mu.Lock()
	if c.trusted {
		x.sh.trust[c.key] = true
	} else {
		x.sh.used[c.key] = true
	}
	x.sh.mu.Unlock()
	if len(c.params) != len(args) {
		panic(unsupported(fmt.Sprintf("%s: contract of %s has %d parameters, the call has %d", c.file, c.key, len(c.params), len(args))))
	}
	for i := range args {
		if fn != nil && i < len(fn.Params) {
			args[i].T = fn.Params[i].Type()
		}
		args[i] = x.promoteVal(st, args[i])
	}
	env := &Env{x: x, st: st, old: st, vars: map[string]Val{}}
	for i, n := range c.params {
		env.vars[n] = args[i]
	}
	for _, r := range c.requires {
		x.oblige(st, "pre", c.key+"/"+r.label, pos, env.boolean(r.e))
	}
	// results
	res := make([]Val, sig.Results().Len())
	fresh := map[*Term]bool{}
	for _, m := range c.modifies {
		x.ensureTargets(st, env, m)
	}
	var targets []modTarget
	for _, m := range c.modifies {
		targets = append(targets, env.modTargets(m)...)
	}
	old := st.clone()
	if !c.pure {
		a := freshVar("alloc", SInt)
		st.assume(mkLe(st.alloc, a))
		st.alloc = a
		x.noteAlloc(st)
	}
	for _, t := range targets {
		x.havocTarget(st, t, fresh)
	}
	for i := range res {
		res[i] = freshVal("ret", sig.Results().At(i).Type())
		for _, l := range res[i].L {
			fresh[l] = true
		}
	}
	post := &Env{x: x, st: st, old: old, vars: map[string]Val{}}
	for i, n := range c.params {
		post.vars[n] = args[i]
	}
	for i, n := range c.results {
		if i < len(res) {
			post.vars[n] = res[i]
		}
	}
	if len(res) == 1 {
		post.vars["result"] = res[0]
	}
	gh := map[string]Val{}
	for _, g := range c.ghosts {
		s, t := specSort(g.typ)
		v := Val{t, []*Term{freshVar(g.name, s)}}
		gh[g.name] = v
		post.vars[g.name] = v
	}
	for i := range res {
		x.valFacts(st, res[i])
	}
	for i := range args {
		_ = i
	}
	for _, en := range c.ensures {
		x.assumeEnsures(st, post, en.e, fresh, res, gh)
	}
	for _, en := range c.givenPost {
		st.assume(post.boolean(en.e))
	}
	if c.logged || len(c.ghosts) > 0 {
		st.calls[c.key] = append(st.calls[c.key][:len(st.calls[c.key]):len(st.calls[c.key])], ghostCall{ghosts: gh, ret: res, args: args, old: old})
		x.noteCallLog(st, c.key)
	}
	k(st, res)
}

// assumeEnsures assumes a postcondition; equations with a fresh variable
// become substitutions.
func (x *Exec) assumeEnsures(st *State, post *Env, e *Expr, fresh map[*Term]bool, res []Val, gh map[string]Val) {
	if e.k == "bin" && e.s == "&&" {
		x.assumeEnsures(st, post, e.a[0], fresh, res, gh)
		x.assumeEnsures(st, post, e.a[1], fresh, res, gh)
		return
	}
	if e.k == "bin" && e.s == "==" {
		a, b := post.eval(e.a[0]), post.eval(e.a[1])
		if isNilVal(b) {
			b = zeroVal(a.T)
		}
		if len(a.L) == len(b.L) {
			m := map[*Term]*Term{}
			ok := true
			for i := range a.L {
				p, q := a.L[i], b.L[i]
				if p.sort != q.sort {
					p, q = coerceF(p, q)
				}
				if p == q {
					continue
				}
				if !fresh[p] || p.sort != q.sort || m[p] != nil {
					ok = false
					break
				}
				for f := range fresh {
					if occurs(q, f) {
						ok = false
					}
				}
				m[p] = q
			}
			if ok {
				if len(m) == 0 {
					return
				}
				for p := range m {
					delete(fresh, p)
				}
				st.substAll(m)
				memo := map[int]*Term{}
				for i := range res {
					for j := range res[i].L {
						res[i].L[j] = substM(res[i].L[j], m, memo)
					}
				}
				for k, v := range post.vars {
					n := Val{v.T, make([]*Term, len(v.L))}
					for j := range v.L {
						n.L[j] = substM(v.L[j], m, memo)
					}
					post.vars[k] = n
				}
				for k, v := range gh {
					gh[k] = Val{v.T, []*Term{substM(v.L[0], m, memo)}}
				}
				return
			}
		}
	}
	st.assume(post.boolean(e))
}

func (x *Exec) havocTarget(st *State, t modTarget, fresh map[*Term]bool) {
	if hasPrefixAny(t.key, "cell:") {
		id := t.key[5:]
		c := *st.cells[id]
		nv := freshVal("cell", c.T)
		c.L = nv.L
		st.cells[id] = &c
		for i := range nv.L {
			fresh[nv.L[i]] = true
			x.noteCell(st, id, i)
		}
		return
	}
	h := st.heap[t.key]
	if h == nil {
		return
	}
	if t.ref == nil {
		x.noteWriteAll(st, t.key)
		st.heap[t.key] = freshVar(t.key+"@hv", h.sort)
		x.wellFormed(st, t.key, st.heap[t.key], st.alloc)
		return
	}
	_, r := arrElem(h.sort)
	v := freshVar(t.key+"@mod", r)
	fresh[v] = true
	x.noteWrite(st, t.key, t.ref)
	st.heap[t.key] = mkStore(h, t.ref, v)
	x.wellFormedRow(st, t.key, v, st.alloc)
}

// ---- builtins ----

func (x *Exec) builtin(st *State, i *ssa.Call, b *ssa.Builtin, args []Val) bool {
	switch b.Name() {
	case "len":
		v := args[0]
		switch i.Call.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			x.set(st, i, Val{i.Type(), []*Term{v.L[2]}})
		case *types.Map:
			t := mkApp("map.len", SInt, x.mapDom(st, v))
			if !x.spec {
				st.assume(mkLe(tZero, t))
			}
			x.set(st, i, Val{i.Type(), []*Term{t}})
		default:
			t := strLen(v.L[0])
			if !x.spec {
				st.assume(mkLe(tZero, t))
			}
			x.set(st, i, Val{i.Type(), []*Term{t}})
		}
	case "cap":
		x.set(st, i, Val{i.Type(), []*Term{args[0].L[3]}})
	case "append":
		s := args[0]
		s.T = i.Type()
		x.set(st, i, x.appendSlice(st, s, args[1]))
	case "copy":
		x.set(st, i, Val{i.Type(), []*Term{x.copySlice(st, args[0], args[1])}})
	case "delete":
		m := args[0]
		kt, _, tk := mapTypes(m.T)
		ks := leavesOf(kt)[0].sort
		k := mapDomKey(tk)
		h := x.heapGet(st, k, arrSort(SInt, arrSort(ks, SBool)))
		x.noteWrite(st, k, m.L[0])
		st.heap[k] = mkStore(h, m.L[0], mkStore(mkSelect(h, m.L[0]), args[1].L[0], tFalse))
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			if r.sort != SInt {
				panic(unsupported("min/max of floats"))
			}
			c := mkLe(r, a.L[0])
			if b.Name() == "max" {
				c = mkLe(a.L[0], r)
			}
			r = mkIte(c, r, a.L[0])
		}
		x.set(st, i, Val{i.Type(), []*Term{r}})
	case "print", "println":
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0].L[0], i.Pos())
		x.set(st, i, args[0])
	default:
		panic(unsupported("builtin " + b.Name()))
	}
	return true
}

func (x *Exec) appendSlice(st *State, s, t Val) Val {
	et := s.T.Underlying().(*types.Slice).Elem()
	if len(t.L) == 1 { // append([]byte, string...)
		panic(unsupported("append of a string"))
	}
	n := t.L[2]
	if n == tZero {
		return s
	}
	arr, off, ln, cp := s.L[0], s.L[1], s.L[2], s.L[3]
	newLen := mkAdd(ln, n)
	fits := mkLe(newLen, cp)
	if fits != tTrue && fits != tFalse && !x.spec {
		if x.entails(st, mkNot(fits)) {
			fits = tFalse
		} else if x.entails(st, fits) {
			fits = tTrue
		}
	}
	a2 := arr
	cap2 := cp
	if fits != tTrue {
		ref := x.newRef(st)
		nc := freshVar("cap", SInt)
		st.assume(mkLe(newLen, nc))
		// appending nothing to nil gives nil
		if !isInt(n) {
			fits = mkOr(fits, mkEq(n, tZero))
		}
		a2 = mkIte(fits, arr, ref)
		cap2 = mkIte(fits, cp, nc)
	}
	type tracked struct {
		d *SpecDef
		t *Term
		b *Term // the summand
	}
	var anyEl []*Term
	for _, l := range leavesOf(et) {
		anyEl = append(anyEl, boundVar("el", l.sort))
	}
	var track []tracked
	if !x.spec && x.con != nil {
		for _, m := range x.con.track {
			if d := x.p.measures[m]; d != nil && d.ret == typeKey(et) {
				env := &Env{x: x, st: st, old: st, vars: map[string]Val{}}
				a, b := env.measure(d, s), env.measure(d, t)
				body := env.measureOf(d, et, anyEl)
				if body.sort == SStr {
					if isNilVal(s) {
						a = mkConcat()
					}
					track = append(track, tracked{d, mkConcat(a, b), body})
				} else {
					track = append(track, tracked{d, mkAdd(a, b), body})
				}
			}
		}
	}
	cnt := int64(-1)
	if isInt(n) && n.iv.Int64() <= 8 {
		cnt = n.iv.Int64()
	}
	tk := typeKey(et)
	for j, l := range leavesOf(et) {
		k := elemKey(tk, j)
		h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, l.sort)))
		row := mkSelect(h, arr)
		src := mkSelect(h, t.L[0])
		if cnt >= 0 {
			for q := int64(0); q < cnt; q++ {
				row = mkStore(row, mkAdd(off, ln, mkInt(q)), mkSelect(src, mkAdd(t.L[1], mkInt(q))))
			}
		} else {
			nr := freshVar(k+"@row", arrSort(SInt, l.sort))
			kv := boundVar("k", SInt)
			in := mkAnd(mkLe(mkAdd(off, ln), kv), mkLt(kv, mkAdd(off, newLen)))
			at := mkSub(kv, mkSub(mkAdd(off, ln), t.L[1]))
			st.assume(mkForall([]*Term{kv}, mkEq(mkSelect(nr, kv), mkIte(in, mkSelect(src, at), mkSelect(row, kv))), []*Term{mkSelect(nr, kv)}))
			// trigger from the source side
			kv2 := boundVar("k", SInt)
			st.assume(mkForall([]*Term{kv2}, mkImp(mkAnd(mkLe(t.L[1], kv2), mkLt(kv2, mkAdd(t.L[1], n))),
				mkEq(mkSelect(nr, mkAdd(kv2, mkSub(mkAdd(off, ln), t.L[1]))), mkSelect(src, kv2))), []*Term{mkSelect(src, kv2)}))
			if row.op == OVar || row.op == OSelect {
				kv3 := boundVar("k", SInt)
				st.assume(mkForall([]*Term{kv3}, mkImp(mkLt(kv3, mkAdd(off, ln)), mkEq(mkSelect(nr, kv3), mkSelect(row, kv3))), []*Term{mkSelect(row, kv3)}))
			}
			row = nr
		}
		if !isInt(n) { // nothing is written then
			x.noop = []*Term{mkEq(n, tZero)}
		}
		x.noteWrite(st, k, a2)
		x.noop = nil
		st.heap[k] = mkStore(h, a2, row)
	}
	out := Val{s.T, []*Term{a2, off, newLen, cap2}}
	for _, m := range track {
		env := &Env{x: x, st: st, old: st, vars: map[string]Val{}}
		if env.measureOf(m.d, et, anyEl) == m.b { // append does not touch what is measured
			st.assume(mkEq(env.measure(m.d, out), m.t))
		}
	}
	return out
}

func (x *Exec) copySlice(st *State, d, s Val) *Term {
	et := d.T.Underlying().(*types.Slice).Elem()
	if len(s.L) == 1 {
		panic(unsupported("copy from string"))
	}
	n := mkIte(mkLe(d.L[2], s.L[2]), d.L[2], s.L[2])
	for j, l := range leavesOf(et) {
		k := elemKey(typeKey(et), j)
		h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, l.sort)))
		row, src := mkSelect(h, d.L[0]), mkSelect(h, s.L[0])
		nr := freshVar(k+"@row", arrSort(SInt, l.sort))
		kv := boundVar("k", SInt)
		in := mkAnd(mkLe(d.L[1], kv), mkLt(kv, mkAdd(d.L[1], n)))
		st.assume(mkForall([]*Term{kv}, mkEq(mkSelect(nr, kv), mkIte(in, mkSelect(src, mkSub(kv, mkSub(d.L[1], s.L[1]))), mkSelect(row, kv))), []*Term{mkSelect(nr, kv)}))
		x.noteWrite(st, k, d.L[0])
		st.heap[k] = mkStore(h, d.L[0], nr)
	}
	return n
}
