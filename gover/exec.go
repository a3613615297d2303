// Path-forking symbolic execution of SSA with loop invariants and contracts.
package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// shared state of one verification run
type shared struct {
	mu       sync.Mutex
	base     map[string]*Term
	alloc0   *Term
	suffix   string
	ncell    int
	nobs     int
	steps    int
	trust    map[string]bool // trusted contracts and models used
	inline   map[string]bool // functions inlined
	used     map[string]bool // contracts used at call sites
	unroll   int             // >0: bounded mode
	notes    map[string]bool
	theorems map[string]bool
}

type Exec struct {
	noop    []*Term // conditions under which the next write does nothing
	reveals []reveal
	p       *Prog
	q       *quickProc
	sh      *shared
	top     *ssa.Function
	con     *Contract
	obs     *[]*Obligation
	entry   *State
	env     *Env // entry environment of top
	// discovery mode
	disc *discovery
	spec bool // executing a pure call inside a specification
	// called when the top frame returns
	onReturn  func(st *State, rets []Val)
	baseDepth int
	// frames of the function: permitted writes
	mods     []modTarget
	modsAny  bool
	loopSpec map[string]*LoopSpec // loop id -> spec
	work     []*State
	unrolled map[string]int
}

type stopPath struct{ why string }

// oblige records a proof obligation; it is assumed afterwards.
func (x *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if x.spec {
		return
	}
	x.obligeAlts(st, kind, label, pos, []*Term{goal})
	if goal.op != OFalse {
		st.assume(goal)
	}
}

func (x *Exec) obligeAlts(st *State, kind, label string, pos token.Pos, goals []*Term) {
	if x.disc != nil || x.spec {
		return
	}
	fn := ""
	if x.top != nil {
		fn = shortName(x.top)
	}
	x.sh.mu.Lock()
	x.sh.nobs++
	x.sh.mu.Unlock()
	for i, g := range goals {
		if hasTextIte(g) {
			goals = append([]*Term{}, goals...)
			goals[i] = underFacts(g, st.pc)
		}
	}
	o := &Obligation{Name: fn + "/" + kind + "/" + label, Kind: kind, Fn: fn, Pos: x.p.pos(pos), Hyps: st.pc, Goal: goals[0], marks: st.marks}
	if len(goals) > 1 {
		o.Alts = goals
	}
	for _, r := range x.reveals {
		if mentionsApp(append(append([]*Term{}, o.Hyps...), goals...), r.name) {
			o.Hyps = append(o.Hyps[:len(o.Hyps):len(o.Hyps)], r.axioms...)
		}
	}
	for _, g := range goals {
		if g == tTrue {
			o.Result, o.Solver, o.Static = "unsat", "simplifier", true
		}
	}
	*x.obs = append(*x.obs, o)
}

// hasTextIte reports whether t contains a conditional text.
func hasTextIte(t *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OIte && t.sort == SStr {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// underFacts replaces the facts which are known on a path by their truth value in t.
func underFacts(t *Term, pc []*Term) *Term {
	m := map[*Term]*Term{}
	for _, p := range pc {
		if p.op == ONot {
			m[p.args[0]] = tFalse
		} else if p.op != OForall && p.op != OExists {
			m[p] = tTrue
		}
	}
	return substM(t, m, map[int]*Term{})
}

// reveal: the axioms of a specification function, given to obligations which mention it.
type reveal struct {
	name   string
	axioms []*Term
}

func mentionsApp(ts []*Term, name string) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OApp && t.name == name {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if f(a) {
					return true
				}
			}
		}
		return false
	}
	for _, t := range ts {
		if f(t) {
			return true
		}
	}
	return false
}

func (x *Exec) feasible(st *State) bool {
	return x.q.check(st.pc) != "unsat"
}
func (x *Exec) entails(st *State, g *Term) bool {
	if g == tTrue {
		return true
	}
	if g == tFalse {
		return false
	}
	if st.facts[g.id] {
		return true
	}
	return x.q.check(append(append([]*Term{}, st.pc...), mkNot(g))) == "unsat"
}

func (x *Exec) newFrame(fn *ssa.Function, args []Val, free []Val, call *ssa.Call, path string) *Frame {
	if fn.Blocks == nil {
		panic(unsupported("no body and no contract for " + shortName(fn)))
	}
	f := &Frame{fn: fn, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], call: call, path: path, free: free, params: args}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("call of %s with %d args", fn, len(args))))
	}
	f.names = map[string]ssa.Value{}
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		f.regs[p] = v
		f.names[p.Name()] = p
	}
	for i, fv := range fn.FreeVars {
		f.regs[fv] = free[i]
	}
	return f
}

// runAll explores all paths.
func (x *Exec) runAll(st *State) {
	x.work = append(x.work, st)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(s)
	}
}

func (x *Exec) runPath(st *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopPath); ok {
				return
			}
			panic(r)
		}
	}()
	for {
		if !x.step(st) {
			return
		}
		x.sh.steps++
		if x.sh.steps > 400000 {
			panic(unsupported("too many symbolic steps"))
		}
	}
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Global:
		return Val{c.Type(), []*Term{x.globalRef(c)}}
	case *ssa.Function:
		id := "fn:" + shortName(c)
		st.clos[id] = &closure{fn: c}
		return Val{c.Type(), []*Term{mk(&Term{op: OClo, sort: SInt, name: id})}}
	case *ssa.Builtin:
		return Val{}
	}
	f := st.top()
	r, ok := f.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s of %s is not available", v.Name(), f.fn)))
	}
	return r
}

// globals live at negative references
var globalIDs = map[string]int64{}
var globalMu sync.Mutex

func (x *Exec) globalRef(g *ssa.Global) *Term {
	globalMu.Lock()
	defer globalMu.Unlock()
	id, ok := globalIDs[g.String()]
	if !ok {
		id = -int64(len(globalIDs)) - 1
		globalIDs[g.String()] = id
	}
	return mkInt(id)
}

func (x *Exec) set(st *State, v ssa.Value, val Val) {
	val.T = v.Type()
	st.top().regs[v] = val
}

// jump moves control to block b.
func (x *Exec) jump(st *State, b *ssa.BasicBlock) bool {
	f := st.top()
	from := f.block
	fl := x.p.loopsOf(f.fn)
	depth := len(st.frames)
	// leave loops
	for len(st.loops) > 0 {
		c := st.loops[len(st.loops)-1]
		if c.depth == depth && !c.l.blocks[b] {
			if x.disc != nil && x.disc.ctx == c {
				return false
			}
			x.leaveLoop(st, c)
			continue
		}
		break
	}
	l := fl.byHeader[b]
	if l != nil && (!l.unroll || x.con != nil && x.con.cutall) && !x.isUnrolled(st, f, l) && !x.knownTrip(st, f, l, from) {
		for i := len(st.loops) - 1; i >= 0; i-- {
			c := st.loops[i]
			if c.depth == depth && c.l == l {
				// back edge
				x.closeIteration(st, c, from)
				return false
			}
		}
		if l.blocks[from] {
			panic(unsupported("irreducible loop"))
		}
		x.enterLoop(st, f, l, from)
		return true
	}
	f.prev, f.block, f.idx = from, b, 0
	x.doPhis(st, f)
	return true
}

// knownTrip reports whether a loop without annotations runs over a sequence whose length is a small constant here.
func (x *Exec) knownTrip(st *State, f *Frame, l *Loop, from *ssa.BasicBlock) bool {
	k := fmt.Sprintf("$trip:%s:%d:%p", f.path, len(st.frames), l)
	if l.blocks[from] {
		return st.ghost[k] == tTrue
	}
	st.ghost[k] = tFalse
	if x.con != nil && x.con.cutall || x.loopSpec[x.loopID(f, l)] != nil {
		return false
	}
	b, ok := tripCond(l)
	if !ok {
		return false
	}
	if in, ok := b.(ssa.Instruction); ok && l.blocks[in.Block()] {
		return false
	}
	n := x.val(st, b).L[0]
	if n.op != OInt || !n.iv.IsInt64() || n.iv.Int64() < 1 || n.iv.Int64() > 16 {
		return false
	}
	st.ghost[k] = tTrue
	return true
}

func (x *Exec) isUnrolled(st *State, f *Frame, l *Loop) bool {
	if x.sh.unroll == 0 {
		return false
	}
	// bounded mode: count the iterations on this path
	k := fmt.Sprintf("$unroll:%s:%d:%p", f.path, len(st.frames), l)
	n := tZero
	if l.blocks[f.block] && f.block != nil {
		if o, ok := st.ghost[k]; ok {
			n = mkAdd(o, tOne)
		}
	}
	st.ghost[k] = n
	if n.iv.Int64() > int64(x.sh.unroll) {
		x.sh.notes["bounded"] = true
		panic(stopPath{"unroll bound"})
	}
	return true
}

func (x *Exec) doPhis(st *State, f *Frame) {
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range f.block.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			if _, dbg := in.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		for i, p := range f.block.Preds {
			if p == f.prev {
				vals = append(vals, x.val(st, phi.Edges[i]))
				break
			}
		}
		phis = append(phis, phi)
	}
	for i, phi := range phis {
		x.set(st, phi, vals[i])
	}
	for f.idx < len(f.block.Instrs) {
		if _, ok := f.block.Instrs[f.idx].(*ssa.Phi); !ok {
			break
		}
		f.idx++
	}
}

// step executes one instruction; false ends the path.
func (x *Exec) step(st *State) bool {
	f := st.top()
	in := f.block.Instrs[f.idx]
	f.idx++
	switch i := in.(type) {
	case *ssa.DebugRef:
		if id, ok := i.Expr.(*ast.Ident); ok && !x.spec {
			if o := i.Object(); o != nil { // an implicitly selected embedded field is not the variable
				T := i.X.Type()
				if i.IsAddr {
					T = derefType(T)
				}
				if !types.Identical(T, o.Type()) {
					return true
				}
			}
			if f.names[id.Name] != i.X {
				f.setName(id.Name, i.X)
			}
			if f.addrs[id.Name] != i.IsAddr {
				m := map[string]bool{}
				for k, v := range f.addrs {
					m[k] = v
				}
				m[id.Name] = i.IsAddr
				f.addrs = m
			}
		}
		return true
	case *ssa.Phi:
		return true
	case *ssa.Jump:
		return x.jump(st, f.block.Succs[0])
	case *ssa.If:
		c := x.val(st, i.Cond).L[0]
		if x.merge(st, f, c) {
			return true
		}
		return x.branch(st, c, func(s *State) bool { return x.jump(s, f.block.Succs[0]) }, func(s *State) bool { return x.jump(s, s.top().block.Succs[1]) })
	case *ssa.Return:
		var rets []Val
		for _, r := range i.Results {
			rets = append(rets, x.val(st, r))
		}
		return x.doReturn(st, rets)
	case *ssa.RunDefers:
		ds := f.defers
		f.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			x.callDeferred(st, d)
		}
		return true
	case *ssa.Panic:
		x.oblige(st, "nopanic", "panic", in.Pos(), tFalse)
		return false
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok && shorten(g.String()) == "pflag.Usage" {
			return true // model: the usage text is only shown
		}
		p := x.val(st, i.Addr)
		x.nilCheck(st, p.L[0], i.Pos())
		v := x.val(st, i.Val)
		v.T = derefType(i.Addr.Type())
		x.store(st, p.L[0], v)
		return true
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, i.Map), x.val(st, i.Key), x.val(st, i.Value), i.Pos())
		return true
	case *ssa.Defer:
		d := deferred{com: &i.Call}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		if i.Call.IsInvoke() {
			d.fn = x.val(st, i.Call.Value)
		} else if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(st, i.Call.Value)
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		return true
	case *ssa.Call:
		return x.call(st, i)
	case ssa.Value:
		return x.value(st, i)
	}
	panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
}

func (x *Exec) branch(st *State, c *Term, yes, no func(*State) bool) bool {
	if c == tTrue {
		return yes(st)
	}
	if c == tFalse {
		return no(st)
	}
	if st.facts[c.id] {
		return yes(st)
	}
	if st.facts[mkNot(c).id] {
		return no(st)
	}
	r1 := x.q.check(append(append([]*Term{}, st.pc...), c))
	if r1 == "unsat" {
		st.assume(mkNot(c))
		return no(st)
	}
	r2 := x.q.check(append(append([]*Term{}, st.pc...), mkNot(c)))
	if r2 == "unsat" {
		st.assume(c)
		return yes(st)
	}
	other := st.clone()
	other.assume(mkNot(c))
	st.assume(c)
	x.defer1(other, no)
	return yes(st)
}

// merge turns a branch which only selects between two basic values into a conditional value.
func (x *Exec) merge(st *State, f *Frame, c *Term) bool {
	if c == tTrue || c == tFalse || x.sh.unroll != 0 {
		return false
	}
	from := f.block
	empty := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) != 1 || len(b.Succs) != 1 {
			return false
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.DebugRef, *ssa.Jump:
			default:
				return false
			}
		}
		return true
	}
	a, b := from.Succs[0], from.Succs[1]
	pa, pb := from, from // the predecessors of the join
	j := b
	switch {
	case empty(a) && a.Succs[0] == b:
		pa = a
	case empty(b) && b.Succs[0] == a:
		pb, j = b, a
	case empty(a) && empty(b) && a.Succs[0] == b.Succs[0]:
		pa, pb, j = a, b, a.Succs[0]
	default:
		return false
	}
	if a == b {
		return false
	}
	fl := x.p.loopsOf(f.fn)
	if fl.byHeader[j] != nil {
		return false
	}
	for _, l := range fl.byHeader {
		if l.blocks[j] != l.blocks[from] {
			return false
		}
	}
	ia, ib := -1, -1
	for k, p := range j.Preds {
		if p == pa && ia < 0 {
			ia = k
		} else if p == pb {
			ib = k
		}
	}
	if ia < 0 || ib < 0 {
		return false
	}
	vals := map[*ssa.Phi]Val{}
	n := 0
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			break
		}
		n++
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return false
		}
		u, v := x.val(st, p.Edges[ia]), x.val(st, p.Edges[ib])
		if len(u.L) != 1 || len(v.L) != 1 || u.L[0].sort != v.L[0].sort {
			return false
		}
		vals[p] = Val{p.Type(), []*Term{mkIte(c, u.L[0], v.L[0])}}
	}
	if n == 0 || st.facts[c.id] || st.facts[mkNot(c).id] || x.entails(st, c) || x.entails(st, mkNot(c)) {
		return false
	}
	f.prev, f.block, f.idx = pb, j, 0
	for p, v := range vals {
		f.regs[p] = v
	}
	for f.idx < len(j.Instrs) {
		if _, ok := j.Instrs[f.idx].(*ssa.Phi); !ok {
			break
		}
		f.idx++
	}
	return true
}

// defer1 queues a state which first performs act.
func (x *Exec) defer1(s *State, act func(*State) bool) {
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(stopPath); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		return act(s)
	}()
	if ok {
		x.work = append(x.work, s)
	}
}

func (x *Exec) doReturn(st *State, rets []Val) bool {
	f := st.top()
	depth := len(st.frames)
	if x.disc != nil && x.disc.ctx.depth >= depth {
		return false
	}
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].depth == depth {
		if depth == x.baseDepth+1 && f.onRet == nil {
			break // keep for the exit environment of the verified function
		}
		x.leaveLoop(st, st.loops[len(st.loops)-1])
	}
	if f.onRet != nil {
		st.frames = st.frames[:len(st.frames)-1]
		f.onRet(st, rets)
		return true
	}
	if depth == x.baseDepth+1 {
		x.onReturn(st, rets)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.call != nil {
		x.set(st, f.call, tupleVal(f.call.Type(), rets))
	}
	return true
}

func (x *Exec) leaveLoop(st *State, c *loopCtx) {
	st.loops = st.loops[:len(st.loops)-1]
	if c.ws != nil {
		for k := range c.ws.calls {
			st.calls[k] = []ghostCall{{poison: true}}
		}
	}
	if c.spec != nil {
		st.done = append(st.done[:len(st.done):len(st.done)], c)
	}
}

func tupleVal(t types.Type, rets []Val) Val {
	if len(rets) == 1 {
		return Val{t, rets[0].L}
	}
	v := Val{T: t}
	for _, r := range rets {
		v.L = append(v.L, r.L...)
	}
	return v
}

func (x *Exec) nilCheck(st *State, p *Term, pos token.Pos) {
	switch p.op {
	case OCell, OPField, OPElem, OClo:
		return
	}
	if isInt(p) && p.iv.Sign() < 0 {
		return // global
	}
	x.oblige(st, "nonnil", "deref", pos, mkNot(mkEq(p, tZero)))
}

func (x *Exec) newCell(st *State, T types.Type, v Val, a *ssa.Alloc) *Term {
	x.sh.mu.Lock()
	x.sh.ncell++
	id := fmt.Sprintf("c%d", x.sh.ncell)
	x.sh.mu.Unlock()
	st.cells[id] = &cell{T: T, L: v.L, alloc: a}
	return cellPtr(id, 0)
}

// value executes a value-producing instruction.
func (x *Exec) value(st *State, in ssa.Value) bool {
	f := st.top()
	switch i := in.(type) {
	case *ssa.Alloc:
		T := derefType(i.Type())
		x.set(st, i, Val{i.Type(), []*Term{x.newCell(st, T, zeroVal(T), i)}})
		return true
	case *ssa.BinOp:
		v := x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.Type(), i.Pos())
		x.set(st, i, v)
		return true
	case *ssa.UnOp:
		v := x.val(st, i.X)
		switch i.Op {
		case token.MUL:
			x.nilCheck(st, v.L[0], i.Pos())
			if g, ok := i.X.(*ssa.Global); ok {
				x.set(st, i, x.loadGlobal(st, g))
				return true
			}
			x.set(st, i, x.load(st, v.L[0], i.Type()))
		case token.SUB:
			switch v.L[0].sort {
			case SInt:
				r := mkNeg(v.L[0])
				x.overflow(st, i.Type(), r, i.Pos())
				x.set(st, i, Val{i.Type(), []*Term{r}})
			default:
				x.set(st, i, Val{i.Type(), []*Term{mkFNeg(v.L[0].sort, v.L[0])}})
			}
		case token.NOT:
			x.set(st, i, Val{i.Type(), []*Term{mkNot(v.L[0])}})
		case token.XOR:
			x.set(st, i, Val{i.Type(), []*Term{mkSub(mkInt(-1), v.L[0])}})
		default:
			panic(unsupported("unary " + i.Op.String()))
		}
		return true
	case *ssa.ChangeType:
		x.set(st, i, x.val(st, i.X))
		return true
	case *ssa.ChangeInterface:
		x.set(st, i, x.val(st, i.X))
		return true
	case *ssa.Convert:
		x.set(st, i, x.convert(st, x.val(st, i.X), i.Type()))
		return true
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		v.T = i.X.Type()
		x.set(st, i, x.makeIface(st, v, i.Type()))
		return true
	case *ssa.TypeAssert:
		return x.typeAssert(st, i)
	case *ssa.Extract:
		t := i.Tuple.Type().(*types.Tuple)
		v := x.val(st, i.Tuple)
		off := tupleOffset(t, i.Index)
		x.set(st, i, Val{i.Type(), v.L[off : off+nLeaves(i.Type())]})
		return true
	case *ssa.Field:
		v := x.val(st, i.X)
		off, ft := fieldOffset(i.X.Type(), i.Field)
		x.set(st, i, Val{ft, v.L[off : off+nLeaves(ft)]})
		return true
	case *ssa.FieldAddr:
		p := x.val(st, i.X)
		x.nilCheck(st, p.L[0], i.Pos())
		T := derefType(i.X.Type())
		off, _ := fieldOffset(T, i.Field)
		x.set(st, i, Val{i.Type(), []*Term{addOff(x.resolve(st, p.L[0]), T, off)}})
		return true
	case *ssa.Index:
		v := x.val(st, i.X)
		ix := x.val(st, i.Index).L[0]
		if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.oblige(st, "bounds", "index", i.Pos(), mkAnd(mkLe(tZero, ix), mkLt(ix, strLen(v.L[0]))))
			x.set(st, i, Val{i.Type(), []*Term{mkApp("str.at", SInt, v.L[0], ix)}})
			return true
		}
		at := i.X.Type().Underlying().(*types.Array)
		x.oblige(st, "bounds", "index", i.Pos(), mkAnd(mkLe(tZero, ix), mkLt(ix, mkInt(at.Len()))))
		n := nLeaves(at.Elem())
		out := Val{i.Type(), make([]*Term, n)}
		for j := 0; j < n; j++ {
			r := v.L[j]
			for k := int64(at.Len()) - 1; k >= 0; k-- {
				r = mkIte(mkEq(ix, mkInt(k)), v.L[int(k)*n+j], r)
			}
			out.L[j] = r
		}
		x.set(st, i, out)
		return true
	case *ssa.IndexAddr:
		v := x.val(st, i.X)
		ix := x.val(st, i.Index).L[0]
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			x.oblige(st, "bounds", "index", i.Pos(), mkAnd(mkLe(tZero, ix), mkLt(ix, v.L[2])))
			x.set(st, i, Val{i.Type(), []*Term{elemPtr(v.L[0], mkAdd(v.L[1], ix), typeKey(u.Elem()), 0)}})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.nilCheck(st, v.L[0], i.Pos())
			x.oblige(st, "bounds", "index", i.Pos(), mkAnd(mkLe(tZero, ix), mkLt(ix, mkInt(at.Len()))))
			base := x.resolve(st, v.L[0])
			if base.op == OPElem && base.name == typeKey(at.Elem()) && base.args[1] == tZero && base.iv.Sign() == 0 {
				x.set(st, i, Val{i.Type(), []*Term{elemPtr(base.args[0], ix, base.name, 0)}})
				return true
			}
			if !isInt(ix) {
				// case split over the index
				for k := int64(0); k < at.Len(); k++ {
					s := st.clone()
					s.assume(mkEq(ix, mkInt(k)))
					if x.feasible(s) {
						x.set(s, i, Val{i.Type(), []*Term{addOff(base, u.Elem(), int(k)*nLeaves(at.Elem()))}})
						x.work = append(x.work, s)
					}
				}
				return false
			}
			x.set(st, i, Val{i.Type(), []*Term{addOff(base, u.Elem(), int(ix.iv.Int64())*nLeaves(at.Elem()))}})
		default:
			panic(unsupported("IndexAddr on " + i.X.Type().String()))
		}
		return true
	case *ssa.Lookup:
		x.set(st, i, x.lookup(st, x.val(st, i.X), i.X.Type(), x.val(st, i.Index), i.CommaOk, i.Type(), i.Pos()))
		return true
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		ln := x.val(st, i.Len).L[0]
		cp := x.val(st, i.Cap).L[0]
		x.oblige(st, "bounds", "makeslice", i.Pos(), mkAnd(mkLe(tZero, ln), mkLe(ln, cp)))
		x.set(st, i, x.makeSlice(st, i.Type(), et, ln, cp))
		return true
	case *ssa.MakeMap:
		x.set(st, i, Val{i.Type(), []*Term{x.makeMap(st, i.Type())}})
		return true
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, x.val(st, v))
		}
		x.sh.mu.Lock()
		x.sh.ncell++
		id := fmt.Sprintf("clo%d", x.sh.ncell)
		x.sh.mu.Unlock()
		st.clos[id] = &closure{fn: fn, binds: b}
		x.set(st, i, Val{i.Type(), []*Term{mk(&Term{op: OClo, sort: SInt, name: id})}})
		return true
	case *ssa.Slice:
		x.set(st, i, x.slice(st, i))
		return true
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", in, f.fn)))
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	T := derefType(g.Type())
	ls := leavesOf(T)
	v := Val{T, make([]*Term, len(ls))}
	if gv, ok := x.globalInit(st, g); ok {
		return gv
	}
	for i, l := range ls {
		v.L[i] = mk(&Term{op: OVar, sort: l.sort, name: "G:" + sanitize(shorten(g.String())) + l.path})
	}
	if !x.spec {
		x.valFacts(st, v)
		// package level error values are never nil
		if len(ls) == 2 && ls[0].part == "tag" {
			st.assume(mkLt(tZero, v.L[0]))
		}
	}
	return v
}

// globalInit evaluates initializers of the form []string{...} or constants
// of package variables which are never assigned elsewhere.
func (x *Exec) globalInit(st *State, g *ssa.Global) (Val, bool) {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return Val{}, false
	}
	k := "$global:" + g.String()
	if _, ok := st.ghost[k]; ok {
		return x.load(st, cellPtr(k, 0), derefType(g.Type())), true
	}
	init := g.Pkg.Func("init")
	var stores []*ssa.Store
	for _, fn := range x.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						switch s := in.(type) {
						case *ssa.Store:
							if fn != init {
								return Val{}, false
							}
							stores = append(stores, s)
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							return Val{}, false
						}
					}
				}
			}
		}
	}
	var sv ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				sv = s.Val
			}
		}
	}
	if sv == nil {
		return Val{}, false
	}
	var v Val
	switch c := sv.(type) {
	case *ssa.Const:
		v = constTerm(c)
	case *ssa.Slice:
		a, ok := c.X.(*ssa.Alloc)
		if !ok {
			return Val{}, false
		}
		T := derefType(a.Type())
		at, ok := T.Underlying().(*types.Array)
		if !ok {
			return Val{}, false
		}
		cp := x.newCell(st, T, zeroVal(T), nil)
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(a) {
						cv, ok1 := s.Val.(*ssa.Const)
						ci, ok2 := ia.Index.(*ssa.Const)
						if !ok1 || !ok2 {
							return Val{}, false
						}
						n, _ := constant.Int64Val(ci.Value)
						x.store(st, cellPtr(cp.name, int(n)*nLeaves(at.Elem())), constTerm(cv))
					}
				}
			}
		}
		ref := x.promoteArr(st, cp.name)
		n := mkInt(at.Len())
		v = Val{sv.Type(), []*Term{ref, tZero, n, n}}
	default:
		return Val{}, false
	}
	v.T = derefType(g.Type())
	st.ghost[k] = tZero
	st.cells[k] = &cell{T: v.T, L: v.L}
	return v, true
}

func (x *Exec) makeIface(st *State, v Val, it types.Type) Val {
	tag := typeTag(v.T)
	out := Val{it, []*Term{tag, boxVal(v)}}
	if !x.spec && len(v.L) > 1 {
		x.linkIface(st, v, out)
	}
	return out
}

// linkIface: what the methods of an immutable interface value made from a struct give.
func (x *Exec) linkIface(st *State, v, out Val) {
	it, ok := out.T.Underlying().(*types.Interface)
	if !ok || x.p.contracts["iface "+shorten(types.TypeString(out.T, nil))] == nil {
		return
	}
	if _, ok := v.T.Underlying().(*types.Struct); !ok {
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Type().(*types.Signature).Params().Len() > 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case unsupportedErr, specErr:
					default:
						panic(r)
					}
				}
			}()
			env := &Env{x: x, st: st, old: st, vars: map[string]Val{}}
			r := env.method(&Expr{k: "call"}, v, m.Name(), nil)
			u := env.spec().ifaceUF(out, m, nil)
			if len(r.L) != len(u.L) {
				return
			}
			for j := range r.L {
				if hasSelect(r.L[j]) {
					return
				}
			}
			for j := range r.L {
				st.assume(mkEq(u.L[j], r.L[j]))
			}
		}()
	}
}

// hasSelect: the term depends on the memory.
func hasSelect(t *Term) bool {
	if t.op == OSelect {
		return true
	}
	for _, a := range t.args {
		if hasSelect(a) {
			return true
		}
	}
	return false
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) bool {
	v := x.val(st, i.X)
	if types.IsInterface(i.AssertedType) {
		// ok iff the dynamic type implements it
		var ok *Term
		if dt := tagToType(v.L[0]); dt != nil {
			ok = mkBool(types.Implements(dt, i.AssertedType.Underlying().(*types.Interface)))
		} else {
			ok = mkApp("implements:"+typeKey(i.AssertedType), SBool, v.L[0])
		}
		if i.CommaOk {
			x.set(st, i, Val{i.Type(), []*Term{mkIte(ok, v.L[0], tZero), mkIte(ok, v.L[1], tZero), ok}})
		} else {
			x.oblige(st, "nopanic", "type-assert", i.Pos(), ok)
			x.set(st, i, v)
		}
		return true
	}
	ok := mkEq(v.L[0], typeTag(i.AssertedType))
	yes := func(s *State) {
		u := unboxVal(v.L[1], i.AssertedType)
		if !x.spec {
			x.valFacts(s, u)
		}
		if i.CommaOk {
			x.set(s, i, Val{i.Type(), append(append([]*Term{}, u.L...), tTrue)})
		} else {
			x.set(s, i, u)
		}
	}
	if !i.CommaOk {
		x.oblige(st, "nopanic", "type-assert", i.Pos(), ok)
		yes(st)
		return true
	}
	return x.branch(st, ok, func(s *State) bool { yes(s); return true }, func(s *State) bool {
		x.set(s, i, Val{i.Type(), append(append([]*Term{}, zeroVal(i.AssertedType).L...), tFalse)})
		return true
	})
}

func (x *Exec) makeSlice(st *State, T, et types.Type, ln, cp *Term) Val {
	ref := x.newRef(st)
	for j, l := range leavesOf(et) {
		k := elemKey(typeKey(et), j)
		h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, l.sort)))
		x.noteWrite(st, k, ref)
		st.heap[k] = mkStore(h, ref, mkConstArr(arrSort(SInt, l.sort), zeroLeaf(l)))
	}
	return Val{T, []*Term{ref, tZero, ln, cp}}
}

func mapTypes(t types.Type) (types.Type, types.Type, string) {
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem(), typeKey(m.Key()) + "->" + typeKey(m.Elem())
}

func (x *Exec) makeMap(st *State, T types.Type) *Term {
	kt, vt, tk := mapTypes(T)
	ks := leavesOf(kt)
	if len(ks) != 1 {
		panic(unsupported("map key " + kt.String()))
	}
	ref := x.newRef(st)
	k := mapDomKey(tk)
	h := x.heapGet(st, k, arrSort(SInt, arrSort(ks[0].sort, SBool)))
	x.noteWrite(st, k, ref)
	st.heap[k] = mkStore(h, ref, mkConstArr(arrSort(ks[0].sort, SBool), tFalse))
	_ = vt
	return ref
}

func (x *Exec) mapUpdate(st *State, m, k, v Val, pos token.Pos) {
	kt, vt, tk := mapTypes(m.T)
	ks := leavesOf(kt)[0].sort
	x.oblige(st, "nonnil", "map-write", pos, mkNot(mkEq(m.L[0], tZero)))
	v = x.promoteVal(st, v)
	dk := mapDomKey(tk)
	h := x.heapGet(st, dk, arrSort(SInt, arrSort(ks, SBool)))
	x.noteWrite(st, dk, m.L[0])
	st.heap[dk] = mkStore(h, m.L[0], mkStore(mkSelect(h, m.L[0]), k.L[0], tTrue))
	for j, l := range leavesOf(vt) {
		vk := mapValKey(tk, j)
		h := x.heapGet(st, vk, arrSort(SInt, arrSort(ks, l.sort)))
		x.noteWrite(st, vk, m.L[0])
		st.heap[vk] = mkStore(h, m.L[0], mkStore(mkSelect(h, m.L[0]), k.L[0], v.L[j]))
	}
}

func (x *Exec) mapDom(st *State, m Val) *Term {
	kt, _, tk := mapTypes(m.T)
	ks := leavesOf(kt)[0].sort
	h := x.heapGet(st, mapDomKey(tk), arrSort(SInt, arrSort(ks, SBool)))
	return mkSelect(h, m.L[0])
}

func (x *Exec) mapGet(st *State, m, k Val) (dom *Term, v Val) {
	kt, vt, tk := mapTypes(m.T)
	ks := leavesOf(kt)[0].sort
	dom = mkAnd(mkNot(mkEq(m.L[0], tZero)), mkSelect(x.mapDom(st, m), k.L[0]))
	ls := leavesOf(vt)
	v = Val{vt, make([]*Term, len(ls))}
	for j, l := range ls {
		h := x.heapGet(st, mapValKey(tk, j), arrSort(SInt, arrSort(ks, l.sort)))
		v.L[j] = mkSelect(mkSelect(h, m.L[0]), k.L[0])
	}
	return
}

func (x *Exec) lookup(st *State, m Val, mt types.Type, k Val, commaOk bool, rt types.Type, pos token.Pos) Val {
	if b, ok := mt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		x.oblige(st, "bounds", "index", pos, mkAnd(mkLe(tZero, k.L[0]), mkLt(k.L[0], strLen(m.L[0]))))
		return Val{rt, []*Term{mkApp("str.at", SInt, m.L[0], k.L[0])}}
	}
	m.T = mt
	dom, v := x.mapGet(st, m, k)
	z := zeroVal(v.T)
	out := Val{T: rt}
	for j := range v.L {
		out.L = append(out.L, mkIte(dom, v.L[j], z.L[j]))
	}
	if !x.spec {
		s := Val{v.T, out.L}
		x.valFacts(st, s)
	}
	if commaOk {
		out.L = append(append([]*Term{}, out.L...), dom)
	}
	return out
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	v := x.val(st, i.X)
	var lo, hi, mx *Term
	lo = tZero
	if i.Low != nil {
		lo = x.val(st, i.Low).L[0]
	}
	if i.High != nil {
		hi = x.val(st, i.High).L[0]
	}
	if i.Max != nil {
		mx = x.val(st, i.Max).L[0]
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		if hi == nil {
			hi = v.L[2]
		}
		c := v.L[3]
		if mx != nil {
			x.oblige(st, "bounds", "slice", i.Pos(), mkAnd(mkLe(hi, mx), mkLe(mx, c)))
			c = mx
		}
		x.oblige(st, "bounds", "slice", i.Pos(), mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, c)))
		return Val{i.Type(), []*Term{v.L[0], mkAdd(v.L[1], lo), mkSub(hi, lo), mkSub(c, lo)}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := v.L[0]
		if p.op != OCell || p.iv.Sign() != 0 {
			panic(unsupported("slicing a non-local array"))
		}
		ref := x.promoteArr(st, p.name)
		n := mkInt(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if mx != nil {
			c = mx
		}
		x.oblige(st, "bounds", "slice", i.Pos(), mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, c), mkLe(c, n)))
		return Val{i.Type(), []*Term{ref, lo, mkSub(hi, lo), mkSub(c, lo)}}
	case *types.Basic:
		if hi == nil {
			hi = strLen(v.L[0])
		}
		x.oblige(st, "bounds", "slice", i.Pos(), mkAnd(mkLe(tZero, lo), mkLe(lo, hi), mkLe(hi, strLen(v.L[0]))))
		return Val{i.Type(), []*Term{mkApp("str.sub", SStr, v.L[0], lo, hi)}}
	}
	panic(unsupported("slice of " + i.X.Type().String()))
}

func strLen(t *Term) *Term {
	if l := litOf(t); l != nil {
		return mkInt(int64(len(*l)))
	}
	return mkApp("str.len", SInt, t)
}

func (x *Exec) overflow(st *State, T types.Type, r *Term, pos token.Pos) {
	if x.spec || x.con == nil || !x.con.overflow {
		return
	}
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned != 0 {
		return
	}
	lo, hi := intRange(b)
	if lo == nil {
		return
	}
	x.oblige(st, "overflow", "arith", pos, mkAnd(mkLe(mkBig(lo), r), mkLe(r, mkBig(hi))))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, T types.Type, pos token.Pos) Val {
	one := func(t *Term) Val { return Val{T, []*Term{t}} }
	switch op {
	case token.EQL, token.NEQ:
		e := x.eqVal(st, a, b)
		if op == token.NEQ {
			e = mkNot(e)
		}
		return one(e)
	}
	p, q := a.L[0], b.L[0]
	switch p.sort {
	case SInt:
		bt, _ := a.T.Underlying().(*types.Basic)
		unsigned := bt != nil && bt.Info()&types.IsUnsigned != 0
		if unsigned {
			switch op {
			case token.LSS:
				return one(mkLt(p, q))
			case token.LEQ:
				return one(mkLe(p, q))
			case token.GTR:
				return one(mkLt(q, p))
			case token.GEQ:
				return one(mkLe(q, p))
			case token.QUO:
				x.oblige(st, "divzero", "div", pos, mkNot(mkEq(q, tZero)))
			case token.REM:
				x.oblige(st, "divzero", "mod", pos, mkNot(mkEq(q, tZero)))
			}
			if isInt(p) && isInt(q) {
				if r, ok := foldUnsigned(op, p, q); ok {
					return one(r)
				}
			}
			return one(mkApp("u64"+op.String(), SInt, p, q))
		}
		var r *Term
		switch op {
		case token.ADD:
			r = mkAdd(p, q)
		case token.SUB:
			r = mkSub(p, q)
		case token.MUL:
			r = mkMul(p, q)
		case token.QUO:
			x.oblige(st, "divzero", "div", pos, mkNot(mkEq(q, tZero)))
			return one(mkTDiv(p, q))
		case token.REM:
			x.oblige(st, "divzero", "mod", pos, mkNot(mkEq(q, tZero)))
			if q.op != OInt && x.entails(st, mkAnd(mkLe(tZero, p), mkLt(p, q))) {
				return one(p)
			}
			if q.op != OInt && x.entails(st, mkAnd(mkLt(tZero, p), mkEq(p, q))) {
				return one(tZero)
			}
			return one(mkTMod(p, q))
		case token.LSS:
			return one(mkLt(p, q))
		case token.LEQ:
			return one(mkLe(p, q))
		case token.GTR:
			return one(mkLt(q, p))
		case token.GEQ:
			return one(mkLe(q, p))
		default:
			return one(mkApp("i64"+op.String(), SInt, p, q))
		}
		x.overflow(st, T, r, pos)
		return one(r)
	case SStr:
		switch op {
		case token.ADD:
			return one(mkConcat(p, q))
		case token.LSS:
			return one(mkApp("str.lt", SBool, p, q))
		case token.GTR:
			return one(mkApp("str.lt", SBool, q, p))
		}
	case SF32, SF64:
		switch op {
		case token.ADD:
			return one(mkFOp("add", p.sort, p, q))
		case token.SUB:
			return one(mkFOp("sub", p.sort, p, q))
		case token.MUL:
			return one(mkFOp("mul", p.sort, p, q))
		case token.QUO:
			return one(mkFOp("div", p.sort, p, q))
		case token.LSS:
			return one(mkFCmp("lt", p.sort, p, q))
		case token.LEQ:
			return one(mkFCmp("le", p.sort, p, q))
		case token.GTR:
			return one(mkFCmp("lt", p.sort, q, p))
		case token.GEQ:
			return one(mkFCmp("le", p.sort, q, p))
		}
	}
	panic(unsupported("binary " + op.String() + " on " + a.T.String()))
}

func foldUnsigned(op token.Token, p, q *Term) (*Term, bool) {
	if !p.iv.IsUint64() || !q.iv.IsUint64() {
		return nil, false
	}
	a, b := p.iv.Uint64(), q.iv.Uint64()
	v := constant.BinaryOp(constant.MakeUint64(a), token.ADD, constant.MakeUint64(0))
	_ = v
	var r uint64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		if b == 0 {
			return nil, false
		}
		r = a / b
	case token.REM:
		if b == 0 {
			return nil, false
		}
		r = a % b
	default:
		return nil, false
	}
	return constVal(constant.MakeUint64(r), types.Typ[types.Uint64]).L[0], true
}

// eqVal is Go's == on two values of the same type (one may be the nil constant).
func (x *Exec) eqVal(st *State, a, b Val) *Term {
	if len(a.L) != len(b.L) {
		panic(unsupported("comparison of different shapes"))
	}
	ls := leavesOf(a.T)
	if len(ls) > 0 && ls[0].part == "arr" && len(ls) == 4 { // slice == nil
		return mkEq(a.L[0], b.L[0])
	}
	if len(ls) == 2 && ls[0].part == "tag" {
		if a.L[0] == tZero || b.L[0] == tZero {
			return mkEq(a.L[0], b.L[0])
		}
	}
	var cs []*Term
	for i, l := range ls {
		p, q := a.L[i], b.L[i]
		if p.sort == SF32 || p.sort == SF64 {
			cs = append(cs, mkFCmp("eq", p.sort, p, q))
			continue
		}
		if p.op == OCell {
			p = x.resolve(st, p)
		}
		if q.op == OCell {
			q = x.resolve(st, q)
		}
		if p.op == OCell && !isInt(q) && q.op != OCell || q.op == OCell && !isInt(p) && p.op != OCell {
			// a local that was never published differs from everything in memory
			if q.op == OVar || p.op == OVar || q.op == OSelect || p.op == OSelect || q.op == OPoly || p.op == OPoly {
				cs = append(cs, tFalse)
				continue
			}
		}
		_ = l
		cs = append(cs, mkEq(p, q))
	}
	return mkAnd(cs...)
}

func (x *Exec) convert(st *State, v Val, T types.Type) Val {
	fb, ok1 := v.T.Underlying().(*types.Basic)
	tb, ok2 := T.Underlying().(*types.Basic)
	one := func(t *Term) Val { return Val{T, []*Term{t}} }
	if ok1 && ok2 {
		t := v.L[0]
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			flo, fhi := intRange(fb)
			tlo, thi := intRange(tb)
			if flo == nil || tlo == nil {
				return one(t)
			}
			if tlo.Cmp(flo) <= 0 && thi.Cmp(fhi) >= 0 {
				return one(t)
			}
			if isInt(t) && t.iv.Cmp(tlo) >= 0 && t.iv.Cmp(thi) <= 0 {
				return one(t)
			}
			if !x.spec && x.entails(st, mkAnd(mkLe(mkBig(tlo), t), mkLe(t, mkBig(thi)))) {
				return one(t)
			}
			return one(mkApp("conv:"+tb.Name(), SInt, t))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return one(mkI2F(basicSort(tb), t))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return one(mkF2I(t))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return one(mkFConv(basicSort(tb), t))
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return one(t)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return one(mkApp("str.rune", SStr, t))
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		return one(mkApp("str.frombytes", SStr, v.L...))
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		ref := x.newRef(st)
		n := strLen(v.L[0])
		st.assume(mkLe(tZero, n))
		return Val{T, []*Term{ref, tZero, n, n}}
	}
	if len(leavesOf(T)) == len(v.L) {
		return Val{T, v.L}
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s", v.T, T)))
}
