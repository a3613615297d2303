// Symbolic states, memory, frames.
package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cell struct {
	T     types.Type
	L     []*Term
	fwd   *Term // promoted: heap reference (or array reference if arr)
	arr   bool
	alloc *ssa.Alloc
}

type deferred struct {
	com  *ssa.CallCommon
	args []Val
	fn   Val
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   *ssa.Call // call instruction in the caller frame
	path   string
	defers []deferred
	free   []Val
	params []Val
	onRet  func(st *State, rets []Val) // instead of storing to call
	names  map[string]ssa.Value        // source variables (copy on write)
	addrs  map[string]bool             // variables which live in memory
}

type closure struct {
	fn    *ssa.Function
	binds []Val
}

type State struct {
	pc     []*Term
	facts  map[int]bool
	heap   map[string]*Term
	cells  map[string]*cell
	clos   map[string]*closure
	alloc  *Term
	frames []*Frame
	ghost  map[string]*Term
	loops  []*loopCtx
	done   []*loopCtx             // loops which have been left (ghost values)
	calls  map[string][]ghostCall // ghost results of contract calls, by callee
	marks  []*Term                // the first assumption at each loop head passed
	flags  []flagReg              // command line flags which were defined
}

type flagReg struct {
	name string
	ptr  Val
}

type ghostCall struct {
	ghosts map[string]Val
	ret    []Val
	args   []Val
	old    *State
	poison bool // an unknown number of calls was made by a loop
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], alloc: s.alloc, marks: s.marks[:len(s.marks):len(s.marks)]}
	n.facts = make(map[int]bool, len(s.facts))
	for k := range s.facts {
		n.facts[k] = true
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[string]*cell, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.clos = make(map[string]*closure, len(s.clos))
	for k, v := range s.clos {
		n.clos[k] = v
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.calls = make(map[string][]ghostCall, len(s.calls))
	for k, v := range s.calls {
		n.calls[k] = v[:len(v):len(v)]
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &g
	}
	n.loops = append([]*loopCtx{}, s.loops...)
	n.done = s.done[:len(s.done):len(s.done)]
	n.flags = s.flags[:len(s.flags):len(s.flags)]
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.facts[t.id] {
		return
	}
	s.facts[t.id] = true
	s.pc = append(s.pc[:len(s.pc):len(s.pc)], t)
}

// substAll replaces variables in the whole state.
func (s *State) substAll(m map[*Term]*Term) {
	memo := map[int]*Term{}
	f := func(t *Term) *Term { return substM(t, m, memo) }
	fv := func(v Val) Val {
		ch := false
		for _, l := range v.L {
			if f(l) != l {
				ch = true
			}
		}
		if !ch {
			return v
		}
		n := Val{v.T, make([]*Term, len(v.L))}
		for i, l := range v.L {
			n.L[i] = f(l)
		}
		return n
	}
	pc := s.pc
	s.pc = nil
	s.facts = map[int]bool{}
	for _, t := range pc {
		s.assume(f(t))
	}
	for k, v := range s.heap {
		s.heap[k] = f(v)
	}
	for k, c := range s.cells {
		n := *c
		n.L = fv(Val{c.T, c.L}).L
		if n.fwd != nil {
			n.fwd = f(n.fwd)
		}
		s.cells[k] = &n
	}
	for k, v := range s.ghost {
		s.ghost[k] = f(v)
	}
	s.alloc = f(s.alloc)
	for _, fr := range s.frames {
		for k, v := range fr.regs {
			fr.regs[k] = fv(v)
		}
		for i := range fr.params {
			fr.params[i] = fv(fr.params[i])
		}
	}
	for i := range s.flags {
		s.flags = append([]flagReg{}, s.flags...)
		s.flags[i].ptr = fv(s.flags[i].ptr)
	}
	for k, l := range s.calls {
		var nl []ghostCall
		for _, c := range l {
			n := ghostCall{ghosts: map[string]Val{}, old: c.old}
			for g, v := range c.ghosts {
				n.ghosts[g] = fv(v)
			}
			for _, v := range c.ret {
				n.ret = append(n.ret, fv(v))
			}
			for _, v := range c.args {
				n.args = append(n.args, fv(v))
			}
			nl = append(nl, n)
		}
		s.calls[k] = nl
	}
	for k, c := range s.clos {
		n := &closure{fn: c.fn}
		for _, b := range c.binds {
			n.binds = append(n.binds, fv(b))
		}
		s.clos[k] = n
	}
}

// ---- heap keys ----

func objKey(tk string, i int) string  { return fmt.Sprintf("H:%s:%d", tk, i) }
func elemKey(tk string, i int) string { return fmt.Sprintf("S:%s:%d", tk, i) }
func mapDomKey(tk string) string      { return "M:" + tk + ":dom" }
func mapValKey(tk string, i int) string {
	return fmt.Sprintf("M:%s:%d", tk, i)
}

var keySorts = map[string]Sort{}

// heapGet returns the array for a heap key, creating the initial one lazily.
func (x *Exec) heapGet(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	// the initial memory is shared by all paths of this verification run
	x.sh.mu.Lock()
	t, ok := x.sh.base[key]
	if !ok {
		t = mk(&Term{op: OVar, sort: s, name: sanitize(key) + "@0" + x.sh.suffix})
		x.sh.base[key] = t
	}
	x.sh.mu.Unlock()
	st.heap[key] = t
	if x.sh.alloc0 != nil {
		x.wellFormed(st, key, t, x.sh.alloc0)
	}
	return t
}

// leafFact: invariant of every stored value of a leaf.
func (x *Exec) leafFact(l Leaf, v *Term, alloc *Term) *Term {
	switch {
	case l.part == "arr", l.part == "" && l.sort == SInt && isRefType(l.typ):
		if _, ok := l.typ.Underlying().(*types.Signature); ok {
			return tTrue
		}
		return mkAnd(mkLe(tZero, v), mkLt(v, alloc))
	case l.part == "tag":
		if it := x.p.soleImpl(l.typ); it != nil {
			return mkOr(mkEq(v, tZero), mkEq(v, typeTag(it)))
		}
		return mkLe(tZero, v)
	case l.part == "val":
		if it := x.p.soleImpl(l.typ); it != nil && directIface(it) {
			return mkAnd(mkLe(tZero, v), mkLt(v, alloc))
		}
	case l.part == "off", l.part == "len", l.part == "cap":
		return mkLe(tZero, v)
	}
	return tTrue
}

// wellFormed: references stored in memory are allocated.
func (x *Exec) wellFormed(st *State, key string, h, alloc *Term) {
	l, ok := keyLeaf(key)
	if !ok {
		return
	}
	r := boundVar("r", SInt)
	if key[0] == 'S' {
		k := boundVar("k", SInt)
		v := mkSelect(mkSelect(h, r), k)
		if f := x.leafFact(l, v, alloc); f != tTrue {
			st.assume(mkForall([]*Term{r, k}, mkImp(mkLt(r, alloc), f), []*Term{v}))
		}
		return
	}
	v := mkSelect(h, r)
	if f := x.leafFact(l, v, alloc); f != tTrue {
		st.assume(mkForall([]*Term{r}, mkImp(mkLt(r, alloc), f), []*Term{v}))
	}
}

// wellFormedRow is the same for the new contents of one object.
func (x *Exec) wellFormedRow(st *State, key string, v, alloc *Term) {
	l, ok := keyLeaf(key)
	if !ok {
		return
	}
	if key[0] == 'S' {
		k := boundVar("k", SInt)
		w := mkSelect(v, k)
		if f := x.leafFact(l, w, alloc); f != tTrue {
			st.assume(mkForall([]*Term{k}, f, []*Term{w}))
		}
		return
	}
	st.assume(x.leafFact(l, v, alloc))
}

func derefType(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func cellPtr(id string, off int) *Term {
	return mk(&Term{op: OCell, sort: SInt, name: id, iv: big.NewInt(int64(off))})
}
func fieldPtr(ref *Term, tk string, off int) *Term {
	return mk(&Term{op: OPField, sort: SInt, name: tk, args: []*Term{ref}, iv: big.NewInt(int64(off))})
}
func elemPtr(arr, idx *Term, tk string, off int) *Term {
	return mk(&Term{op: OPElem, sort: SInt, name: tk, args: []*Term{arr, idx}, iv: big.NewInt(int64(off))})
}

// resolve follows promoted cells.
func (x *Exec) resolve(st *State, p *Term) *Term {
	if p.op == OCell {
		c := st.cells[p.name]
		if c == nil {
			panic(unsupported("pointer to a dead local"))
		}
		if c.fwd != nil {
			off := int(p.iv.Int64())
			if c.arr {
				at := c.T.Underlying().(*types.Array)
				n := nLeaves(at.Elem())
				return elemPtr(c.fwd, mkInt(int64(off/n)), typeKey(at.Elem()), off%n)
			}
			if off == 0 {
				return c.fwd
			}
			return fieldPtr(c.fwd, typeKey(c.T), off)
		}
	}
	return p
}

// addOff moves a resolved pointer by leaf offset; T is the static pointee type.
func addOff(p *Term, T types.Type, off int) *Term {
	switch p.op {
	case OCell:
		return cellPtr(p.name, int(p.iv.Int64())+off)
	case OPField:
		return fieldPtr(p.args[0], p.name, int(p.iv.Int64())+off)
	case OPElem:
		return elemPtr(p.args[0], p.args[1], p.name, int(p.iv.Int64())+off)
	}
	return fieldPtr(p, typeKey(T), off)
}

// load reads a value of type T through pointer p.
func (x *Exec) load(st *State, p *Term, T types.Type) Val {
	p = x.wholeOrFirst(st, p, x.resolve(st, p), T)
	ls := leavesOf(T)
	v := Val{T: T, L: make([]*Term, len(ls))}
	if p.op == OIte && p.cells {
		return mergeVal(p.args[0], x.load(st, p.args[1], T), x.load(st, p.args[2], T))
	}
	if isInt(p) && p.iv.Sign() == 0 {
		return zeroVal(T) // unreachable: guarded by the nil check
	}
	switch p.op {
	case OCell:
		c := st.cells[p.name]
		off := int(p.iv.Int64())
		copy(v.L, c.L[off:off+len(ls)])
		return v
	case OPField:
		off := int(p.iv.Int64())
		for i, l := range ls {
			v.L[i] = mkSelect(x.heapGet(st, objKey(p.name, off+i), arrSort(SInt, l.sort)), p.args[0])
		}
	case OPElem:
		off := int(p.iv.Int64())
		for i, l := range ls {
			v.L[i] = mkSelect(mkSelect(x.heapGet(st, elemKey(p.name, off+i), arrSort(SInt, arrSort(SInt, l.sort))), p.args[0]), p.args[1])
		}
	default:
		tk := typeKey(T)
		for i, l := range ls {
			v.L[i] = mkSelect(x.heapGet(st, objKey(tk, i), arrSort(SInt, l.sort)), p)
		}
	}
	if !x.spec {
		x.valFacts(st, v)
	}
	return v
}

// store writes v through p.
func (x *Exec) store(st *State, p *Term, v Val) {
	p = x.wholeOrFirst(st, p, x.resolve(st, p), v.T)
	ls := leavesOf(v.T)
	if p.op == OIte && p.cells {
		panic(unsupported("store through a conditional local pointer"))
	}
	switch p.op {
	case OCell:
		c := *st.cells[p.name]
		off := int(p.iv.Int64())
		c.L = append([]*Term{}, c.L...)
		copy(c.L[off:], v.L)
		st.cells[p.name] = &c
		for i := range v.L {
			x.noteCell(st, p.name, off+i)
		}
		return
	}
	v = x.promoteVal(st, v)
	switch p.op {
	case OPField:
		off := int(p.iv.Int64())
		for i, l := range ls {
			k := objKey(p.name, off+i)
			h := x.heapGet(st, k, arrSort(SInt, l.sort))
			x.noteWrite(st, k, p.args[0])
			st.heap[k] = mkStore(h, p.args[0], v.L[i])
		}
	case OPElem:
		off := int(p.iv.Int64())
		for i, l := range ls {
			k := elemKey(p.name, off+i)
			h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, l.sort)))
			x.noteWrite(st, k, p.args[0])
			st.heap[k] = mkStore(h, p.args[0], mkStore(mkSelect(h, p.args[0]), p.args[1], v.L[i]))
		}
	default:
		tk := typeKey(v.T)
		for i, l := range ls {
			k := objKey(tk, i)
			h := x.heapGet(st, k, arrSort(SInt, l.sort))
			x.noteWrite(st, k, p)
			st.heap[k] = mkStore(h, p, v.L[i])
		}
	}
}

// newRef allocates a reference.
func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = mkAdd(st.alloc, tOne)
	x.noteAlloc(st)
	return r
}

// promoteVal moves locals whose address is contained in v to the heap.
func (x *Exec) promoteVal(st *State, v Val) Val {
	need := false
	for _, l := range v.L {
		if l.cells {
			need = true
		}
	}
	if !need {
		return v
	}
	n := Val{v.T, make([]*Term, len(v.L))}
	ls := leavesOf(v.T)
	for i, l := range v.L {
		n.L[i] = x.promote(st, l)
		if l.op == OCell && l.iv.Sign() == 0 && len(ls) == len(v.L) {
			T := ls[i].typ
			if ls[i].part == "val" && i > 0 {
				T = tagToType(v.L[i-1])
			}
			if T != nil {
				if pt, ok := T.Underlying().(*types.Pointer); ok {
					n.L[i] = x.wholeOrFirst(st, l, n.L[i], pt.Elem())
				}
			}
		}
	}
	return n
}

// wholeOrFirst: r is what the pointer p to the start of a local variable resolved to. If p points to the first
// component of the variable and not to the variable itself, it becomes a field pointer.
func (x *Exec) wholeOrFirst(st *State, p, r *Term, T types.Type) *Term {
	if p.op != OCell || p.iv.Sign() != 0 || r.op == OCell || r.op == OPElem || r.op == OPField {
		return r
	}
	c := st.cells[p.name]
	if c == nil || c.arr || c.fwd == nil || typeKey(c.T) == typeKey(T) {
		return r
	}
	return fieldPtr(r, typeKey(c.T), 0)
}

func (x *Exec) promote(st *State, t *Term) *Term {
	if !t.cells {
		return t
	}
	switch t.op {
	case OCell:
		r := x.resolve(st, t)
		if r != t {
			return x.promote(st, r)
		}
		if t.iv.Sign() != 0 {
			return t // stays symbolic; storing it in the heap is rejected by the solver printer
		}
		c := *st.cells[t.name]
		ref := x.newRef(st)
		nc := c
		nc.fwd = ref
		st.cells[t.name] = &nc
		v := x.promoteVal(st, Val{c.T, c.L})
		tk := typeKey(c.T)
		for i, l := range leavesOf(c.T) {
			k := objKey(tk, i)
			h := x.heapGet(st, k, arrSort(SInt, l.sort))
			x.noteWrite(st, k, ref)
			st.heap[k] = mkStore(h, ref, v.L[i])
		}
		x.notePromote(st, t.name)
		return ref
	case OClo, OPField, OPElem:
		return t
	case OVar, OBound, OInt:
		return t
	}
	return rebuild(t, func(a *Term) *Term { return x.promote(st, a) })
}

// promoteArr turns a local array into a heap array (when it is sliced).
func (x *Exec) promoteArr(st *State, id string) *Term {
	c := *st.cells[id]
	if c.fwd != nil {
		if !c.arr {
			panic(unsupported("slice of promoted array"))
		}
		return c.fwd
	}
	at := c.T.Underlying().(*types.Array)
	v := x.promoteVal(st, Val{c.T, c.L})
	ref := x.newRef(st)
	n := nLeaves(at.Elem())
	tk := typeKey(at.Elem())
	for j, l := range leavesOf(at.Elem()) {
		row := mkConstArr(arrSort(SInt, l.sort), zeroLeaf(l))
		for i := 0; i < int(at.Len()); i++ {
			row = mkStore(row, mkInt(int64(i)), v.L[i*n+j])
		}
		k := elemKey(tk, j)
		h := x.heapGet(st, k, arrSort(SInt, arrSort(SInt, l.sort)))
		x.noteWrite(st, k, ref)
		st.heap[k] = mkStore(h, ref, row)
	}
	c.fwd, c.arr = ref, true
	st.cells[id] = &c
	x.notePromote(st, id)
	return ref
}

// valFacts records the type invariants of a value just read or received.
func (x *Exec) valFacts(st *State, v Val) {
	for _, t := range x.typeFacts(v, st.alloc) {
		st.assume(t)
	}
}

// maxLen: no slice has more elements than the address space has bytes.
var maxLen = mkInt(1 << 48)

func (x *Exec) typeFacts(v Val, alloc *Term) []*Term {
	var out []*Term
	ls := leavesOf(v.T)
	for i := 0; i < len(ls); i++ {
		l, t := ls[i], v.L[i]
		if t.cells || t.nbound > 0 {
			continue
		}
		switch l.part {
		case "arr":
			off, ln, cp := v.L[i+1], v.L[i+2], v.L[i+3]
			out = append(out, mkLe(tZero, t), mkLt(t, alloc), mkLe(tZero, off), mkLe(tZero, ln), mkLe(ln, cp), mkLe(cp, maxLen), mkLe(off, maxLen),
				mkImp(mkEq(t, tZero), mkEq(cp, tZero)))
		case "off", "len", "cap", "opaque":
		case "tag":
			out = append(out, mkLe(tZero, t))
			pay := v.L[i+1]
			if it := x.p.soleImpl(l.typ); it != nil {
				tg := typeTag(it)
				out = append(out, mkOr(mkEq(t, tZero), mkEq(t, tg)))
				if directIface(it) && !pay.cells {
					out = append(out, mkLe(tZero, pay), mkLt(pay, alloc), mkImp(mkEq(t, tg), mkLt(tZero, pay)))
				}
			}
		case "val":
		default:
			switch u := l.typ.Underlying().(type) {
			case *types.Pointer, *types.Map:
				out = append(out, mkLe(tZero, t), mkLt(t, alloc))
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					lo, hi := intRange(u)
					if lo != nil && t.op != OInt {
						out = append(out, mkLe(mkBig(lo), t), mkLe(t, mkBig(hi)))
					}
				}
			}
		}
	}
	return out
}

func intRange(b *types.Basic) (*big.Int, *big.Int) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	s := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), big.NewInt(1))
	}
	u := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(p(n), big.NewInt(1)) }
	switch b.Kind() {
	case types.Int, types.Int64:
		return s(64)
	case types.Int32:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
