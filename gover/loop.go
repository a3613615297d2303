// Loops: invariants, automatic write sets, frames.
package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leafKind struct {
	kind int // 0 const, 1 linear, 2 havoc
	c    *big.Int
}

// writeSet of a loop: what an iteration may change.
type writeSet struct {
	phis  map[*ssa.Phi][]leafKind
	cells map[string][]leafKind // locals written, by id (existing at loop entry)
	keys  map[string]*keyWrite
	ghost map[string]bool
	calls map[string]bool
	alloc bool
	cands map[string]bool // rejected automatic invariants
}

type keyWrite struct {
	full  bool
	fresh bool
	refs  map[*Term]bool
}

type discovery struct {
	ctx    *loopCtx
	alloc  *Term // allocation counter at loop entry
	serial int
	ws     *writeSet
	grew   bool
	parent *discovery
	ncell  map[string]bool // cells existing at entry
}

type loopCtx struct {
	l      *Loop
	depth  int
	id     string
	spec   *LoopSpec
	iter   *Term
	entry  *State // before the loop
	head   *State // at the head of the current iteration
	names  map[string]ssa.Value
	ghosts map[string]Val // loop ghosts: current values
	decr   *Term
	ws     *writeSet
	cands  []cand
	mods   []modTarget // targets of the loop frame
}

type cand struct {
	id string
	f  func(st *State, phi func(*ssa.Phi) Val) *Term
}

func (x *Exec) loopID(f *Frame, l *Loop) string {
	return fmt.Sprintf("%s|%p", f.path, l)
}

func cloneWS(w *writeSet) *writeSet {
	n := &writeSet{phis: map[*ssa.Phi][]leafKind{}, cells: map[string][]leafKind{}, keys: map[string]*keyWrite{}, ghost: map[string]bool{}, calls: map[string]bool{}, alloc: w.alloc, cands: map[string]bool{}}
	for k, v := range w.phis {
		n.phis[k] = append([]leafKind{}, v...)
	}
	for k, v := range w.cells {
		n.cells[k] = append([]leafKind{}, v...)
	}
	for k, v := range w.keys {
		r := &keyWrite{v.full, v.fresh, map[*Term]bool{}}
		for t := range v.refs {
			r.refs[t] = true
		}
		n.keys[k] = r
	}
	for k := range w.ghost {
		n.ghost[k] = true
	}
	for k := range w.calls {
		n.calls[k] = true
	}
	for k := range w.cands {
		n.cands[k] = true
	}
	return n
}

// enterLoop is called on the first arrival at a loop head (from outside).
func (x *Exec) enterLoop(st *State, f *Frame, l *Loop, from *ssa.BasicBlock) {
	// phi values on entry
	f.prev, f.block, f.idx = from, l.header, 0
	x.doPhis(st, f)
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p.Comment != "" {
			f.setName(p.Comment, p)
		}
	}
	c := &loopCtx{l: l, depth: len(st.frames), id: x.loopID(f, l), spec: x.loopSpec[x.loopID(f, l)], names: map[string]ssa.Value{}}
	for k, v := range f.names {
		c.names[k] = v
	}
	entry := st.clone()
	c.entry = entry
	c.ghosts = map[string]Val{}
	if c.spec != nil {
		env := x.loopEnv(st, c, tZero)
		for _, g := range c.spec.ghosts {
			s, t := specSort(g.typ)
			var v Val
			if g.init != nil {
				v = env.eval(g.init)
				v.T = t
			} else {
				v = Val{t, []*Term{freshVar(g.name, s)}}
			}
			c.ghosts[g.name] = v
		}
		env = x.loopEnv(st, c, tZero)
		for _, m := range c.spec.modifies {
			c.mods = append(c.mods, env.modTargets(m)...)
		}
		for _, iv := range c.spec.invs {
			x.oblige(st, "inv-init", fmt.Sprintf("loop%d/%s", c.spec.n, iv.label), loopPos(l), env.boolean(iv.e))
		}
	}
	var ws *writeSet
	for try := 0; ; try++ {
		esc := x.tryDiscover(st, c, &ws)
		if esc == "" {
			break
		}
		if try > 10 {
			panic(unsupported("locals escape in a loop"))
		}
		if at, ok := st.cells[esc].T.Underlying().(*types.Array); ok && at != nil {
			x.promoteArr(st, esc)
		} else {
			x.promote(st, cellPtr(esc, 0))
		}
		c.entry = st.clone()
	}
	c.ws = ws
	x.havocLoop(st, c, ws)
	st.loops = append(st.loops[:len(st.loops):len(st.loops)], c)
}

func (f *Frame) setName(n string, v ssa.Value) {
	m := make(map[string]ssa.Value, len(f.names)+1)
	for k, w := range f.names {
		m[k] = w
	}
	m[n] = v
	f.names = m
}

// tryDiscover reports a local which has to be moved to the heap before the loop.
func (x *Exec) tryDiscover(st *State, c *loopCtx, ws **writeSet) (esc string) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(promoteInLoop); ok && p.d.ctx.id == c.id && p.d.parent == x.disc {
				esc = p.id
				return
			}
			panic(r)
		}
	}()
	*ws = x.discover(st, c)
	return ""
}

// discover computes the write set by running the body until nothing new is written.
func (x *Exec) discover(st *State, c *loopCtx) *writeSet {
	ws := &writeSet{phis: map[*ssa.Phi][]leafKind{}, cells: map[string][]leafKind{}, keys: map[string]*keyWrite{}, ghost: map[string]bool{}, calls: map[string]bool{}, cands: map[string]bool{}}
	f := st.top()
	for _, in := range c.l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ws.phis[p] = make([]leafKind, nLeaves(p.Type()))
		}
	}
	_ = f
	for round := 0; ; round++ {
		if round > 40 {
			panic(unsupported("loop write set does not converge"))
		}
		d := &discovery{ctx: nil, alloc: st.alloc, serial: curSerial(), ws: ws, parent: x.disc, ncell: map[string]bool{}}
		for id := range st.cells {
			d.ncell[id] = true
		}
		s := st.clone()
		cc := *c
		dc := &cc
		d.ctx = dc
		dc.ws = ws
		y := *x
		y.disc = d
		y.work = nil
		x.havocLoop(s, dc, ws)
		s.loops = append(s.loops[:len(s.loops):len(s.loops)], dc)
		dc.head = s.clone()
		y.runAll(s)
		if !d.grew {
			// propagate to the enclosing discovery: writes were noted there as well
			break
		}
	}
	return ws
}

// havocLoop replaces st (at loop entry) by an arbitrary state at the loop head.
func (x *Exec) havocLoop(st *State, c *loopCtx, ws *writeSet) {
	f := st.top()
	iter := freshVar("iter", SInt)
	c.iter = iter
	entry := c.entry
	st.assume(mkLe(tZero, iter))
	st.marks = append(st.marks, mkLe(tZero, iter))
	if ws.alloc {
		a := freshVar("alloc", SInt)
		st.assume(mkLe(entry.alloc, a))
		st.alloc = a
	}
	lin := func(name string, ls []leafKind, old []*Term, T types.Type) []*Term {
		out := append([]*Term{}, old...)
		leaves := leavesOf(T)
		for i, k := range ls {
			switch k.kind {
			case 1:
				out[i] = mkAdd(old[i], mkMul(mkBig(k.c), iter))
			case 2:
				out[i] = freshVar(name+leaves[i].path, old[i].sort)
			}
		}
		return out
	}
	// memory
	keys := sortedKeys(ws.keys)
	for _, k := range keys {
		kw := ws.keys[k]
		h, ok := entry.heap[k]
		if !ok {
			h, ok = st.heap[k]
			if !ok {
				x.sh.mu.Lock()
				h = x.sh.base[k]
				x.sh.mu.Unlock()
				if h == nil {
					continue
				}
			}
		}
		if kw.full {
			nh := freshVar(k+"@hl", h.sort)
			st.heap[k] = nh
			x.wellFormed(st, k, nh, st.alloc)
			// every write has a frame obligation, so what the contract (the loop frame) does not name is as it was on entry
			if x.con != nil && !x.modsAny && x.entry != nil {
				x.framed(st, k, nh, x.entry, x.mods)
			}
			for _, lc := range append(append([]*loopCtx{}, st.loops...), c) {
				if lc.spec != nil && lc.spec.framed {
					x.framed(st, k, nh, lc.entry, lc.mods)
				}
			}
			continue
		}
		_, r := arrElem(h.sort)
		base := h
		if kw.fresh {
			nh := freshVar(k+"@hf", h.sort)
			b := boundVar("r", SInt)
			st.assume(mkForall([]*Term{b}, mkImp(mkLt(b, entry.alloc), mkEq(mkSelect(nh, b), mkSelect(h, b))), []*Term{mkSelect(nh, b)}))
			base = nh
			x.wellFormed(st, k, nh, st.alloc)
		}
		var refs []*Term
		for t := range kw.refs {
			refs = append(refs, t)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, t := range refs {
			hx := freshVar(k+"@hx", r)
			x.wellFormedRow(st, k, hx, st.alloc)
			base = mkStore(base, t, hx)
		}
		st.heap[k] = base
	}
	for _, id := range sortedKeys(ws.cells) {
		o := entry.cells[id]
		n := *o
		n.L = lin("cell", ws.cells[id], o.L, o.T)
		st.cells[id] = &n
		x.valFacts(st, Val{n.T, n.L})
	}
	for k := range ws.ghost {
		if t, ok := st.ghost[k]; ok {
			st.ghost[k] = freshVar("gh", t.sort)
		}
	}
	for k := range ws.calls {
		// calls in a loop cannot be indexed afterwards
		st.calls[k] = nil
	}
	for _, in := range c.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		old := entry.top().regs[p]
		v := Val{p.Type(), lin(p.Comment, ws.phis[p], old.L, p.Type())}
		f.regs[p] = v
		x.valFacts(st, v)
	}
	// sound by construction: the loop condition held for the previous iteration
	if t := x.prevCond(st, c, ws); t != nil {
		st.assume(mkOr(mkLe(iter, tZero), t))
	}
	// automatic invariants
	c.cands = nil
	for _, cd := range x.autoCands(c, ws) {
		if !ws.cands[cd.id] {
			c.cands = append(c.cands, cd)
			st.assume(cd.f(st, func(p *ssa.Phi) Val { return f.regs[p] }))
		}
	}
	// user invariants
	if c.spec != nil {
		g := map[string]Val{}
		for _, gs := range c.spec.ghosts {
			s, t := specSort(gs.typ)
			if gs.step == nil {
				g[gs.name] = c.ghosts[gs.name]
				continue
			}
			g[gs.name] = Val{t, []*Term{freshVar(gs.name, s)}}
		}
		c.ghosts = g
		env := x.loopEnv(st, c, iter)
		for _, iv := range c.spec.invs {
			st.assume(env.boolean(iv.e))
		}
		if c.spec.decr != nil {
			c.decr = env.term(c.spec.decr)
		}
	}
	c.head = st.clone()
}

// prevCond evaluates the condition in the loop head for the previous iteration.
// framed assumes that h agrees with the entry state for all old objects which are no targets.
func (x *Exec) framed(st *State, k string, h *Term, entry *State, mods []modTarget) {
	old, ok := entry.heap[k]
	if !ok {
		x.sh.mu.Lock()
		old = x.sh.base[k]
		x.sh.mu.Unlock()
	}
	if old == nil {
		return
	}
	b := boundVar("r", SInt)
	in := []*Term{mkLt(b, entry.alloc)}
	for _, m := range mods {
		if m.key == k {
			if m.ref == nil {
				return
			}
			in = append(in, mkNot(mkEq(b, m.ref)))
		}
	}
	st.assume(mkForall([]*Term{b}, mkImp(mkAnd(in...), mkEq(mkSelect(h, b), mkSelect(old, b))), []*Term{mkSelect(h, b)}))
}

func (x *Exec) prevCond(st *State, c *loopCtx, ws *writeSet) *Term {
	h := c.l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	stay := c.l.blocks[h.Succs[0]]
	if stay == c.l.blocks[h.Succs[1]] {
		return nil
	}
	f := st.top()
	regs := map[ssa.Value]Val{}
	pm := mkSub(c.iter, tOne)
	for _, in := range h.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
			ok := true
			v := Val{i.Type(), nil}
			old := c.entry.top().regs[i]
			for j, k := range ws.phis[i] {
				switch k.kind {
				case 0:
					v.L = append(v.L, old.L[j])
				case 1:
					v.L = append(v.L, mkAdd(old.L[j], mkMul(mkBig(k.c), pm)))
				default:
					ok = false
				}
			}
			if ok {
				regs[i] = v
			}
		case *ssa.DebugRef:
		case *ssa.BinOp:
			get := func(v ssa.Value) (Val, bool) {
				if k, ok := v.(*ssa.Const); ok {
					return constTerm(k), true
				}
				if r, ok := regs[v]; ok {
					return r, true
				}
				if vi, ok := v.(ssa.Instruction); ok && c.l.blocks[vi.Block()] {
					return Val{}, false
				}
				r, ok := f.regs[v]
				return r, ok
			}
			a, ok1 := get(i.X)
			b, ok2 := get(i.Y)
			if ok1 && ok2 && len(a.L) == 1 && len(b.L) == 1 && a.L[0].sort == SInt && i.Op != token.QUO && i.Op != token.REM {
				y := *x
				y.spec = true
				a.T, b.T = i.X.Type(), i.Y.Type()
				regs[i] = y.binop(st, i.Op, a, b, i.Type(), token.NoPos)
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := i.Call.Args[0]
				var v Val
				var ok bool
				if v, ok = regs[a]; !ok {
					if vi, isI := a.(ssa.Instruction); isI && c.l.blocks[vi.Block()] {
						continue
					}
					v, ok = f.regs[a]
				}
				if ok && len(v.L) == 4 {
					regs[i] = Val{i.Type(), []*Term{v.L[2]}}
				}
			}
		}
	}
	v, ok := regs[iff.Cond]
	if !ok {
		return nil
	}
	if stay {
		return v.L[0]
	}
	return mkNot(v.L[0])
}

// autoCands proposes invariants about memory references held in loop variables.
func (x *Exec) autoCands(c *loopCtx, ws *writeSet) []cand {
	var out []cand
	add := func(id string, f func(st *State, phi func(*ssa.Phi) Val) *Term) { out = append(out, cand{id, f}) }
	gen := func(name string, T types.Type, ks []leafKind, old []*Term, get func(st *State, phi func(*ssa.Phi) Val) []*Term) {
		ls := leavesOf(T)
		for i := range ls {
			i := i
			if ks[i].kind != 2 {
				continue
			}
			switch {
			case ls[i].part == "arr", ls[i].sort == SInt && ls[i].part == "" && isRefType(ls[i].typ):
				add(fmt.Sprintf("%s.%d.fresh", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					t := get(st, phi)[i]
					if t.cells || old[i].cells {
						return tTrue
					}
					return mkOr(mkEq(t, old[i]), mkLe(c.entry.alloc, t))
				})
			case ls[i].part == "tag":
				add(fmt.Sprintf("%s.%d.tag", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					return mkEq(get(st, phi)[i], old[i])
				})
				add(fmt.Sprintf("%s.%d.nonnil", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					return mkOr(mkEq(old[i], tZero), mkNot(mkEq(get(st, phi)[i], tZero)))
				})
			case ls[i].part == "len":
				add(fmt.Sprintf("%s.%d.grow", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					return mkLe(old[i], get(st, phi)[i])
				})
				add(fmt.Sprintf("%s.%d.iter", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					return mkEq(get(st, phi)[i], mkAdd(old[i], c.iter))
				})
			case ls[i].sort == SInt && ls[i].part == "":
				add(fmt.Sprintf("%s.%d.ge", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					return mkLe(old[i], get(st, phi)[i])
				})
				add(fmt.Sprintf("%s.%d.le", name, i), func(st *State, phi func(*ssa.Phi) Val) *Term {
					return mkLe(get(st, phi)[i], old[i])
				})
			}
		}
	}
	for _, in := range c.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		gen("phi:"+p.Name(), p.Type(), ws.phis[p], c.entry.top().regs[p].L, func(st *State, phi func(*ssa.Phi) Val) []*Term { return phi(p).L })
	}
	for _, id := range sortedKeys(ws.cells) {
		id := id
		o := c.entry.cells[id]
		gen("cell:"+id, o.T, ws.cells[id], o.L, func(st *State, phi func(*ssa.Phi) Val) []*Term { return st.cells[id].L })
	}
	return out
}

// closeIteration handles a back edge.
func (x *Exec) closeIteration(st *State, c *loopCtx, from *ssa.BasicBlock) {
	f := st.top()
	edge := map[*ssa.Phi]Val{}
	for _, in := range c.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, pr := range p.Block().Preds {
			if pr == from {
				v := x.val(st, p.Edges[i])
				v.T = p.Type()
				edge[p] = v
			}
		}
	}
	phi := func(p *ssa.Phi) Val { return edge[p] }
	if d := x.disc; d != nil && d.ctx == c {
		ws := d.ws
		classify := func(ks []leafKind, cur, nw, entry []*Term) {
			for i := range ks {
				k := &ks[i]
				if k.kind == 2 || cur[i] == nw[i] && k.kind == 0 {
					continue
				}
				if cur[i].sort == SInt && !cur[i].cells && !nw[i].cells && entry[i] != nil {
					df := mkSub(nw[i], cur[i])
					if isInt(df) {
						if k.kind == 0 {
							k.kind, k.c = 1, df.iv
							d.grew = true
							continue
						}
						if k.c.Cmp(df.iv) == 0 {
							continue
						}
					}
				}
				k.kind = 2
				d.grew = true
			}
		}
		for p, ks := range ws.phis {
			classify(ks, c.head.top().regs[p].L, edge[p].L, c.entry.top().regs[p].L)
		}
		for id, ks := range ws.cells {
			if st.cells[id].fwd != nil && c.head.cells[id].fwd == nil {
				panic(unsupported("a local escapes inside a loop: " + id))
			}
			classify(ks, c.head.cells[id].L, st.cells[id].L, c.entry.cells[id].L)
		}
		for _, cd := range c.cands {
			if ws.cands[cd.id] {
				continue
			}
			goal := x.candGoal(cd, st, phi, c)
			if !x.entails(st, goal) {
				ws.cands[cd.id] = true
				d.grew = true
			}
		}
		return
	}
	if c.spec == nil {
		return
	}
	old := f.regs
	nr := make(map[ssa.Value]Val, len(old))
	for k, v := range old {
		nr[k] = v
	}
	for p, v := range edge {
		nr[p] = v
	}
	it := mkAdd(c.iter, tOne)
	// ghost steps are evaluated with the new values of the loop variables,
	// prev() refers to the head of the iteration
	penv := x.loopEnvAt(c.head, c, c.iter, c.head)
	f.regs = nr
	n := *c
	n.ghosts = c.ghosts
	env := x.loopEnv(st, &n, it)
	env.prev = penv
	ng := map[string]Val{}
	for _, g := range c.spec.ghosts {
		if g.step == nil {
			ng[g.name] = c.ghosts[g.name]
			continue
		}
		v := env.eval(g.step)
		_, t := specSort(g.typ)
		v.T = t
		ng[g.name] = v
	}
	n.ghosts = ng
	env2 := x.loopEnv(st, &n, it)
	env2.prev = penv
	for _, l := range c.spec.hint {
		x.lemma(st, env2, l, loopPos(c.l))
	}
	for _, iv := range c.spec.invs {
		for _, g := range stepGoals(env2, iv.e, c) {
			x.oblige(st, "inv-step", fmt.Sprintf("loop%d/%s", c.spec.n, iv.label), loopPos(c.l), g)
		}
	}
	if c.decr != nil {
		nd := env2.term(c.spec.decr)
		x.oblige(st, "decreases", fmt.Sprintf("loop%d", c.spec.n), loopPos(c.l), mkAnd(mkLe(tZero, c.decr), mkLt(nd, c.decr)))
	}
	f.regs = old
}

// stepGoals evaluates an invariant after an iteration. What it states for all k in lo..iter
// is proved separately for the iterations before and for this one.
func stepGoals(e *Env, q *Expr, c *loopCtx) []*Term {
	if q.k == "bin" && q.s == "&&" {
		return append(stepGoals(e, q.a[0], c), stepGoals(e, q.a[1], c)...)
	}
	n := fmt.Sprintf("iter%d", c.spec.n)
	if q.k != "forall" {
		return []*Term{e.boolean(q)}
	}
	var at []int // variables which go up to this iteration
	for i, b := range q.bv {
		h := q.a[2*i+1]
		if q.a[2*i] != nil && h.k == "id" && (h.s == "iter" || h.s == n) && !strings.HasSuffix(b, " Seq") {
			at = append(at, i)
		}
	}
	if len(at) == 0 || len(at) > 2 {
		return []*Term{e.boolean(q)}
	}
	var out []*Term
	for m := 0; m < 1<<len(at); m++ {
		r := *q
		r.bv, r.a = nil, nil
		env := e.with("@last", iv(c.iter))
		cond := tTrue
		for i, b := range q.bv {
			lo, hi := q.a[2*i], q.a[2*i+1]
			for j, k := range at {
				if k == i && m>>j&1 == 1 {
					cond = mkAnd(cond, mkLe(env.term(lo), c.iter))
					env = env.with(b, iv(c.iter))
					lo = nil
					hi = &Expr{}
				} else if k == i {
					hi = &Expr{k: "id", s: "@last"}
				}
			}
			if lo == nil && hi != nil && hi.k == "" {
				continue
			}
			r.bv = append(r.bv, b)
			r.a = append(r.a, lo, hi)
		}
		body := q.a[len(q.a)-1]
		r.a = append(r.a, body)
		var g *Term
		if len(r.bv) == 0 {
			g = env.boolean(body)
		} else {
			g = env.boolean(&r)
		}
		out = append(out, mkImp(cond, g))
	}
	return out
}

// candGoal evaluates a candidate for the next iteration.
func (x *Exec) candGoal(cd cand, st *State, phi func(*ssa.Phi) Val, c *loopCtx) *Term {
	if strings.HasSuffix(cd.id, ".iter") {
		save := c.iter
		c.iter = mkAdd(save, tOne)
		g := cd.f(st, phi)
		c.iter = save
		return g
	}
	return cd.f(st, phi)
}

func (x *Exec) loopEnv(st *State, c *loopCtx, iter *Term) *Env {
	return x.loopEnvAt(st, c, iter, st)
}

func (x *Exec) loopEnvAt(st *State, c *loopCtx, iter *Term, fr *State) *Env {
	env := &Env{x: x, st: st, old: x.entry, vars: map[string]Val{}}
	if x.env != nil {
		for k, v := range x.env.vars {
			env.vars[k] = v
		}
	}
	for _, lc := range st.done { // ghosts of finished loops
		for k, v := range lc.ghosts {
			env.vars[k] = v
		}
	}
	for _, lc := range st.loops { // ghosts of enclosing loops
		for k, v := range lc.ghosts {
			env.vars[k] = v
		}
		if lc.spec != nil {
			env.vars[fmt.Sprintf("iter%d", lc.spec.n)] = iv(lc.iter)
			env.vars[fmt.Sprintf("@alloc%d", lc.spec.n)] = iv(lc.entry.alloc)
		}
	}
	for k, v := range c.ghosts {
		env.vars[k] = v
	}
	env.vars["@alloc"] = iv(c.entry.alloc)
	if c.spec != nil {
		env.vars[fmt.Sprintf("@alloc%d", c.spec.n)] = iv(c.entry.alloc)
	}
	env.vars["iter"] = iv(iter)
	if c.spec != nil {
		env.vars[fmt.Sprintf("iter%d", c.spec.n)] = iv(iter)
	}
	frames := fr.frames
	depth := c.depth
	env.locals = func(name string) (Val, bool) {
		if strings.HasPrefix(name, "pre_") { // value before the loop
			return x.localIn(c.entry, c.entry.frames[depth-1], c.names, name[4:])
		}
		for i := depth - 1; i >= 0; i-- {
			f := frames[i]
			names := f.names
			if i == depth-1 {
				names = c.names
			}
			if v, ok := x.localIn(fr, f, names, name); ok {
				return v, true
			}
		}
		return Val{}, false
	}
	return env
}

// localIn resolves a source variable name in a frame.
func (x *Exec) localIn(st *State, f *Frame, names map[string]ssa.Value, name string) (Val, bool) {
	v, ok := names[name]
	if !ok {
		return Val{}, false
	}
	r, ok := f.regs[v]
	if !ok {
		switch v.(type) {
		case *ssa.Const, *ssa.Function:
			return x.val(st, v), true
		}
		return Val{}, false
	}
	if f.addrs[name] { // variable lives in memory
		y := *x
		y.spec = true
		return y.load(st, r.L[0], derefType(v.Type())), true
	}
	return r, true
}

// ---- write notes ----

func (x *Exec) noteWrite(st *State, key string, ref *Term) {
	if x.spec {
		return
	}
	for d := x.disc; d != nil; d = d.parent {
		kw := d.ws.keys[key]
		if kw == nil {
			kw = &keyWrite{refs: map[*Term]bool{}}
			d.ws.keys[key] = kw
			d.grew = true
		}
		if kw.full || kw.refs[ref] {
			continue
		}
		if ref.serial <= d.serial && !strings.HasPrefix(ref.name, "alloc!") && !refFresh(ref, d.alloc) && ref.op != OIte {
			kw.refs[ref] = true
			d.grew = true
			continue
		}
		if refFresh(ref, d.alloc) || x.entails(st, mkOr(append([]*Term{mkLe(d.alloc, ref)}, x.noop...)...)) {
			if !kw.fresh {
				kw.fresh = true
				d.grew = true
			}
			continue
		}
		var alts []*Term
		alts = append(alts, mkLe(d.alloc, ref))
		for t := range kw.refs {
			alts = append(alts, mkEq(t, ref))
		}
		if ref.op == OIte {
			for _, a := range ref.args[1:] {
				if a.serial <= d.serial {
					alts = append(alts, mkEq(a, ref))
				}
			}
		}
		if len(alts) > 1 && x.entails(st, mkOr(alts...)) {
			if ref.op == OIte {
				for _, a := range ref.args[1:] {
					if a.serial <= d.serial && !refFresh(a, d.alloc) && !kw.refs[a] {
						kw.refs[a] = true
						d.grew = true
					}
				}
			}
			if !kw.fresh {
				kw.fresh = true
				d.grew = true
			}
			continue
		}
		kw.full = true
		d.grew = true
	}
	if x.disc == nil {
		x.frameCheck(st, key, ref)
	}
}

// refFresh: ref is syntactically alloc + k, k >= 0
func refFresh(ref, alloc *Term) bool {
	d := mkSub(ref, alloc)
	return isInt(d) && d.iv.Sign() >= 0
}

func (x *Exec) noteWriteAll(st *State, key string) {
	if x.spec {
		return
	}
	for d := x.disc; d != nil; d = d.parent {
		kw := d.ws.keys[key]
		if kw == nil {
			kw = &keyWrite{refs: map[*Term]bool{}}
			d.ws.keys[key] = kw
		}
		if !kw.full {
			kw.full = true
			d.grew = true
		}
	}
	if x.disc != nil {
		return
	}
	all := func(what string, mods []modTarget) {
		for _, m := range mods {
			if m.key == key && m.ref == nil {
				return
			}
		}
		x.oblige(st, "frame", what+"writes "+key, token.NoPos, tFalse)
	}
	if x.con != nil && !x.modsAny {
		all("", x.mods)
	}
	for _, lc := range st.loops {
		if lc.spec != nil && lc.spec.framed {
			all(fmt.Sprintf("loop%d ", lc.spec.n), lc.mods)
		}
	}
}

func (x *Exec) frameCheck(st *State, key string, ref *Term) {
	if x.con != nil && !x.modsAny && x.entry != nil {
		x.frameCheckIn(st, key, ref, "", x.entry.alloc, x.mods)
	}
	for _, lc := range st.loops {
		if lc.spec != nil && lc.spec.framed {
			x.frameCheckIn(st, key, ref, fmt.Sprintf("loop%d ", lc.spec.n), lc.entry.alloc, lc.mods)
		}
	}
}

func (x *Exec) frameCheckIn(st *State, key string, ref *Term, what string, alloc *Term, mods []modTarget) {
	if refFresh(ref, alloc) {
		return
	}
	alts := append([]*Term{mkLe(alloc, ref)}, x.noop...)
	if strings.HasPrefix(key, "S:") { // a slice without array has no elements
		alts = append(alts, mkEq(ref, tZero))
	}
	for _, m := range mods {
		if m.key != key {
			continue
		}
		if m.ref == nil || m.ref == ref {
			return
		}
		alts = append(alts, mkEq(m.ref, ref))
	}
	g := mkOr(alts...)
	if x.entails(st, g) {
		return
	}
	x.oblige(st, "frame", what+"writes "+key, token.NoPos, g)
}

func (x *Exec) noteCell(st *State, id string, leaf int) {
	if x.spec {
		return
	}
	for d := x.disc; d != nil; d = d.parent {
		if !d.ncell[id] {
			continue
		}
		if d.ws.cells[id] == nil {
			d.ws.cells[id] = make([]leafKind, len(st.cells[id].L))
			d.grew = true
		}
	}
}

func (x *Exec) notePromote(st *State, id string) {
	if x.spec {
		return
	}
	for d := x.disc; d != nil; d = d.parent {
		if d.ncell[id] {
			panic(promoteInLoop{id, d})
		}
	}
}

type promoteInLoop struct {
	id string
	d  *discovery
}

func (x *Exec) noteAlloc(st *State) {
	if x.spec {
		return
	}
	for d := x.disc; d != nil; d = d.parent {
		if !d.ws.alloc {
			d.ws.alloc = true
			d.grew = true
		}
	}
}

func (x *Exec) noteCallLog(st *State, key string) {
	if x.spec {
		return
	}
	for d := x.disc; d != nil; d = d.parent {
		if !d.ws.calls[key] {
			d.ws.calls[key] = true
			d.grew = true
		}
	}
}
