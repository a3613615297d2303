// Verification of one function against its contract.
package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// FnResult is the outcome for one contract.
type FnResult struct {
	Key     string
	File    string
	Status  string // verified, failed, structural, trusted
	Msg     string
	Obs     []*Obligation
	Inlined []string
	Used    []string
	Trusted []string
	Notes   []string
	Paths   int
	Gen     time.Duration
	con     *Contract
	pcs     [][]*Term
	quick   time.Duration
	quickN  int
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// generate explores all paths of the function and records the obligations.
func (p *Prog) generate(c *Contract, unroll int) (res *FnResult) {
	res = &FnResult{Key: c.key, File: c.file, con: c}
	start := time.Now()
	defer func() { res.Gen = time.Since(start) }()
	if c.trusted {
		res.Status, res.Msg = "trusted", c.why
		return
	}
	fn := p.fns[c.key]
	if fn == nil {
		res.Status, res.Msg = "structural", "the function "+c.key+" does not exist"
		return
	}
	if fn.Blocks == nil {
		res.Status, res.Msg = "structural", "the function "+c.key+" has no body"
		return
	}
	if len(c.params) != len(fn.Params) {
		res.Status, res.Msg = "structural", fmt.Sprintf("%s has %d parameters, its contract %d", c.key, len(fn.Params), len(c.params))
		return
	}
	if n := fn.Signature.Results().Len(); n != len(c.results) {
		res.Status, res.Msg = "structural", fmt.Sprintf("%s has %d results, its contract %d", c.key, n, len(c.results))
		return
	}
	sh := &shared{base: map[string]*Term{}, trust: map[string]bool{}, inline: map[string]bool{}, used: map[string]bool{}, notes: map[string]bool{}, unroll: unroll}
	var obs []*Obligation
	x := &Exec{p: p, q: &quickProc{}, sh: sh, top: fn, con: c, obs: &obs, unrolled: map[string]int{}}
	defer func() {
		x.q.stop()
		res.quick, res.quickN = x.q.dur, x.q.total
		res.Obs = obs
		res.Inlined, res.Used, res.Trusted, res.Notes = keysOf(sh.inline), keysOf(sh.used), keysOf(sh.trust), keysOf(sh.notes)
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupportedErr:
				res.Status, res.Msg = "structural", e.Error()
			case specErr:
				res.Status, res.Msg = "structural", "contract: "+e.msg
			case promoteInLoop:
				res.Status, res.Msg = "structural", "unsupported: a local escapes inside a loop"
			default:
				if os.Getenv("GOVER_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, r, string(debug.Stack()))
				}
				res.Status, res.Msg = "structural", fmt.Sprintf("internal error: %v", r)
			}
		}
	}()
	// loops
	x.loopSpec = map[string]*LoopSpec{}
	if unroll == 0 {
		ls := p.orderedLoops(fn, c.cutall, "", 0, map[*ssa.Function]bool{})
		for n, l := range ls {
			if s := c.loops[n]; s != nil {
				x.loopSpec[fmt.Sprintf("%s|%p", l.path, l.l)] = s
			}
		}
		for n := range c.loops {
			if n >= len(ls) {
				res.Status, res.Msg = "structural", fmt.Sprintf("%s has %d loops, its contract describes loop %d", c.key, len(ls), n)
				return
			}
		}
	}
	st := &State{facts: map[int]bool{}, heap: map[string]*Term{}, cells: map[string]*cell{}, clos: map[string]*closure{}, ghost: map[string]*Term{}, calls: map[string][]ghostCall{}}
	st.alloc = freshVar("alloc0", SInt)
	sh.alloc0 = st.alloc
	st.assume(mkLe(tOne, st.alloc))
	var args []Val
	env := &Env{x: x, st: st, vars: map[string]Val{}}
	for i, pr := range fn.Params {
		v := freshVal(c.params[i], pr.Type())
		args = append(args, v)
		env.vars[c.params[i]] = v
		x.valFacts(st, v)
	}
	env.old = st
	for _, n := range c.reveal {
		if d := x.p.defs[n]; d != nil {
			x.reveals = append(x.reveals, reveal{"spec:" + n, x.p.specAxioms(d)})
		}
	}
	for _, r := range c.requires {
		st.assume(env.boolean(r.e))
	}
	for _, r := range c.givens {
		sh.notes["definition: "+r.label+": "+r.e.text] = true
		st.assume(env.boolean(r.e))
	}
	x.entry = st.clone()
	env.old = x.entry
	x.env = env
	x.modsAny = c.modAny
	for _, m := range c.modifies {
		x.ensureTargets(st, env, m)
		x.mods = append(x.mods, env.modTargets(m)...)
	}
	for _, a := range c.entry {
		x.oblige(st, "assert", a.label, fn.Pos(), env.boolean(a.e))
	}
	st.frames = []*Frame{x.newFrame(fn, args, nil, nil, "")}
	x.onReturn = func(s *State, rets []Val) {
		res.Paths++
		if len(res.pcs) < 40 {
			res.pcs = append(res.pcs, s.pc)
		}
		x.atExit(s, c, rets, fn)
	}
	starts := []*State{st}
	for _, cs := range c.cases { // case split at entry
		var n []*State
		for _, s := range starts {
			e2 := *env
			e2.st = s
			b := e2.boolean(cs)
			o := s.clone()
			s.assume(b)
			o.assume(mkNot(b))
			if x.feasible(s) {
				n = append(n, s)
			}
			if x.feasible(o) {
				n = append(n, o)
			}
		}
		starts = n
	}
	for _, s := range starts {
		x.runAll(s)
	}
	if res.Paths == 0 && unroll == 0 {
		hasPost := len(c.ensures) > 0
		if hasPost {
			res.Status, res.Msg = "structural", "no path of "+c.key+" returns"
		}
	}
	return
}

// lemma proves an intermediate statement or instantiates a theorem.
func (x *Exec) lemma(st *State, env *Env, l Clause, pos token.Pos) {
	if l.kind != "use" {
		x.oblige(st, "lemma", l.label, pos, env.boolean(l.e))
		return
	}
	cond := tTrue
	if l.e.k == "bin" && l.e.s == "==>" { // use cond ==> theorem(args)
		cond = env.boolean(l.e.a[0])
		if cond == tFalse {
			return
		}
		l.e = l.e.a[1]
	}
	var d *SpecDef
	if l.e.k == "call" && l.e.a[0].k == "id" {
		d = x.p.defs[l.e.a[0].s]
	}
	if d == nil || !d.theorem {
		env.fail(l.e, "use of something which is no theorem")
	}
	if x.disc == nil && !x.spec {
		key := "theorem " + d.name
		if x.sh.notes == nil {
			x.sh.notes = map[string]bool{}
		}
		x.sh.mu.Lock()
		done := x.sh.theorems[key]
		if x.sh.theorems == nil {
			x.sh.theorems = map[string]bool{}
		}
		x.sh.theorems[key] = true
		x.sh.mu.Unlock()
		if !done {
			e2 := *env
			e2.vars = map[string]Val{}
			e2.locals = nil
			for _, n := range d.params {
				e2.vars[n] = iv(freshVar(n, SInt))
			}
			s2 := st.clone()
			s2.pc = nil
			s2.facts = map[int]bool{}
			e2.st = s2
			x.oblige(s2, "theorem", d.name, pos, e2.boolean(d.body))
		}
	}
	st.assume(mkImp(cond, env.boolean(l.e)))
}

// atExit checks the postconditions.
func (x *Exec) atExit(st *State, c *Contract, rets []Val, fn *ssa.Function) {
	env := &Env{x: x, st: st, old: x.entry, vars: map[string]Val{}}
	for k, v := range x.env.vars {
		env.vars[k] = v
	}
	for _, ev := range c.events { // the call is the event: the body must not have added anything itself
		k := ghostKeys[ev.ghost]
		h := x.heapGet(st, k, arrSort(SInt, SStr))
		b := x.heapGet(x.entry, k, arrSort(SInt, SStr))
		x.oblige(st, "event", ev.ghost+" unchanged by the body", fn.Pos(), mkEq(mkSelect(h, traceRef), mkSelect(b, traceRef)))
		old := *env
		old.st = x.entry
		st.heap[k] = mkStore(h, traceRef, old.eval(ev.e).L[0])
	}
	for i, n := range c.results {
		rets[i].T = fn.Signature.Results().At(i).Type()
		env.vars[n] = rets[i]
	}
	if len(rets) == 1 {
		env.vars["result"] = rets[0]
	}
	for _, d := range st.done {
		for k, v := range d.ghosts {
			env.vars[k] = v
		}
		if d.spec != nil {
			env.vars[fmt.Sprintf("iter%d", d.spec.n)] = iv(d.iter)
		}
	}
	for _, d := range st.loops {
		for k, v := range d.ghosts {
			env.vars[k] = v
		}
		if d.spec != nil {
			env.vars[fmt.Sprintf("iter%d", d.spec.n)] = iv(d.iter)
		}
	}
	f := st.top()
	env.locals = func(name string) (Val, bool) {
		return x.localIn(st, f, f.names, name)
	}
	for _, r := range c.givenPost {
		x.sh.mu.Lock()
		x.sh.notes["definition: "+r.label+": "+r.e.text] = true
		x.sh.mu.Unlock()
		st.assume(env.boolean(r.e))
	}
	if c.pure && st.alloc != x.entry.alloc {
		for _, r := range rets {
			for _, l := range leavesOf(r.T) {
				if l.part == "arr" || l.part == "" && l.sort == SInt && isRefType(l.typ) {
					x.oblige(st, "pure", "no-allocation", fn.Pos(), mkEq(st.alloc, x.entry.alloc))
				}
			}
		}
	}
	var late []Clause
	for _, l := range c.lemmas {
		g := false
		for _, gh := range c.ghosts {
			g = g || mentions(l.e, gh.name)
		}
		if g {
			late = append(late, l)
			continue
		}
		x.lemma(st, env, l, fn.Pos())
	}
	if len(c.ghosts) == 0 {
		for _, en := range c.ensures {
			x.ensureObligation(st, env, en, fn)
		}
		return
	}
	var plain, gh []Clause
	for _, en := range c.ensures {
		m := false
		for _, g := range c.ghosts {
			if mentions(en.e, g.name) {
				m = true
			}
		}
		if m {
			gh = append(gh, en)
		} else {
			plain = append(plain, en)
		}
	}
	for _, en := range plain {
		x.ensureObligation(st, env, en, fn)
	}
	n := 1
	for _, g := range c.ghosts {
		if len(g.alts) > n {
			n = len(g.alts)
		}
	}
	var envs []*Env
	var lastErr specErr
	for i := 0; i < n; i++ {
		e := func() (e *Env) {
			defer func() {
				if r := recover(); r != nil {
					if se, ok := r.(specErr); ok && n > 1 {
						lastErr = se
						e = nil
						return
					}
					panic(r)
				}
			}()
			cur := env
			for _, g := range c.ghosts {
				if len(g.alts) == 0 {
					panic(specErr{"ghost " + g.name + " without witness"})
				}
				a := g.alts[min(i, len(g.alts)-1)]
				v := cur.eval(a)
				_, t := specSort(g.typ)
				v.T = t
				cur = cur.with(g.name, v)
			}
			return cur
		}()
		if e != nil {
			envs = append(envs, e)
		}
	}
	if len(envs) == 0 {
		panic(lastErr)
	}
	if len(envs) == 1 {
		for _, l := range late {
			x.lemma(st, envs[0], l, fn.Pos())
		}
		for _, en := range gh {
			x.ensureObligation(st, envs[0], en, fn)
		}
		return
	}
	var goals []*Term
	var names []string
	for _, e := range envs {
		var cs []*Term
		for _, en := range gh {
			cs = append(cs, e.boolean(en.e))
		}
		goals = append(goals, mkAnd(cs...))
	}
	for _, en := range gh {
		names = append(names, en.label)
	}
	x.obligeAlts(st, "post", strings.Join(names, "+"), fn.Pos(), goals)
}

func (x *Exec) ensureObligation(st *State, env *Env, en Clause, fn *ssa.Function) {
	if en.e.k == "bin" && en.e.s == "==" {
		// sequences are compared structurally first
		x.oblige(st, "post", en.label, fn.Pos(), env.boolean(en.e))
		return
	}
	x.oblige(st, "post", en.label, fn.Pos(), env.boolean(en.e))
}

func mentions(e *Expr, name string) bool {
	if e == nil {
		return false
	}
	if e.k == "id" && e.s == name {
		return true
	}
	for _, a := range e.a {
		if mentions(a, name) {
			return true
		}
	}
	return false
}

// verify generates and discharges the obligations of the contracts.
func (p *Prog) verify(cs []*Contract, to time.Duration, unroll int) []*FnResult {
	out := make([]*FnResult, len(cs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i, c := range cs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, c *Contract) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = p.generate(c, unroll)
		}(i, c)
	}
	wg.Wait()
	var all []*Obligation
	for _, r := range out {
		t := to
		if r.con.timeout > 0 {
			t = time.Duration(r.con.timeout) * time.Second
		}
		for _, o := range r.Obs {
			o.to = t
		}
		all = append(all, r.Obs...)
	}
	dischargeAll(all, to)
	for _, r := range out {
		if r.Status != "" {
			continue
		}
		r.Status = "verified"
		for _, o := range r.Obs {
			if !o.ok() {
				r.Status = "failed"
			}
		}
	}
	// a proof from contradictory assumptions proves nothing
	for _, r := range out {
		if r.Status != "verified" || len(r.pcs) == 0 || unroll > 0 {
			continue
		}
		wg.Add(1)
		go func(r *FnResult) {
			defer wg.Done()
			n := 0
			for _, pc := range r.pcs {
				if n >= 6 {
					return
				}
				n++
				cfg := solvers(1500 * time.Millisecond)[0]
				if s := runSolver(cfg, script(pc, ""), 1500*time.Millisecond, false); s.res != "unsat" {
					return
				}
			}
			r.Status, r.Msg = "failed", "the assumptions of every path are contradictory"
			r.Obs = append(r.Obs, &Obligation{Name: r.Key + "/vacuity", Kind: "vacuity", Fn: r.Key, Result: "sat"})
		}(r)
	}
	wg.Wait()
	return out
}
