// SMT-LIB printing and solver processes.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type smtPrinter struct {
	decls    strings.Builder
	defs     strings.Builder
	vars     map[string]bool
	funs     map[string]string
	sorts    map[string]bool
	lits     map[string]bool
	names    map[int]string // closed shared subterm -> defined name
	counts   map[int]int
	strs     bool
	lin      bool // products of unknowns become an uninterpreted function
	comm     bool // and are declared commutative
	nl       bool // such a product was met
	folds    []*Term
	renamed  map[int]renamed
	noPairs  bool // no laws between sums besides that equal values give equal sums
	fewFolds bool // only laws between sums over the same thing in different heaps
}

func newPrinter() *smtPrinter {
	return &smtPrinter{vars: map[string]bool{}, funs: map[string]string{}, sorts: map[string]bool{}, lits: map[string]bool{}, names: map[int]string{}, counts: map[int]int{}, renamed: map[int]renamed{}}
}

func (p *smtPrinter) needSort(s Sort) {
	str := string(s)
	for _, w := range strings.FieldsFunc(str, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		switch w {
		case "Array", "Int", "Bool", "Real", "Float32", "Float64", "_", "BitVec", "64", "32":
			continue
		}
		if !p.sorts[w] {
			p.sorts[w] = true
			fmt.Fprintf(&p.decls, "(declare-sort %s 0)\n", w)
		}
	}
}

func (p *smtPrinter) count(t *Term) {
	p.counts[t.id]++
	if p.counts[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			p.count(a)
		}
	}
	for _, pt := range t.pats {
		for _, a := range pt {
			p.count(a)
		}
	}
}

var builtinFuns = map[string]bool{"tdiv": true, "tmod": true}

func (p *smtPrinter) term(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	switch t.op {
	case OVar:
		n := "|" + t.name + "|"
		if !p.vars[n] {
			p.vars[n] = true
			p.needSort(t.sort)
			fmt.Fprintf(&p.decls, "(declare-const %s %s)\n", n, t.sort)
		}
		p.names[t.id] = n
		return n
	case OLit:
		n := "|lit:" + litName(t.name) + "|"
		if !p.lits[n] {
			p.lits[n] = true
			p.needSort(SStr)
			fmt.Fprintf(&p.decls, "(declare-const %s Str)\n", n)
		}
		return n
	case OConcat:
		p.needSort(SStr)
		if !p.strs {
			p.strs = true
			p.decls.WriteString("(declare-const |seq.empty| Str)\n(declare-fun |seq.cat| (Str Str) Str)\n")
		}
		if len(t.args) == 0 {
			p.lits["|seq.empty|"] = true
		}
	case OFold:
		fb := freeBounds(t)
		n := fmt.Sprintf("|fold#%d|", t.id)
		if p.funs[n] == "" {
			if u, as := p.sameFold(t, fb); u != nil {
				return foldName(u, as, "")
			}
			p.funs[n] = "x"
			p.needSort(t.sort)
			var as []string
			for _, b := range fb {
				p.needSort(b.sort)
				as = append(as, string(b.sort))
			}
			fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.sort)
			p.folds = append(p.folds, t)
		}
		return foldName(t, fb, "")
	case OCell, OClo, OPField, OPElem:
		// opaque
		fb := freeBounds(t)
		n := fmt.Sprintf("|opq#%d|", t.id)
		if p.funs[n] == "" {
			p.funs[n] = "x"
			p.needSort(t.sort)
			var as []string
			for _, b := range fb {
				p.needSort(b.sort)
				as = append(as, string(b.sort))
			}
			fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.sort)
		}
		if len(fb) == 0 {
			return n
		}
		var as []string
		for _, b := range fb {
			as = append(as, "|"+b.name+"|")
		}
		return "(" + n + " " + strings.Join(as, " ") + ")"
	case OApp:
		if !builtinFuns[t.name] {
			var as []string
			for _, a := range t.args {
				p.needSort(a.sort)
				as = append(as, string(a.sort))
			}
			p.needSort(t.sort)
			sig := "(" + strings.Join(as, " ") + ") " + string(t.sort)
			if o, ok := p.funs[t.name]; !ok {
				p.funs[t.name] = sig
				fmt.Fprintf(&p.decls, "(declare-fun |%s| %s)\n", t.name, sig)
				if ls, ok := boxTypes.Load(t.name); ok {
					p.unboxing(t, ls.([]Leaf))
				}
			} else if o != sig {
				panic("function " + t.name + " with two signatures: " + o + " / " + sig)
			}
		}
	case OForall, OExists:
		for _, v := range t.bv {
			p.needSort(v.sort)
		}
	case OConst:
		p.needSort(t.sort)
	}
	var s string
	if p.lin && t.op == OApp && builtinFuns[t.name] && t.args[1].op != OInt {
		n := map[string]string{"tdiv": "nl/", "tmod": "nl%"}[t.name]
		p.nl = true
		if p.funs[n] == "" {
			p.funs[n] = "x"
			fmt.Fprintf(&p.decls, "(declare-fun |%s| (Int Int) Int)\n", n)
			v := "a"
			if n == "nl/" {
				v = "0"
			}
			if p.comm {
				fmt.Fprintf(&p.decls, "(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (and (=> (< a b) (= (|%[1]s| a b) %[2]s)) (<= 0 (|%[1]s| a b) a))) :pattern ((|%[1]s| a b)))))\n", n, v)
				if n == "nl%" {
					p.decls.WriteString("(assert (forall ((a Int) (b Int)) (! (=> (and (<= 0 a) (< 0 b)) (< (|nl%| a b) b)) :pattern ((|nl%| a b)))))\n")
				}
			}
		}
		s = "(|" + n + "| " + p.term(t.args[0]) + " " + p.term(t.args[1]) + ")"
	} else if t.op == OPoly {
		s = polySMT(t, p.term, p.product)
	} else {
		s = smtNode(t, p.term)
	}
	if t.nbound == 0 && p.counts[t.id] > 1 && len(t.args)+len(t.poly) > 0 && len(s) > 20 {
		n := fmt.Sprintf("t%d", t.id)
		p.needSort(t.sort)
		// defs must come after decls of everything inside; both are emitted in order
		fmt.Fprintf(&p.decls, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t.id] = n
		return n
	}
	return s
}

// unboxing: the parts of a boxed value are what was put in.
func (p *smtPrinter) unboxing(t *Term, ls []Leaf) {
	var bs, as []string
	for i, l := range ls {
		bs = append(bs, fmt.Sprintf("(a%d %s)", i, l.sort))
		as = append(as, fmt.Sprintf("a%d", i))
	}
	if len(ls) == 0 || len(ls) != len(t.args) {
		return
	}
	b := "(|" + t.name + "| " + strings.Join(as, " ") + ")"
	for i, l := range ls {
		n := "un" + t.name + l.path
		if _, ok := p.funs[n]; !ok {
			sig := "(Int) " + string(l.sort)
			p.funs[n] = sig
			fmt.Fprintf(&p.decls, "(declare-fun |%s| %s)\n", n, sig)
		}
		fmt.Fprintf(&p.decls, "(assert (forall (%s) (! (= (|%s| %s) a%d) :pattern (%s))))\n", strings.Join(bs, " "), n, b, i, b)
	}
}

// product prints a product of at least two unknowns.
func (p *smtPrinter) product(fs []string) string {
	p.nl = true
	if !p.lin {
		return "(* " + strings.Join(fs, " ") + ")"
	}
	if p.funs["nl*"] == "" {
		p.funs["nl*"] = "x"
		p.decls.WriteString("(declare-fun |nl*| (Int Int) Int)\n")
		if p.comm {
			p.decls.WriteString("(assert (forall ((a Int) (b Int)) (! (= (|nl*| a b) (|nl*| b a)) :pattern ((|nl*| a b)))))\n")
		}
	}
	s := fs[0]
	for _, f := range fs[1:] {
		s = "(|nl*| " + s + " " + f + ")"
	}
	return s
}

func freeBounds(t *Term) []*Term {
	if t.nbound == 0 {
		return nil
	}
	set := map[*Term]bool{}
	var f func(t *Term, b map[*Term]bool)
	f = func(t *Term, b map[*Term]bool) {
		if t.nbound == 0 {
			return
		}
		if t.op == OBound {
			if !b[t] {
				set[t] = true
			}
			return
		}
		nb := b
		if len(t.bv) > 0 {
			nb = map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.bv {
				nb[v] = true
			}
		}
		for _, a := range t.args {
			f(a, nb)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				f(a, nb)
			}
		}
	}
	f(t, map[*Term]bool{})
	var l []*Term
	for v := range set {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

const smtPrelude = `(define-fun |tdiv| ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun |tmod| ((a Int) (b Int)) Int (- a (* b (ite (>= a 0) (div a b) (- (div (- a) b))))))
`

// script builds an SMT-LIB script asserting all of the terms.
func script(asserts []*Term, extra string) string {
	s, _ := script2(asserts, extra, false)
	return s
}

// script2 also tells whether there are products of unknowns; with lin they are uninterpreted (which has more models).
func script2(asserts []*Term, extra string, lin bool) (string, bool) {
	return script3(asserts, extra, lin, false)
}

func script3(asserts []*Term, extra string, lin, fewFolds bool) (string, bool) {
	return script4(asserts, extra, lin, fewFolds, false)
}

func script4(asserts []*Term, extra string, lin, fewFolds, noPairs bool) (string, bool) {
	p := newPrinter()
	p.fewFolds, p.noPairs = fewFolds, noPairs
	memo := map[int]bool{}
	p.lin = lin
	for _, a := range asserts {
		p.comm = p.comm || hasQuant(a, memo)
	}
	for _, a := range asserts {
		p.count(a)
	}
	var body strings.Builder
	for _, a := range asserts {
		s := p.term(a)
		// shared definitions are in decls; keep assertion order
		p.decls.WriteString("(assert " + s + ")\n")
	}
	p.foldLaws()
	for op, o := range map[string]string{"F64.add": "+", "F64.sub": "-"} {
		if p.funs[op] != "" && p.funs["i2F64"] != "" { // sums of whole numbers are exact
			fmt.Fprintf(&body, "(assert (forall ((a Int) (b Int)) (! (= (|%s| (|i2F64| a) (|i2F64| b)) (|i2F64| (%s a b))) :pattern ((|%s| (|i2F64| a) (|i2F64| b))))))\n", op, o, op)
		}
	}
	if len(p.lits) > 1 {
		var ls []string
		for l := range p.lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		body.WriteString("(assert (distinct " + strings.Join(ls, " ") + "))\n")
	}
	return smtPrelude + extra + p.decls.String() + body.String(), p.nl
}

type solverResult struct {
	res    string // unsat, sat, unknown
	solver string
	dur    time.Duration
	model  string
}

var solverSem = make(chan struct{}, 8)

type solverCfg struct {
	name string
	cmd  []string
	pre  string
}

func solvers(to time.Duration) []solverCfg {
	ms := int(to.Milliseconds())
	return []solverCfg{
		{"z3-5", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}, ""},
		{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--nl-ext-tplanes"}, "(set-logic ALL)\n"},
		{"z3-5 (e-matching)", []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "smt.auto_config=false"}, ""},
		{"z3-4.8", []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}, ""},
	}
}

func (c solverCfg) limit(ms int) solverCfg {
	c.cmd = append([]string{}, c.cmd...)
	c.cmd[2] = fmt.Sprintf("-t:%d", ms)
	return c
}

func runSolver(c solverCfg, scr string, to time.Duration, model bool) solverResult {
	return runSolverCtx(context.Background(), c, scr, to, model)
}

func runSolverCtx(ctx context.Context, c solverCfg, scr string, to time.Duration, model bool) solverResult {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	start := time.Now()
	if ctx.Err() != nil {
		return solverResult{res: "unknown", solver: c.name}
	}
	ctx, cancel := context.WithTimeout(ctx, to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.cmd[0], c.cmd[1:]...)
	in := c.pre + scr + "(check-sat)\n"
	if model {
		in += "(get-model)\n"
	}
	cmd.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	r := solverResult{res: "unknown", solver: c.name, dur: time.Since(start)}
	text := out.String()
	line, rest, _ := strings.Cut(text, "\n")
	for strings.HasPrefix(line, "WARNING") {
		line, rest, _ = strings.Cut(rest, "\n")
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		r.res = "unsat"
	case "sat":
		r.res = "sat"
		r.model = rest
	case "unknown", "timeout":
		r.model = rest
	default:
		r.model = text
		if strings.Contains(text, "error") && os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", c.name, text[:min(len(text), 300)])
			os.WriteFile("/tmp/gover_err.smt2", []byte(in), 0o644)
		}
	}
	return r
}

// ground drops quantified assertions.
func hasQuant(t *Term, memo map[int]bool) bool {
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := t.op == OForall || t.op == OExists || t.op == OFold
	if !r {
		for _, a := range t.args {
			if hasQuant(a, memo) {
				r = true
				break
			}
		}
	}
	if !r {
	outer:
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if hasQuant(a, memo) {
					r = true
					break outer
				}
			}
		}
	}
	memo[t.id] = r
	return r
}

// quickProc is a persistent z3 used for path feasibility and simple entailments.
type quickProc struct {
	mu    sync.Mutex
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	n     int
	cache map[string]string
	dur   time.Duration
	total int
}

func (q *quickProc) start() {
	q.cmd = exec.Command("z3-new", "-in", "-t:400", "-memory:2000")
	in, _ := q.cmd.StdinPipe()
	out, _ := q.cmd.StdoutPipe()
	q.cmd.Stderr = nil
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
	q.in, q.out = in, bufio.NewReader(out)
	io.WriteString(q.in, smtPrelude)
	q.n = 0
}
func (q *quickProc) stop() {
	if q.cmd != nil {
		q.in.Close()
		q.cmd.Process.Kill()
		q.cmd.Wait()
		q.cmd = nil
	}
}

// check decides the ground part of the assertions.
func (q *quickProc) check(asserts []*Term) string {
	memo := map[int]bool{}
	var g []*Term
	var k strings.Builder
	seen := map[int]bool{}
	for _, a := range asserts {
		if a == tFalse {
			return "unsat"
		}
		if a == tTrue || seen[a.id] || hasQuant(a, memo) {
			continue
		}
		seen[a.id] = true
		g = append(g, a)
		fmt.Fprintf(&k, "%d,", a.id)
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.cache == nil {
		q.cache = map[string]string{}
	}
	if r, ok := q.cache[k.String()]; ok {
		return r
	}
	st := time.Now()
	defer func() { q.dur += time.Since(st); q.total++ }()
	for try := 0; try < 2; try++ {
		if q.cmd == nil || q.n > 3000 {
			q.stop()
			q.start()
		}
		q.n++
		s, _ := script2(g, "", true)
		s = strings.TrimPrefix(s, smtPrelude)
		if _, err := io.WriteString(q.in, "(push)\n"+s+"(check-sat)\n(pop)\n"); err != nil {
			q.stop()
			continue
		}
		ok := true
		res := ""
		for {
			line, err := q.out.ReadString('\n')
			if err != nil {
				ok = false
				break
			}
			line = strings.TrimSpace(line)
			if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
				res = line
				break
			}
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "quick:", line)
				os.WriteFile("/tmp/gover_quick.smt2", []byte(s), 0o644)
			}
		}
		if !ok {
			q.stop()
			continue
		}
		q.cache[k.String()] = res
		return res
	}
	return "unknown"
}

// ---- obligations ----

type Obligation struct {
	Name   string // stable name: function, kind, label
	Kind   string // post, pre, inv-init, inv-step, frame, nil, bounds, ...
	Fn     string
	Pos    string
	Detail string
	Hyps   []*Term
	Goal   *Term
	Static bool   // decided by simplification alone
	Result string // unsat (discharged), sat, unknown
	Solver string
	Dur    time.Duration
	Model  string
	to     time.Duration
	marks  []*Term // see State
	Alts   []*Term // alternatives: any of them suffices (witness candidates)
}

func (o *Obligation) ok() bool { return o.Result == "unsat" }

// relevant keeps only hypotheses connected to the goal by shared symbols.
func relevant(hyps []*Term, goal *Term) []*Term {
	return hyps
}

// race runs all solvers at once until one result is accepted.
func race(scr string, to time.Duration, use func(solverResult) bool) bool {
	return raceSome(solvers(to), scr, to, use)
}

func raceSome(ss []solverCfg, scr string, to time.Duration, use func(solverResult) bool) bool {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverResult, len(ss))
	for _, s := range ss {
		go func(s solverCfg) { ch <- runSolverCtx(ctx, s, scr, to, true) }(s)
	}
	for range ss {
		if use(<-ch) {
			return true
		}
	}
	return false
}

func (o *Obligation) discharge(to time.Duration) {
	goals := []*Term{o.Goal}
	if len(o.Alts) > 0 {
		goals = o.Alts
	}
	for _, g := range goals {
		if g == tTrue {
			o.Result, o.Solver, o.Static = "unsat", "simplifier", true
			return
		}
	}
	start := time.Now()
	defer func() { o.Dur = time.Since(start) }()
	if o.to > 0 {
		to = o.to
	}
	per := to
	hyps := append([]*Term{}, o.Hyps...)
	for _, h := range o.Hyps {
		hyps = append(hyps, quantVariants(h)...)
	}
	for _, g := range goals {
		as := append(append([]*Term{}, hyps...), mkNot(g))
		for _, h := range o.Hyps {
			if h == tFalse {
				o.Result, o.Solver = "unsat", "simplifier"
				return
			}
		}
		memo := map[int]bool{}
		folds := false
		for _, h := range as {
			folds = folds || hasFold(h, memo)
		}
		if folds && o.dischargeFolds(as, memo, per) {
			return
		}
		lin, nl := script2(as, "", true)
		scr := lin
		if nl {
			if r := runSolver(solvers(0)[0].limit(1500), lin, 1500*time.Millisecond, false); r.res == "unsat" {
				o.Result, o.Solver = "unsat", r.solver
				return
			}
			if len(lin) > 20000 && race(lin, per, func(r solverResult) bool {
				if r.res == "unsat" {
					o.Result, o.Solver = "unsat", r.solver
				}
				return r.res == "unsat"
			}) {
				return
			}
			scr = script(as, "")
		}
		if d := os.Getenv("GOVER_DUMP"); d != "" {
			os.MkdirAll(d, 0o755)
			os.WriteFile(fmt.Sprintf("%s/%s_%p.lin.smt2", d, sanitize(o.Name), o), []byte(lin+"(check-sat)\n"), 0o644)
			os.WriteFile(fmt.Sprintf("%s/%s_%p.smt2", d, sanitize(o.Name), o), []byte(scr+"(check-sat)\n"), 0o644)
		}
		short := solvers(min(per, 3*time.Second))
		r := runSolver(short[0], scr, min(per, 3*time.Second), true)
		if r.res == "unsat" {
			o.Result, o.Solver = "unsat", r.solver
			return
		}
		if r.res == "sat" {
			o.Result, o.Solver, o.Model = "sat", r.solver, r.model
			continue
		}
		// portfolio
		if race(scr, per, func(r solverResult) bool {
			if r.res == "unsat" {
				o.Result, o.Solver = "unsat", r.solver
				return true
			}
			if r.res == "sat" || o.Result == "" {
				o.Result, o.Solver, o.Model = r.res, r.solver, r.model
			}
			return false
		}) {
			return
		}
	}
	if o.Result == "" {
		o.Result = "unknown"
	}
}

var (
	deadline time.Time
	failMu   sync.Mutex
	failures = map[string]int{}
)

// hopeless: enough obligations of the function have failed already.
func (o *Obligation) hopeless() bool {
	failMu.Lock()
	defer failMu.Unlock()
	return failures[o.Fn] >= maxFail || !deadline.IsZero() && time.Now().After(deadline)
}

func dischargeAll(obs []*Obligation, to time.Duration) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, o := range obs {
		if o.Result != "" {
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			if o.hopeless() {
				o.Result, o.Solver = "unknown", "not tried"
				return
			}
			o.discharge(to)
			if !o.ok() {
				failMu.Lock()
				failures[o.Fn]++
				failMu.Unlock()
			}
		}(o)
	}
	wg.Wait()
}

var maxFail = func() int {
	if s := os.Getenv("GOVER_MAXFAIL"); s != "" {
		return len(s) * 10
	}
	return 5
}()
