// The contract language: lexer, parser and file format.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Expr is a specification expression.
type Expr struct {
	k    string // id int str un bin idx slice sel call forall exists seq lambda ite old
	s    string // name / operator / literal
	a    []*Expr
	bv   []string // bound variables
	pats [][]*Expr
	pos  string
	text string
}

type tok struct {
	k, s string
}

func lexSpec(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", "..", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", ".", ",", ":", "?", "=", "|", "{", "}", "&"}
outer:
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated string")
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", s})
			i = j + 1
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9') {
				j++
			}
			if j+1 < len(src) && src[j] == '.' && src[j+1] >= '0' && src[j+1] <= '9' {
				for j++; j < len(src) && src[j] >= '0' && src[j] <= '9'; {
					j++
				}
				out = append(out, tok{"float", src[i:j]})
				i = j
				continue
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
			continue
		}
		if isIdent(c) || c == '$' {
			j := i
			for j < len(src) && (isIdent(src[j]) || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		return nil, fmt.Errorf("unexpected %q", c)
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t   []tok
	i   int
	pos string
}

type parseErr string

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s || p.t[p.i].k == "id" && p.t[p.i].s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(parseErr(fmt.Sprintf("expected %q, found %q", s, p.peek().s)))
	}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8,
}

func parseExpr(src, pos string) (e *Expr, err error) {
	ts, err := lexSpec(src)
	if err != nil {
		return nil, fmt.Errorf("%s: %v in %s", pos, err, src)
	}
	p := &parser{t: ts, pos: pos}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s: %s in %s", pos, string(pe), src)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("%s: trailing %q in %s", pos, p.peek().s, src)
	}
	e.text = src
	return e, nil
}

func (p *parser) mk(k, s string, a ...*Expr) *Expr { return &Expr{k: k, s: s, a: a, pos: p.pos} }

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			break
		}
		if t.s == "?" && min == 0 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(0)
			l = p.mk("ite", "", l, a, b)
			continue
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			break
		}
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr // right associative
		}
		r := p.expr(nm)
		// chained comparisons a <= b < c
		if pr == 5 && l.k == "bin" && binPrec[l.s] == 5 && l.text != "(" {
			l = p.mk("bin", "&&", l, p.mk("bin", t.s, l.a[1], r))
			l.text = "chain"
			continue
		}
		if pr == 5 && l.k == "bin" && l.s == "&&" && l.text == "chain" {
			l = p.mk("bin", "&&", l, p.mk("bin", t.s, l.a[1].a[1], r))
			l.text = "chain"
		} else {
			l = p.mk("bin", t.s, l, r)
		}
	}
	return l
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return p.mk("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mk("un", "-", p.unary())
	}
	if p.accept("*") {
		return p.mk("un", "*", p.unary())
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			n := p.next()
			e = p.mk("sel", n.s, e)
		case p.accept("["):
			var lo *Expr
			if !p.is(":") {
				lo = p.expr(0)
			}
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = p.mk("slice", "", e, lo, hi)
			} else {
				p.expect("]")
				e = p.mk("idx", "", e, lo)
			}
		case p.accept("("):
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = p.mk("call", "", append([]*Expr{e}, as...)...)
		default:
			return e
		}
	}
}

func (p *parser) peekIs(s string) bool { return p.peek().s == s && p.peek().k == "id" }

// binders: i in lo..hi, j in lo..hi | x Type
func (p *parser) binders() (bv []string, rs []*Expr) {
	for {
		n := p.next()
		if p.peekIs("Seq") { // forall k Seq :: ...
			p.next()
			n.s += " Seq"
		}
		bv = append(bv, n.s)
		if p.accept("in") {
			lo := p.expr(6)
			p.expect("..")
			hi := p.expr(6)
			rs = append(rs, lo, hi)
		} else {
			rs = append(rs, nil, nil)
		}
		if !p.accept(",") {
			return
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return p.mk("int", t.s)
	case "float":
		return p.mk("float", t.s)
	case "str":
		return p.mk("str", t.s)
	case "id":
		switch t.s {
		case "forall", "exists", "seq", "sum", "lambda":
			bv, rs := p.binders()
			p.expect("::")
			var pats [][]*Expr
			for p.accept("{") { // explicit trigger
				var ps []*Expr
				for {
					ps = append(ps, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				pats = append(pats, ps)
			}
			b := p.expr(0)
			e := p.mk(t.s, "", append(rs, b)...)
			e.bv = bv
			e.pats = pats
			return e
		case "if":
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return p.mk("ite", "", c, a, b)
		case "let":
			n := p.next()
			p.expect("=")
			v := p.expr(0)
			p.expect("in")
			b := p.expr(0)
			e := p.mk("let", n.s, v, b)
			return e
		}
		return p.mk("id", t.s)
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			c := *e
			c.text = "("
			return &c
		}
		if t.s == "&" {
			return p.mk("un", "&", p.unary())
		}
	}
	panic(parseErr(fmt.Sprintf("unexpected %q", t.s)))
}

// ---- contracts ----

type Clause struct {
	kind  string
	label string
	e     *Expr
	props []string
	es    []*Expr
}

type LoopSpec struct {
	n        int
	invs     []Clause
	decr     *Expr
	ghosts   []ghostSpec
	assumes  []Clause
	hint     []Clause
	framed   bool
	modifies []*Expr
}

type ghostSpec struct {
	name       string
	typ        string
	init, step *Expr
	alts       []*Expr
}

type Contract struct {
	key               string
	file              string
	params            []string
	results           []string
	requires          []Clause
	ensures           []Clause
	modifies          []*Expr
	modSet            bool // modifies clause given
	modAny            bool
	loops             map[int]*LoopSpec
	ghosts            []ghostSpec // ghost results; alts are the witnesses
	overflow          bool
	cutall            bool // loops with a small constant number of iterations are cut as well
	pure              bool
	trusted           bool
	inline            bool // never use at call sites
	props             []string
	events            []event
	logged            bool
	reveal            []string
	track             []string // measures whose value is followed through append
	givens, givenPost []Clause // definitions of ghost functions
	lemmas            []Clause // assert at exit before ensures
	entry             []Clause // asserted at entry
	why               string
	noPanic           bool
	bounded           bool
	timeout           int
	cases             []*Expr
}

type event struct {
	ghost string
	e     *Expr
}

type SpecDef struct {
	name    string
	params  []string
	body    *Expr
	sorts   []string
	ret     string
	axioms  []Clause
	theorem bool // proved for all integers where it is used
}

type specFile struct {
	path string
}

// loadSpecs reads all contract files.
func (p *Prog) loadSpecs(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := p.loadSpec(f); err != nil {
			return err
		}
	}
	return nil
}

// specAxioms returns the defining axioms of a specification function ('reveal name' in a contract).
func (p *Prog) specAxioms(d *SpecDef) []*Term {
	var out []*Term
	x := &Exec{p: p, spec: true, q: &quickProc{}, sh: &shared{base: map[string]*Term{}, trust: map[string]bool{}, inline: map[string]bool{}, used: map[string]bool{}, notes: map[string]bool{}}}
	st := &State{facts: map[int]bool{}, heap: map[string]*Term{}, cells: map[string]*cell{}, clos: map[string]*closure{}, ghost: map[string]*Term{}, calls: map[string][]ghostCall{}}
	for _, a := range d.axioms {
		env := &Env{x: x, st: st, old: st, vars: map[string]Val{}}
		t := env.boolean(a.e)
		if t.op == OForall {
			if f := appWith(t.args[0], "spec:"+d.name, t.bv); f != nil {
				t = mkForall(t.bv, t.args[0], []*Term{f})
			}
		}
		out = append(out, t)
	}
	return out
}

// appWith finds an application of a function which contains all variables.
func appWith(t *Term, name string, vs []*Term) *Term {
	var found *Term
	var f func(t *Term)
	f = func(t *Term) {
		if found != nil {
			return
		}
		if t.op == OApp && t.name == name {
			ok := true
			for _, v := range vs {
				ok = ok && occurs(t, v)
			}
			if ok {
				found = t
				return
			}
		}
		for _, a := range t.args {
			f(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				f(a)
			}
		}
	}
	f(t)
	return found
}

var clauseKeys = map[string]bool{"func": true, "iface": true, "dyn": true, "define": true, "requires": true, "ensures": true, "modifies": true, "loop": true,
	"invariant": true, "decreases": true, "ghost": true, "witness": true, "overflow": true, "cutall": true, "pure": true, "trusted": true, "property": true,
	"step": true, "function": true, "axiom": true, "event": true, "logged": true, "lemma": true, "assert": true, "opaque": true, "timeout": true, "assume": true, "theorem": true, "measure": true, "field": true, "given": true, "givenpost": true, "track": true, "use": true, "reveal": true, "inline": true, "cases": true}

func (p *Prog) loadSpec(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	type line struct {
		n    int
		text string
	}
	var ls []line
	for n, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t:"); i >= 0 {
			w = t[:i]
		}
		if clauseKeys[w] || len(ls) == 0 {
			ls = append(ls, line{n + 1, t})
		} else {
			ls[len(ls)-1].text += " " + t
		}
	}
	var c *Contract
	var lp *LoopSpec
	var def *SpecDef
	_ = def
	for _, l := range ls {
		pos := fmt.Sprintf("%s:%d", filepath.Base(path), l.n)
		kw, rest, _ := strings.Cut(l.text, " ")
		rest = strings.TrimSpace(rest)
		label := ""
		parse := func(s string) (*Expr, error) {
			return parseExpr(s, pos)
		}
		// optional label "name: expr"
		lab := func(s string) string {
			i := strings.Index(s, ":")
			if i > 0 && !strings.HasPrefix(s[i:], "::") {
				ok := true
				for _, ch := range []byte(s[:i]) {
					if !isIdent(ch) && ch != '-' {
						ok = false
					}
				}
				if ok {
					label = s[:i]
					return strings.TrimSpace(s[i+1:])
				}
			}
			return s
		}
		if c == nil && kw != "func" && kw != "iface" && kw != "dyn" && kw != "define" && kw != "function" && kw != "axiom" && kw != "theorem" && kw != "measure" && kw != "field" {
			return fmt.Errorf("%s: clause outside of a contract", pos)
		}
		switch kw {
		case "func", "iface", "dyn":
			c = &Contract{file: pos, loops: map[int]*LoopSpec{}}
			lp = nil
			if kw == "iface" {
				c.key = "iface " + rest
				if i := strings.Index(rest, "("); i > 0 && !strings.HasPrefix(rest, "(") {
					return fmt.Errorf("%s: bad iface", pos)
				}
				c.pure = true
			} else if kw == "dyn" { // dyn func(T) R: f(a) (r)   contract of all function values of a type
				t, h, ok := strings.Cut(rest, ": ")
				if err := parseHeader(c, h); err != nil || !ok {
					return fmt.Errorf("%s: bad dyn", pos)
				}
				c.params = append([]string{c.key}, c.params...)
				c.key = "dyn " + t
			} else if err := parseHeader(c, rest); err != nil {
				return fmt.Errorf("%s: %v", pos, err)
			}
			p.contracts[c.key] = c
			def = nil
		case "field": // field name Sort: ghost field of any object
			n, s, _ := strings.Cut(rest, " ")
			p.fields[n] = strings.TrimSpace(s)
		case "measure": // measure name(x Type) = body: sum over the elements of a slice
			h, b, ok := strings.Cut(rest, " = ")
			n, a, ok2 := strings.Cut(strings.TrimRight(h, ") "), "(")
			v, T, ok3 := strings.Cut(strings.TrimSpace(a), " ")
			if !ok || !ok2 || !ok3 {
				return fmt.Errorf("%s: bad measure", pos)
			}
			e, err := parse(b)
			if err != nil {
				return err
			}
			p.measures[n] = &SpecDef{name: n, params: []string{v}, ret: strings.TrimSpace(T), body: e}
		case "track":
			c.track = append(c.track, strings.Fields(rest)...)
		case "given", "givenpost": // definitions of ghost functions, not checked at calls
			e, err := parse(lab(rest))
			if err != nil {
				return err
			}
			if kw == "given" {
				c.givens = append(c.givens, Clause{kind: kw, label: label, e: e})
			} else {
				c.givenPost = append(c.givenPost, Clause{kind: kw, label: label, e: e})
			}
		case "define", "theorem":
			i := strings.Index(rest, "=")
			for i > 0 && (rest[i+1] == '=' || strings.ContainsAny(rest[i-1:i], "<>!=")) {
				j := strings.Index(rest[i+2:], "=")
				if j < 0 {
					return fmt.Errorf("%s: define without =", pos)
				}
				i += 2 + j
			}
			h := strings.TrimSpace(rest[:i])
			d := &SpecDef{theorem: kw == "theorem"}
			j := strings.Index(h, "(")
			if j < 0 {
				return fmt.Errorf("%s: define without parameters", pos)
			}
			d.name = h[:j]
			for _, s := range strings.Split(strings.Trim(h[j:], "()"), ",") {
				if s = strings.TrimSpace(s); s != "" {
					d.params = append(d.params, s)
				}
			}
			e, err := parse(rest[i+1:])
			if err != nil {
				return err
			}
			d.body = e
			p.defs[d.name] = d
		case "function": // function name(Int, Seq) Bool
			j := strings.Index(rest, "(")
			k := strings.LastIndex(rest, ")")
			if j < 0 || k < j {
				return fmt.Errorf("%s: bad function", pos)
			}
			d := &SpecDef{name: strings.TrimSpace(rest[:j]), ret: strings.TrimSpace(rest[k+1:])}
			for _, s := range strings.Split(rest[j+1:k], ",") {
				if s = strings.TrimSpace(s); s != "" {
					d.sorts = append(d.sorts, s)
				}
			}
			p.defs[d.name] = d
			def = d
			c = nil
		case "axiom":
			e, err := parse(lab(rest))
			if err != nil {
				return err
			}
			if def == nil {
				return fmt.Errorf("%s: axiom without function", pos)
			}
			def.axioms = append(def.axioms, Clause{label: label, e: e})
		case "requires", "ensures", "lemma", "assert", "use":
			e, err := parse(lab(rest))
			if err != nil {
				return err
			}
			if label == "" {
				label = fmt.Sprintf("%s%d", kw, len(c.requires)+len(c.ensures)+len(c.lemmas))
			}
			cl := Clause{kind: kw, label: label, e: e}
			if lp != nil && (kw == "assert" || kw == "use") {
				lp.hint = append(lp.hint, cl)
				continue
			}
			switch kw {
			case "requires":
				c.requires = append(c.requires, cl)
			case "ensures":
				c.ensures = append(c.ensures, cl)
			case "lemma", "use":
				c.lemmas = append(c.lemmas, cl)
			case "assert":
				c.entry = append(c.entry, cl)
			}
		case "modifies":
			if lp != nil { // what an iteration may write, besides what was allocated since the loop was entered
				lp.framed = true
				if rest == "nothing" {
					continue
				}
				for _, s := range splitTop(rest, ',') {
					e, err := parse(s)
					if err != nil {
						return err
					}
					lp.modifies = append(lp.modifies, e)
				}
				continue
			}
			c.modSet = true
			if rest == "nothing" {
				continue
			}
			if rest == "anything" {
				c.modAny = true
				continue
			}
			for _, s := range splitTop(rest, ',') {
				e, err := parse(s)
				if err != nil {
					return err
				}
				c.modifies = append(c.modifies, e)
			}
		case "event": // event [moves] t: what a call adds to a ghost trace, by definition
			g := "trace"
			if strings.HasPrefix(rest, "moves ") {
				g = "moves"
				rest = rest[len("moves "):]
			}
			e, err := parse(rest)
			if err != nil {
				return err
			}
			m, _ := parse(g)
			q, _ := parse(g + " == old(0)")
			q.a[1].a[1] = e
			c.modifies = append(c.modifies, m)
			c.ensures = append(c.ensures, Clause{label: "event", e: q})
			c.events = append(c.events, event{g, e})
		case "loop":
			n, err := strconv.Atoi(strings.Fields(rest)[0])
			if err != nil {
				return fmt.Errorf("%s: %v", pos, err)
			}
			lp = &LoopSpec{n: n}
			c.loops[n] = lp
		case "invariant":
			e, err := parse(lab(rest))
			if err != nil {
				return err
			}
			if lp == nil {
				return fmt.Errorf("%s: invariant outside loop", pos)
			}
			if label == "" {
				label = fmt.Sprintf("inv%d", len(lp.invs))
			}
			lp.invs = append(lp.invs, Clause{label: label, e: e})
		case "decreases":
			e, err := parse(rest)
			if err != nil {
				return err
			}
			if lp == nil {
				return fmt.Errorf("%s: decreases outside loop", pos)
			}
			lp.decr = e
		case "cases":
			e, err := parse(rest)
			if err != nil {
				return err
			}
			c.cases = append(c.cases, e)
		case "ghost": // ghost w (Int)Int [= init]
			g := ghostSpec{}
			nm, r, _ := strings.Cut(rest, " ")
			g.name = nm
			ty, ini, has := strings.Cut(r, "=")
			g.typ = strings.TrimSpace(ty)
			if has {
				e, err := parse(ini)
				if err != nil {
					return err
				}
				g.init = e
			}
			if lp != nil {
				lp.ghosts = append(lp.ghosts, g)
			} else {
				c.ghosts = append(c.ghosts, g)
			}
		case "step": // step w = expr
			nm, ex, ok := strings.Cut(rest, "=")
			if !ok || lp == nil {
				return fmt.Errorf("%s: bad step", pos)
			}
			e, err := parse(ex)
			if err != nil {
				return err
			}
			found := false
			for i := range lp.ghosts {
				if lp.ghosts[i].name == strings.TrimSpace(nm) {
					lp.ghosts[i].step = e
					found = true
				}
			}
			if !found {
				return fmt.Errorf("%s: no ghost %s of this loop", pos, nm)
			}
		case "witness":
			nm, ex, ok := strings.Cut(rest, "=")
			if !ok {
				return fmt.Errorf("%s: bad witness", pos)
			}
			nm = strings.TrimSpace(nm)
			found := false
			for i := range c.ghosts {
				if c.ghosts[i].name == nm {
					found = true
					for _, s := range splitTop(ex, '|') {
						var e *Expr
						for _, s := range strings.Split(s, "??") { // first alternative which can be evaluated
							e2, err := parse(s)
							if err != nil {
								return err
							}
							if e == nil {
								e = e2
							} else {
								e = &Expr{k: "first", a: []*Expr{e, e2}}
							}
						}
						c.ghosts[i].alts = append(c.ghosts[i].alts, e)
					}
				}
			}
			if !found {
				return fmt.Errorf("%s: unknown ghost %s", pos, nm)
			}
		case "overflow":
			c.overflow = true
		case "cutall":
			c.cutall = true
		case "pure":
			c.pure = true
		case "trusted":
			c.trusted = true
			c.why = rest
		case "reveal":
			c.reveal = append(c.reveal, strings.Fields(rest)...)
		case "logged":
			c.logged = true
		case "inline":
			c.inline = true
		case "timeout":
			c.timeout, _ = strconv.Atoi(rest)
		case "property":
			c.props = append(c.props, strings.Fields(rest)...)
		default:
			return fmt.Errorf("%s: unknown clause %s", pos, kw)
		}
	}
	return nil
}

// splitTop splits at sep outside of parentheses; "||" is not a separator.
func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
		if s[i] == sep && d == 0 {
			if sep == '|' && (i+1 < len(s) && s[i+1] == '|' || i > 0 && s[i-1] == '|') {
				continue
			}
			out = append(out, strings.TrimSpace(s[st:i]))
			st = i + 1
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// parseHeader: (data.Path).Bounds(p) (lo, hi)    or  pkg.Func(a, b) r
func parseHeader(c *Contract, s string) error {
	// name ends at the parenthesis which starts the parameter list
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		return fmt.Errorf("bad function header %q", s)
	}
	c.key = strings.TrimSpace(s[:i+j])
	rest := s[i+j+1:]
	k := strings.Index(rest, ")")
	if k < 0 {
		return fmt.Errorf("bad function header %q", s)
	}
	split := func(t string) (out []string) {
		for _, x := range strings.Split(t, ",") {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
		return
	}
	c.params = split(rest[:k])
	c.results = split(strings.Trim(strings.TrimSpace(rest[k+1:]), "()"))
	return nil
}
