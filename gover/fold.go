// Laws of sums and sequences over an index ("sum k in 0..n :: f(k)").
package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func foldName(t *Term, fb []*Term, suffix string) string {
	n := fmt.Sprintf("|fold#%d|", t.id)
	if len(fb) == 0 {
		return n
	}
	var as []string
	for _, b := range fb {
		as = append(as, "|"+b.name+suffix+"|")
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// renamed is a fold which is another one with other names for its free variables.
type renamed struct {
	t  *Term
	as []*Term
}

// sameFold looks for a fold which differs only in the names of its free variables.
func (p *smtPrinter) sameFold(t *Term, fb []*Term) (*Term, []*Term) {
	if len(fb) == 0 || len(fb) > 3 {
		return nil, nil
	}
	if r, ok := p.renamed[t.id]; ok {
		return r.t, r.as
	}
	for _, u := range p.folds {
		if u.sort != t.sort || u.nbound == 0 {
			continue
		}
		fu := freeBounds(u)
		if len(fu) != len(fb) {
			continue
		}
		perm := make([]*Term, len(fb)) // of fu[i]
		used := map[int]bool{}
		var found func(i int) bool
		found = func(i int) bool {
			if i == len(fu) {
				m := map[*Term]*Term{}
				for j, v := range fu {
					m[v] = perm[j]
				}
				return subst(u, m) == t
			}
			for j, v := range fb {
				if used[j] || v.sort != fu[i].sort {
					continue
				}
				used[j], perm[i] = true, v
				if found(i + 1) {
					return true
				}
				used[j] = false
			}
			return false
		}
		if found(0) {
			p.renamed[t.id] = renamed{u, perm}
			return u, perm
		}
	}
	return nil, nil
}

// foldShape takes a fold apart: what is done with the elements, and the values it depends on.
// Folds of the same shape are equal if the values are.
func foldShape(t *Term) (key string, args []*Term) {
	own := map[*Term]bool{t.bv[0]: true}
	idx := map[*Term]*Term{}
	param := func(u *Term) *Term {
		if v, ok := idx[u]; ok {
			return v
		}
		v := mk(&Term{op: OBound, sort: u.sort, name: fmt.Sprintf("$%d", len(args))})
		args = append(args, u)
		idx[u] = v
		return v
	}
	has := func(u *Term) bool {
		if u.nbound == 0 && u.op != OBound {
			return false
		}
		for _, b := range freeBounds(u) {
			if own[b] {
				return true
			}
		}
		return false
	}
	var rec func(u *Term) *Term
	rec = func(u *Term) *Term {
		if !has(u) {
			if isInt(u) || u.op == OLit {
				return u
			}
			return param(u)
		}
		switch {
		case own[u]:
			return u
		case u.op == OPoly:
			r, rest := tZero, tZero
			for _, mo := range u.poly {
				x, in := mkBig(mo.coef), false
				for _, a := range mo.atoms {
					in = in || has(a)
				}
				for _, a := range mo.atoms {
					if in {
						a = rec(a)
					}
					x = mkMul(x, a)
				}
				if in {
					r = mkAdd(r, x)
				} else {
					rest = mkAdd(rest, x)
				}
			}
			return mkAdd(r, param(rest))
		case u.op == OSelect:
			a, i := rec(u.args[0]), u.args[1]
			if own[i] {
				i = mkAdd(i, param(tZero))
			} else {
				i = rec(i)
			}
			return mkSelect(a, i)
		case u.op == OFold:
			own[u.bv[0]] = true
			r := rebuild(u, rec)
			delete(own, u.bv[0])
			return r
		case u.op == OForall || u.op == OExists:
			for _, b := range u.bv {
				own[b] = true
			}
			return rebuild(u, rec)
		}
		return rebuild(u, rec)
	}
	param(t.args[0])
	b := rec(t.args[1])
	return fmt.Sprintf("%d#%s", b.id, t.sort), args
}

const maxFolds = 150

// foldLaws adds what connects the folds of a query:
// nothing summed gives the neutral element; the same elements give the same result;
// one more element adds its value at the end.
func (p *smtPrinter) foldLaws() {
	if len(p.folds) == 0 {
		return
	}
	var out strings.Builder
	// printing the bodies may declare further symbols and folds
	done := 0
	var fs []*Term
	for done < len(p.folds) && done < 4*maxFolds {
		t := p.folds[done]
		done++
		fs = append(fs, t)
		p.count(t.args[0])
		p.count(t.args[1])
		p.term(t.args[0])
		p.term(t.args[1])
	}
	if m := maxFolds; len(fs) > m { // those of the goal come last
		fs = fs[len(fs)-m:]
	}
	if len(fs) <= 8 {
		p.fewFolds = false
	}
	// in the scope of its own free variables, renamed with a suffix
	open := func(t *Term, fb []*Term, suffix, s string) string {
		if len(fb) == 0 {
			return s
		}
		var l []string
		for _, b := range fb {
			l = append(l, fmt.Sprintf("(|%s| |%s%s|)", b.name, b.name, suffix))
		}
		return "(let (" + strings.Join(l, " ") + ") " + s + ")"
	}
	at := func(t *Term, fb []*Term, suffix, idx string) string {
		return fmt.Sprintf("(let ((|%s| %s)) %s)", t.bv[0].name, idx, p.term(t.args[1]))
	}
	quant := func(vs []string, pat, body string) string {
		if len(vs) == 0 {
			return "(assert " + body + ")\n"
		}
		return "(assert (forall (" + strings.Join(vs, " ") + ") (! " + body + " :pattern (" + pat + "))))\n"
	}
	vars := func(fb []*Term, suffix string) (l []string) {
		for _, b := range fb {
			l = append(l, fmt.Sprintf("(|%s%s| %s)", b.name, suffix, b.sort))
		}
		return
	}
	// equal values give equal folds
	shapes := map[string]int{}
	keys := make([]string, len(fs))
	params := make([][]*Term, len(fs))
	for i, a := range fs {
		keys[i], params[i] = foldShape(a)
		shapes[keys[i]]++
		if len(freeBounds(a)) > 0 {
			shapes[keys[i]]++
		}
	}
	for i, a := range fs {
		if shapes[keys[i]] < 2 {
			continue
		}
		fa := freeBounds(a)
		n := "|shape#" + keys[i] + "|"
		var ss, as []string
		for _, u := range params[i] {
			p.needSort(u.sort)
			ss = append(ss, string(u.sort))
			p.count(u)
			as = append(as, p.term(u))
		}
		if p.funs[n] == "" {
			p.funs[n] = "x"
			fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), a.sort)
		}
		A := foldName(a, fa, "!a")
		out.WriteString(quant(vars(fa, "!a"), A, "(= "+A+" "+open(a, fa, "!a", "("+n+" "+strings.Join(as, " ")+")")+")"))
	}
	for i, a := range fs {
		if p.noPairs {
			break
		}
		fa := freeBounds(a)
		zero := "0"
		if a.sort == SStr {
			zero = "|seq.empty|"
			p.term(mkConcat())
			p.lits["|seq.empty|"] = true
		}
		na := open(a, fa, "!a", p.term(a.args[0]))
		A := foldName(a, fa, "!a")
		out.WriteString(quant(vars(fa, "!a"), A, fmt.Sprintf("(=> (<= %s 0) (= %s %s))", na, A, zero)))
		for j, b := range fs {
			if a.sort != b.sort || i == j && len(fa) == 0 || !sameTop(a.args[1], b.args[1]) || p.fewFolds && !alike(a.args[1], b.args[1]) {
				continue
			}
			fb := freeBounds(b)
			nb := open(b, fb, "!b", p.term(b.args[0]))
			B := foldName(b, fb, "!b")
			vs := append(vars(fa, "!a"), vars(fb, "!b")...)
			d := fmt.Sprintf("|d#%d#%d|", a.id, b.id)
			var ss, as []string
			for _, v := range append(append([]*Term{}, fa...), fb...) {
				ss = append(ss, string(v.sort))
			}
			for _, v := range fa {
				as = append(as, "|"+v.name+"!a|")
			}
			for _, v := range fb {
				as = append(as, "|"+v.name+"!b|")
			}
			fmt.Fprintf(&out, "(declare-fun %s (%s) Int)\n", d, strings.Join(ss, " "))
			D := d
			if len(as) > 0 {
				D = "(" + d + " " + strings.Join(as, " ") + ")"
			}
			pat := A + " " + B
			diff := fmt.Sprintf("(and (<= 0 %s) (< %s %s) (not (= %s %s)))", D, D, nb, open(a, fa, "!a", at(a, fa, "!a", D)), open(b, fb, "!b", at(b, fb, "!b", D)))
			dn := mkSub(a.args[0], b.args[0])
			if (i < j || i == j) && (!isInt(dn) || dn == tZero || len(fa)+len(fb) > 0) {
				out.WriteString(quant(vs, pat, fmt.Sprintf("(=> (= %s %s) (or (= %s %s) %s))", na, nb, A, B, diff)))
			}
			if (!isInt(dn) || dn == tOne || len(fa)+len(fb) > 0) && !(p.fewFolds && len(fa)+len(fb) > 0) {
				last := open(a, fa, "!a", at(a, fa, "!a", nb))
				sum := "(+ " + B + " " + last + ")"
				if a.sort == SStr {
					sum = "(|seq.cat| " + B + " " + last + ")"
				}
				out.WriteString(quant(vs, pat, fmt.Sprintf("(=> (and (= %s (+ %s 1)) (<= 0 %s)) (or (= %s %s) %s))", na, nb, nb, A, sum, diff)))
			}
		}
	}
	p.decls.WriteString(out.String())
}

// sameTop: bodies with different outermost functions never agree in practice.
func sameTop(a, b *Term) bool {
	if a.op == OFold && b.op == OFold {
		return sameTop(a.args[1], b.args[1])
	}
	return a.op != OApp || b.op != OApp || a.name == b.name
}

// alike: the bodies may be equal in different heaps, or with something else for a bound variable.
func alike(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	if a.op == OBound || b.op == OBound {
		return true
	}
	if a.sort == SStr || a.op == OFold && b.op == OFold {
		return sameTop(a, b)
	}
	if unknownResult(a) || unknownResult(b) {
		return true
	}
	if strings.HasPrefix(string(a.sort), "(Array") && (a.op != OSelect || b.op != OSelect) {
		return heapBase(a) == heapBase(b)
	}
	if a.op == OIte {
		return alike(a.args[1], b) || alike(a.args[2], b)
	}
	if b.op == OIte {
		return alike(a, b.args[1]) || alike(a, b.args[2])
	}
	if a.poly != nil || b.poly != nil {
		x, y := polyAtoms(a), polyAtoms(b)
		if len(x) != len(y) {
			return len(freeBounds(a)) > 0 || len(freeBounds(b)) > 0
		}
	next:
		for _, u := range x {
			for _, v := range y {
				if alike(u, v) {
					continue next
				}
			}
			return false
		}
		return true
	}
	if a.op != b.op || a.name != b.name || len(a.args) != len(b.args) {
		return false
	}
	if isInt(a) {
		return a.iv.Cmp(b.iv) == 0
	}
	if a.op == OVar {
		return false
	}
	for i := range a.args {
		if !alike(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func polyAtoms(t *Term) []*Term {
	if t.poly == nil {
		return []*Term{t}
	}
	var l []*Term
	for _, m := range t.poly {
		l = append(l, m.atoms...)
	}
	return l
}

// heapBase is the name of a heap, whatever was written.
func heapBase(t *Term) string {
	for {
		switch t.op {
		case OStore, OSelect:
			t = t.args[0]
		case OIte:
			t = t.args[1]
		default:
			n, _, _ := strings.Cut(t.name, "@")
			return n
		}
	}
}

func hasFold(t *Term, memo map[int]bool) bool {
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := t.op == OFold
	for _, a := range t.args {
		r = r || hasFold(a, memo)
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			r = r || hasFold(a, memo)
		}
	}
	memo[t.id] = r
	return r
}

// dischargeFolds tries with fewer hypotheses about sums first; as ends with the negated goal.
func (o *Obligation) dischargeFolds(as []*Term, memo map[int]bool, per time.Duration) bool {
	goal := as[len(as)-1]
	use := func(r solverResult) bool {
		if r.res == "unsat" {
			o.Result, o.Solver = "unsat", r.solver
		}
		return r.res == "unsat"
	}
	pos := map[int]int{}
	for i, h := range as {
		pos[h.id] = i
	}
	var cuts []int // positions of the loop heads
	for _, m := range o.marks {
		if i, ok := pos[m.id]; ok {
			cuts = append(cuts, i)
		}
	}
	// facts about functions which have nothing to do with any sum
	foreign := map[int]bool{}
	if hasFold(goal, memo) {
		known := map[string]bool{}
		for _, h := range as {
			if hasFold(h, memo) {
				specNames(h, known, map[int]bool{})
			}
		}
		for i, h := range as {
			if !hasFold(h, memo) {
				names := map[string]bool{}
				specNames(h, names, map[int]bool{})
				for n := range names {
					foreign[i] = foreign[i] || !known[n]
				}
			}
		}
	}
	whole := false // with everything
	var skip func(i int) bool
	try := func(from int, short, long time.Duration, n int) bool {
		var few []*Term
		for i, h := range as {
			if i < len(as)-1 && foreign[i] && !whole {
				continue
			}
			if i < len(as)-1 && hasFold(h, memo) && (skip != nil && skip(i) || from < 0 || i < from && len(cuts) > 0 && i > cuts[0] && i < len(o.Hyps)) {
				continue
			}
			few = append(few, h)
		}
		scr, _ := script3(few, "", true, true)
		if d := os.Getenv("GOVER_DUMP"); d != "" {
			os.MkdirAll(d, 0o755)
			os.WriteFile(fmt.Sprintf("%s/%s_%p.few%d.smt2", d, sanitize(o.Name), o, n), []byte(scr+"(check-sat)\n"), 0o644)
		}
		if short > 0 && hasFold(goal, memo) {
			// equal values give equal sums, and nothing else
			cong, _ := script4(few, "", true, true, true)
			if d := os.Getenv("GOVER_DUMP"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s_%p.cong%d.smt2", d, sanitize(o.Name), o, n), []byte(cong+"(check-sat)\n"), 0o644)
			}
			if cong != scr && raceSome([]solverCfg{solvers(short / 2)[0], solvers(short / 2)[3]}, cong, short/2, use) {
				return true
			}
		}
		return short > 0 && raceSome([]solverCfg{solvers(short)[0], solvers(short)[3]}, scr, short, use) || long > 0 && race(scr, long, use)
	}
	if !hasFold(goal, memo) {
		return try(-1, 2*time.Second, 0, 0) || try(0, 2*time.Second, 0, 1) || try(-1, 0, per/2, 0) || try(0, 0, per, 1)
	}
	// what is connected with the goal by sums which are alike, one and two steps away
	var closure []map[int]bool
	want := foldsIn([]*Term{goal})
	last := map[int]bool{}
	for all := false; len(closure) < 2 && !all; {
		all = true
		near := map[int]bool{}
		next := want
		for i, h := range as {
			if i == len(as)-1 || last[i] || !hasFold(h, memo) {
				near[i] = last[i]
				continue
			}
			fs := foldsIn([]*Term{h})
			near[i] = anyAlike(fs, want)
			if near[i] {
				next = append(next[:len(next):len(next)], fs...)
			}
			all = all && near[i]
		}
		want, last = next, near
		closure = append(closure, near)
	}
	stages := func(short, long, rest time.Duration) bool {
		for d, near := range closure {
			skip = func(i int) bool { return !near[i] }
			if try(0, short, long, 8+d) {
				return true
			}
		}
		skip = nil
		n := 0
		for k := len(cuts) - 1; k > 0 && n < 3; k-- {
			n++
			if try(cuts[k], short, long, n) {
				return true
			}
		}
		return try(0, short, rest, 0)
	}
	if stages(5*time.Second, 0, 0) || stages(0, per/3, per) {
		return true
	}
	whole = true
	return len(foreign) > 0 && try(0, 0, per, 4)
}

// specNames collects the functions declared in contracts.
func specNames(t *Term, names map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OApp && strings.HasPrefix(t.name, "spec:") {
		names[t.name] = true
	}
	for _, a := range t.args {
		specNames(a, names, seen)
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			specNames(a, names, seen)
		}
	}
}

// foldsIn lists all sums in some terms.
func foldsIn(ts []*Term) (out []*Term) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OFold {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				walk(a)
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

func anyAlike(a, b []*Term) bool {
	for _, f := range a {
		for _, w := range b {
			if f == w || f.sort == w.sort && alike(f.args[1], w.args[1]) {
				return true
			}
		}
	}
	return false
}

// unknownResult: the result of a call, which the contract may equate with something.
func unknownResult(t *Term) bool {
	return t.op == OVar && t.sort == SInt && strings.HasPrefix(t.name, "ret")
}
