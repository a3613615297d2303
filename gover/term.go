// Terms: hash-consed first-order terms with a polynomial normal form for
// mathematical integers and a flattened normal form for sequences.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sort is an SMT sort name.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str" // texts and event traces: a free monoid
	SF32  Sort = "F32"
	SF64  Sort = "F64"
)

func arrSort(a, b Sort) Sort { return Sort("(Array " + string(a) + " " + string(b) + ")") }

// arrElem returns domain and range of an array sort.
func arrElem(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[len("(Array ") : len(str)-1]
	depth := 0
	for i, c := range body {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad sort " + str)
}

type Op uint8

const (
	OVar Op = iota
	OBound
	OInt
	OTrue
	OFalse
	OLit    // string literal
	OPoly   // sum of coef*monomial
	OApp    // function application (interpreted or not), by name
	OIte    // any sort
	ONot    //
	OAnd    //
	OOr     //
	OEq     //
	OLe     // args[0] <= 0  (args[0] an integer polynomial)
	OSelect //
	OStore  //
	OConst  // constant array
	OForall // bv, args[0]
	OExists
	OConcat // sequence concatenation
	OFold   // sequence: bv[0] in 0..args[0] :: args[1]
	OCell   // pointer to an executor cell (name=id, iv=leaf offset)
	OClo    // closure
	OPField // pointer to a part of a heap object  args[0]=ref, name=type key, iv=offset
	OPElem  // pointer to (a part of) a slice element args[0]=arr args[1]=idx
)

type mono struct {
	coef  *big.Int
	atoms []*Term // sorted by id
}

type Term struct {
	id     int
	op     Op
	sort   Sort
	name   string
	iv     *big.Int
	args   []*Term
	bv     []*Term
	poly   []mono
	pats   [][]*Term // triggers of quantifiers
	serial int       // newest variable inside
	nbound int       // 1 if a bound variable occurs free
	cells  bool      // contains executor pointers
	size   int
}

type termTable struct {
	mu     sync.Mutex
	m      map[string]*Term
	serial int
	n      int
}

var tt = &termTable{m: map[string]*Term{}}

func key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", t.op, t.sort, t.name)
	if t.iv != nil {
		b.WriteByte('#')
		b.WriteString(t.iv.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	if len(t.bv) > 0 {
		b.WriteByte(';')
		for _, a := range t.bv {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	for _, m := range t.poly {
		fmt.Fprintf(&b, "+%s", m.coef.String())
		for _, a := range m.atoms {
			fmt.Fprintf(&b, "*%d", a.id)
		}
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.n++
	t.id = tt.n
	t.size = 1
	upd := func(a *Term) {
		if a.serial > t.serial {
			t.serial = a.serial
		}
		if a.nbound > 0 {
			t.nbound = 1
		}
		if a.cells {
			t.cells = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	for _, a := range t.args {
		upd(a)
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			upd(a)
		}
	}
	switch t.op {
	case OBound:
		t.nbound = 1
	case OCell, OClo, OPField, OPElem:
		t.cells = true
	case OForall, OExists, OFold:
		if t.nbound > 0 && !freeBound(t, map[*Term]bool{}, map[int]bool{}) {
			t.nbound = 0
		}
	}
	tt.m[k] = t
	return t
}

// freeBound: does a bound variable occur free in t?
func freeBound(t *Term, bound map[*Term]bool, seen map[int]bool) bool {
	if t.nbound == 0 && t.id != 0 {
		return false
	}
	if t.op == OBound {
		return !bound[t]
	}
	var add []*Term
	for _, b := range t.bv {
		if !bound[b] {
			bound[b] = true
			add = append(add, b)
		}
	}
	r := false
	for _, a := range t.args {
		if freeBound(a, bound, seen) {
			r = true
			break
		}
	}
	if !r {
	outer:
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if freeBound(a, bound, seen) {
					r = true
					break outer
				}
			}
		}
	}
	for _, b := range add {
		delete(bound, b)
	}
	return r
}

func freshVar(name string, s Sort) *Term {
	tt.mu.Lock()
	tt.serial++
	n := tt.serial
	tt.mu.Unlock()
	return mk(&Term{op: OVar, sort: s, name: sanitize(name) + "!" + fmt.Sprint(n), serial: n})
}

func boundVar(name string, s Sort) *Term {
	tt.mu.Lock()
	tt.serial++
	n := tt.serial
	tt.mu.Unlock()
	return mk(&Term{op: OBound, sort: s, name: sanitize(name) + "?" + fmt.Sprint(n)})
}

func curSerial() int {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.serial
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$', c == '@':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

var (
	tTrue  = mk(&Term{op: OTrue, sort: SBool})
	tFalse = mk(&Term{op: OFalse, sort: SBool})
	tZero  = mkInt(0)
	tOne   = mkInt(1)
)

func mkInt(i int64) *Term    { return mkBig(big.NewInt(i)) }
func mkBig(i *big.Int) *Term { return mk(&Term{op: OInt, sort: SInt, iv: new(big.Int).Set(i)}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkLit(s string) *Term {
	if s == "" {
		return mkConcat()
	}
	return mk(&Term{op: OLit, sort: SStr, name: s})
}
func mkApp(name string, s Sort, args ...*Term) *Term {
	return mk(&Term{op: OApp, sort: s, name: name, args: args})
}

// ---- integers ----

func polyOf(t *Term) []mono {
	switch t.op {
	case OPoly:
		return t.poly
	case OInt:
		if t.iv.Sign() == 0 {
			return nil
		}
		return []mono{{t.iv, nil}}
	}
	return []mono{{big.NewInt(1), []*Term{t}}}
}

func monoKey(a []*Term) string {
	var b strings.Builder
	for _, x := range a {
		fmt.Fprintf(&b, "%d,", x.id)
	}
	return b.String()
}

func fromMonos(ms map[string]mono) *Term {
	var l []mono
	for _, m := range ms {
		if m.coef.Sign() != 0 {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		return tZero
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i].atoms, l[j].atoms
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for k := range a {
			if a[k].id != b[k].id {
				return a[k].id < b[k].id
			}
		}
		return false
	})
	if len(l) == 1 {
		if len(l[0].atoms) == 0 {
			return mkBig(l[0].coef)
		}
		if len(l[0].atoms) == 1 && l[0].coef.IsInt64() && l[0].coef.Int64() == 1 {
			return l[0].atoms[0]
		}
	}
	return mk(&Term{op: OPoly, sort: SInt, poly: l})
}

func addTo(ms map[string]mono, p []mono, k *big.Int) {
	for _, m := range p {
		ky := monoKey(m.atoms)
		c := new(big.Int).Mul(m.coef, k)
		if o, ok := ms[ky]; ok {
			ms[ky] = mono{c.Add(c, o.coef), m.atoms}
		} else {
			ms[ky] = mono{c, m.atoms}
		}
	}
}

func mkAdd(ts ...*Term) *Term {
	ms := map[string]mono{}
	for _, t := range ts {
		addTo(ms, polyOf(t), big.NewInt(1))
	}
	return fromMonos(ms)
}
func mkSub(a, b *Term) *Term {
	ms := map[string]mono{}
	addTo(ms, polyOf(a), big.NewInt(1))
	addTo(ms, polyOf(b), big.NewInt(-1))
	return fromMonos(ms)
}
func mkNeg(a *Term) *Term { return mkSub(tZero, a) }
func mkMul(a, b *Term) *Term {
	pa, pb := polyOf(a), polyOf(b)
	ms := map[string]mono{}
	for _, x := range pa {
		for _, y := range pb {
			at := append(append([]*Term{}, x.atoms...), y.atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			addTo(ms, []mono{{new(big.Int).Mul(x.coef, y.coef), at}}, big.NewInt(1))
		}
	}
	return fromMonos(ms)
}
func isInt(t *Term) bool { return t.op == OInt }

// truncated division and remainder (Go semantics); mathematical integers
func mkTDiv(a, b *Term) *Term {
	if isInt(b) && b.iv.Sign() != 0 {
		if isInt(a) {
			return mkBig(new(big.Int).Quo(a.iv, b.iv))
		}
		if b.iv.IsInt64() && b.iv.Int64() == 1 {
			return a
		}
	}
	return mkApp("tdiv", SInt, a, b)
}
func mkTMod(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.iv.Sign() != 0 {
		return mkBig(new(big.Int).Rem(a.iv, b.iv))
	}
	return mkApp("tmod", SInt, a, b)
}

func mkLe(a, b *Term) *Term { // a <= b
	d := mkSub(a, b)
	if isInt(d) {
		return mkBool(d.iv.Sign() <= 0)
	}
	// divide by gcd of coefficients (integers: tighten the constant)
	ps := polyOf(d)
	g := new(big.Int)
	var c *big.Int
	for _, m := range ps {
		if len(m.atoms) == 0 {
			c = m.coef
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
	}
	if g.Sign() > 0 && !(g.IsInt64() && g.Int64() == 1) {
		ms := map[string]mono{}
		for _, m := range ps {
			if len(m.atoms) == 0 {
				continue
			}
			addTo(ms, []mono{{new(big.Int).Quo(m.coef, g), m.atoms}}, big.NewInt(1))
		}
		if c != nil { // ceil(c/g)
			q, r := new(big.Int).QuoRem(c, g, new(big.Int))
			if r.Sign() > 0 {
				q.Add(q, big.NewInt(1))
			}
			addTo(ms, []mono{{q, nil}}, big.NewInt(1))
		}
		d = fromMonos(ms)
	}
	return mk(&Term{op: OLe, sort: SBool, args: []*Term{d}})
}
func mkLt(a, b *Term) *Term { return mkLe(mkAdd(a, tOne), b) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

// ---- booleans ----

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	case OLe: // not (p <= 0)  ==  1-p <= 0
		return mkLe(mkSub(tOne, a.args[0]), tZero)
	}
	return mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func mkAnd(ts ...*Term) *Term { return mkAO(OAnd, ts) }
func mkOr(ts ...*Term) *Term  { return mkAO(OOr, ts) }
func mkAO(op Op, ts []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OOr {
		unit, zero = tFalse, tTrue
	}
	seen := map[int]bool{}
	var l []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t.id] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(t).id] {
			return false
		}
		seen[t.id] = true
		l = append(l, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(l) == 0 {
		return unit
	}
	if len(l) == 1 {
		return l[0]
	}
	return mk(&Term{op: op, sort: SBool, args: l})
}
func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SInt:
		if a.op == OCell || b.op == OCell || a.op == OPElem || b.op == OPElem || a.op == OPField || b.op == OPField || a.op == OClo || b.op == OClo {
			if isInt(a) || isInt(b) {
				return tFalse // an address is never nil
			}
			if (a.cells && a.op != OPoly) && (b.cells && b.op != OPoly) && a.op == b.op && a.op == OCell {
				return tFalse
			}
			return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
		}
		d := mkSub(a, b)
		if isInt(d) {
			return mkBool(d.iv.Sign() == 0)
		}
		// canonical sign; gcd check
		ps := polyOf(d)
		g := new(big.Int)
		var c *big.Int
		for _, m := range ps {
			if len(m.atoms) == 0 {
				c = m.coef
				continue
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
		}
		if c != nil && g.Sign() > 0 && new(big.Int).Rem(c, g).Sign() != 0 {
			return tFalse
		}
		lead := ps[len(ps)-1]
		if lead.coef.Sign() < 0 {
			d = mkNeg(d)
		}
		return mk(&Term{op: OEq, sort: SBool, args: []*Term{d, tZero}})
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	case SStr:
		if r, ok := strEqStatic(a, b); ok {
			return mkBool(r)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func strEqStatic(a, b *Term) (bool, bool) {
	al, bl := litOf(a), litOf(b)
	if al != nil && bl != nil {
		return *al == *bl, true
	}
	return false, false
}

// litOf returns the text of a literal sequence term.
func litOf(t *Term) *string {
	if t.op == OLit {
		s := t.name
		return &s
	}
	if t.op == OConcat && len(t.args) == 0 {
		s := ""
		return &s
	}
	return nil
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	return mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// ---- arrays ----

func definitelyDistinct(a, b *Term) bool {
	if a.sort == SInt {
		if a.cells || b.cells {
			return false
		}
		d := mkSub(a, b)
		return isInt(d) && d.iv.Sign() != 0
	}
	if a.sort == SStr {
		if r, ok := strEqStatic(a, b); ok {
			return !r
		}
	}
	return false
}

func mkSelect(a, i *Term) *Term {
	for {
		switch a.op {
		case OStore:
			if a.args[1] == i {
				return a.args[2]
			}
			if definitelyDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case OConst:
			return a.args[0]
		case OIte:
			if a.size < 4000 {
				return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
			}
		}
		break
	}
	_, r := arrElem(a.sort)
	return mk(&Term{op: OSelect, sort: r, args: []*Term{a, i}})
}

func mkStore(a, i, v *Term) *Term {
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == OSelect || a.op == OVar {
		if v.op == OSelect && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	_, r := arrElem(a.sort)
	if r != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	return mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

func mkConstArr(s Sort, v *Term) *Term {
	return mk(&Term{op: OConst, sort: s, args: []*Term{v}})
}

// ---- quantifiers ----

func mkForall(bv []*Term, body *Term, pats ...[]*Term) *Term { return mkQ(OForall, bv, body, pats) }
func mkExists(bv []*Term, body *Term) *Term                  { return mkQ(OExists, bv, body, nil) }
func mkQ(op Op, bv []*Term, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var used []*Term
	for _, v := range bv {
		if occurs(body, v) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	name := ""
	for _, p := range pats {
		name += "{"
		for _, t := range p {
			name += fmt.Sprintf("%d,", t.id)
		}
		name += "}"
	}
	return mk(&Term{op: op, sort: SBool, bv: used, args: []*Term{body}, pats: pats, name: name})
}

func occurs(t, v *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if v.op == OBound && t.nbound == 0 {
			return false
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, a := range m.atoms {
				if f(a) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}

// ---- sequences ----

func mkConcat(ts ...*Term) *Term {
	var l []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == OConcat {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == OLit && len(l) > 0 && l[len(l)-1].op == OLit {
			l[len(l)-1] = mk(&Term{op: OLit, sort: SStr, name: l[len(l)-1].name + t.name})
			return
		}
		l = append(l, t)
	}
	for _, t := range ts {
		add(t)
	}
	if len(l) == 1 {
		return l[0]
	}
	return mk(&Term{op: OConcat, sort: SStr, args: l})
}

// mkFold is the concatenation of body(k) for k = 0 .. n-1.
func mkFold(k *Term, n, body *Term) *Term {
	if isInt(n) && n.iv.Sign() <= 0 {
		return mkConcat()
	}
	if body.op == OConcat && len(body.args) == 0 {
		return body
	}
	if isInt(n) && n.iv.IsInt64() && n.iv.Int64() <= 4 {
		var l []*Term
		for i := int64(0); i < n.iv.Int64(); i++ {
			l = append(l, subst(body, map[*Term]*Term{k: mkInt(i)}))
		}
		return mkConcat(l...)
	}
	return canonFold(SStr, k, n, body)
}

// mkSum is the sum of body(k) for k = 0 .. n-1.
func mkSum(k *Term, n, body *Term) *Term {
	if isInt(n) && n.iv.Sign() <= 0 || body == tZero {
		return tZero
	}
	if isInt(n) && n.iv.IsInt64() && n.iv.Int64() <= 4 {
		r := tZero
		for i := int64(0); i < n.iv.Int64(); i++ {
			r = mkAdd(r, subst(body, map[*Term]*Term{k: mkInt(i)}))
		}
		return r
	}
	return canonFold(SInt, k, n, body)
}

// ---- substitution ----

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && len(t.poly) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == OFold && m[t.bv[0]] != nil { // bound here again
		r = rebuild(t, func(a *Term) *Term {
			if a == t.args[1] && a != t.args[0] {
				return a
			}
			return substM(a, m, memo)
		})
	} else {
		r = rebuild(t, func(a *Term) *Term { return substM(a, m, memo) })
	}
	memo[t.id] = r
	return r
}

// rebuild applies f to all children and re-normalizes.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	if t.op == OPoly {
		changed := false
		ms := map[string]mono{}
		for _, mo := range t.poly {
			p := mkBig(mo.coef)
			for _, a := range mo.atoms {
				b := f(a)
				if b != a {
					changed = true
				}
				p = mkMul(p, b)
			}
			addTo(ms, polyOf(p), big.NewInt(1))
		}
		if !changed {
			return t
		}
		return fromMonos(ms)
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = f(a)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	switch t.op {
	case OApp:
		return mkAppN(t.name, t.sort, args)
	case OIte:
		return mkIte(args[0], args[1], args[2])
	case ONot:
		return mkNot(args[0])
	case OAnd:
		return mkAnd(args...)
	case OOr:
		return mkOr(args...)
	case OEq:
		return mkEq(args[0], args[1])
	case OLe:
		return mkLe(args[0], tZero)
	case OSelect:
		return mkSelect(args[0], args[1])
	case OStore:
		return mkStore(args[0], args[1], args[2])
	case OConst:
		return mkConstArr(t.sort, args[0])
	case OForall, OExists:
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			pats = append(pats, q)
		}
		return mkQ(t.op, t.bv, args[0], pats)
	case OConcat:
		return mkConcat(args...)
	case OFold:
		if t.sort == SInt {
			return mkSum(t.bv[0], args[0], args[1])
		}
		return mkFold(t.bv[0], args[0], args[1])
	}
	return mk(&Term{op: t.op, sort: t.sort, name: t.name, iv: t.iv, args: args, bv: t.bv, pats: t.pats})
}

func mkAppN(name string, s Sort, args []*Term) *Term {
	switch name {
	case "tdiv":
		return mkTDiv(args[0], args[1])
	case "tmod":
		return mkTMod(args[0], args[1])
	}
	return mkApp(name, s, args...)
}

// ---- printing (debug) ----

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	s := smtString(t)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func polySMT(t *Term, f func(*Term) string, product func([]string) string) string {
	var parts []string
	for _, m := range t.poly {
		var fs []string
		neg := m.coef.Sign() < 0
		abs := new(big.Int).Abs(m.coef)
		if len(m.atoms) == 0 || !(abs.IsInt64() && abs.Int64() == 1) {
			fs = append(fs, abs.String())
		}
		if len(m.atoms) > 1 && product != nil {
			var ps []string
			for _, a := range m.atoms {
				ps = append(ps, f(a))
			}
			fs = append(fs, product(ps))
		} else {
			for _, a := range m.atoms {
				fs = append(fs, f(a))
			}
		}
		s := fs[0]
		if len(fs) > 1 {
			s = "(* " + strings.Join(fs, " ") + ")"
		}
		if neg {
			s = "(- " + s + ")"
		}
		parts = append(parts, s)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func smtNode(t *Term, f func(*Term) string) string {
	app := func(name string, args ...*Term) string {
		if len(args) == 0 {
			return name
		}
		var b strings.Builder
		b.WriteString("(" + name)
		for _, a := range args {
			b.WriteString(" " + f(a))
		}
		b.WriteString(")")
		return b.String()
	}
	switch t.op {
	case OVar, OBound:
		return "|" + t.name + "|"
	case OInt:
		if t.iv.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.iv).String() + ")"
		}
		return t.iv.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLit:
		return "|lit:" + litName(t.name) + "|"
	case OPoly:
		return polySMT(t, f, nil)
	case OApp:
		return app("|"+t.name+"|", t.args...)
	case OIte:
		return app("ite", t.args...)
	case ONot:
		return app("not", t.args...)
	case OAnd:
		return app("and", t.args...)
	case OOr:
		return app("or", t.args...)
	case OEq:
		return app("=", t.args...)
	case OLe:
		// a - b <= 0 printed as pos <= neg
		return "(<= " + f(t.args[0]) + " 0)"
	case OSelect:
		return app("select", t.args...)
	case OStore:
		return app("store", t.args...)
	case OConst:
		return "((as const " + string(t.sort) + ") " + f(t.args[0]) + ")"
	case OForall, OExists:
		var b strings.Builder
		if t.op == OForall {
			b.WriteString("(forall (")
		} else {
			b.WriteString("(exists (")
		}
		for _, v := range t.bv {
			fmt.Fprintf(&b, "(|%s| %s)", v.name, v.sort)
		}
		b.WriteString(") ")
		b.WriteString("(! ")
		b.WriteString(f(t.args[0]))
		fmt.Fprintf(&b, " :qid |q%s|", t.bv[0].name)
		for _, p := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteString(" ")
				}
				if x.op == OPoly && len(x.poly) == 1 && len(x.poly[0].atoms) > 1 {
					// a product in a pattern; the function is one only in the linear abstraction
					s := f(x)
					if !strings.HasPrefix(s, "(|nl*|") {
						s = ""
						for _, a := range x.poly[0].atoms {
							s += " " + f(a)
						}
					}
					b.WriteString(s)
					continue
				}
				b.WriteString(f(x))
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		b.WriteString(")")
		return b.String()
	case OConcat:
		if len(t.args) == 0 {
			return "|seq.empty|"
		}
		s := f(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(|seq.cat| " + f(t.args[i]) + " " + s + ")"
		}
		return s
	case OFold:
		return fmt.Sprintf("(fold |%s| %s %s)", t.bv[0].name, f(t.args[0]), f(t.args[1]))
	case OCell:
		return fmt.Sprintf("<cell %s+%s>", t.name, t.iv)
	case OClo:
		return "<closure " + t.name + ">"
	case OPField:
		return fmt.Sprintf("<&%s.%s+%s>", f(t.args[0]), t.name, t.iv)
	case OPElem:
		return fmt.Sprintf("<&%s[%s]+%s>", f(t.args[0]), f(t.args[1]), t.iv)
	}
	return "?"
}

func litName(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == ' ' || c == '_' || c == '.' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "~%02x", c)
		}
	}
	return b.String()
}

func smtString(t *Term) string {
	var f func(t *Term) string
	depth := 0
	f = func(t *Term) string {
		depth++
		defer func() { depth-- }()
		if depth > 60 {
			return "..."
		}
		return smtNode(t, f)
	}
	return f(t)
}

// canonFold names the index after the depth of the sum, so that equal sums are the same term.
func canonFold(sort Sort, k, n, body *Term) *Term {
	c := mk(&Term{op: OBound, sort: SInt, name: fmt.Sprintf("k%%%d", foldDepth(body, map[int]int{})+1)})
	return mk(&Term{op: OFold, sort: sort, bv: []*Term{c}, args: []*Term{n, subst(body, map[*Term]*Term{k: c})}})
}

func foldDepth(t *Term, memo map[int]int) int {
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := 0
	for _, a := range t.args {
		r = max(r, foldDepth(a, memo))
	}
	for _, m := range t.poly {
		for _, a := range m.atoms {
			r = max(r, foldDepth(a, memo))
		}
	}
	if t.op == OFold {
		r++
	}
	memo[t.id] = r
	return r
}
