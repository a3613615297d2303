// about(a, b): two floating point expressions are the same apart from rounding: evaluated in exact arithmetic they are the same
// rational function of their atoms (constants up to a relative difference of 1e-6).
package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type rpoly map[string]*big.Rat // monomial (sorted atom names, separated by blanks) -> coefficient

type rfun struct{ num, den rpoly }

const maxMonos = 400

func rconst(c *big.Rat) rpoly {
	if c.Sign() == 0 {
		return rpoly{}
	}
	return rpoly{"": c}
}
func (p rpoly) add(q rpoly, sign int64) rpoly {
	r := rpoly{}
	for m, c := range p {
		r[m] = new(big.Rat).Set(c)
	}
	for m, c := range q {
		if r[m] == nil {
			r[m] = new(big.Rat)
		}
		r[m].Add(r[m], new(big.Rat).Mul(c, big.NewRat(sign, 1)))
		if r[m].Sign() == 0 {
			delete(r, m)
		}
	}
	return r
}
func (p rpoly) mul(q rpoly) rpoly {
	r := rpoly{}
	for m, c := range p {
		for n, d := range q {
			k := strings.Fields(m + " " + n)
			sort.Strings(k)
			key := strings.Join(k, " ")
			if r[key] == nil {
				r[key] = new(big.Rat)
			}
			r[key].Add(r[key], new(big.Rat).Mul(c, d))
			if r[key].Sign() == 0 {
				delete(r, key)
			}
		}
	}
	return r
}
func (p rpoly) String() string {
	var ks []string
	for m, c := range p {
		ks = append(ks, m+"*"+c.RatString())
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

// rational returns the expression as a rational function, false if it is too large or divides by zero.
func rational(t *Term) (f rfun, ok bool) {
	one := rconst(big.NewRat(1, 1))
	atom := func(name string) (rfun, bool) {
		return rfun{rpoly{name: big.NewRat(1, 1)}, one}, true
	}
	if c, is := fconst(t); is {
		r := new(big.Rat)
		if r.SetFloat64(c) == nil {
			return atom(fmt.Sprintf("t%d", t.id))
		}
		return rfun{rconst(r), one}, true
	}
	switch t.op {
	case OInt:
		return rfun{rconst(new(big.Rat).SetInt(t.iv)), one}, true
	case OPoly:
		r := rpoly{}
		for _, m := range t.poly {
			p := rconst(new(big.Rat).SetInt(m.coef))
			for _, a := range m.atoms {
				p = p.mul(rpoly{fmt.Sprintf("t%d", a.id): big.NewRat(1, 1)})
			}
			r = r.add(p, 1)
		}
		return rfun{r, one}, len(r) <= maxMonos
	case OApp:
		n := t.name
		switch {
		case len(t.args) == 1 && (strings.HasPrefix(n, "i2F") || n == "F32toF64" || n == "F64toF32"):
			return rational(t.args[0])
		case n == "F32.neg" || n == "F64.neg":
			a, ok := rational(t.args[0])
			return rfun{rpoly{}.add(a.num, -1), a.den}, ok
		case len(t.args) == 2 && (strings.HasPrefix(n, "F32.") || strings.HasPrefix(n, "F64.")):
			a, ok1 := rational(t.args[0])
			b, ok2 := rational(t.args[1])
			if !ok1 || !ok2 || len(a.num)+len(a.den)+len(b.num)+len(b.den) > maxMonos {
				return rfun{}, false
			}
			switch n[4:] {
			case "add":
				f = rfun{a.num.mul(b.den).add(b.num.mul(a.den), 1), a.den.mul(b.den)}
			case "sub":
				f = rfun{a.num.mul(b.den).add(b.num.mul(a.den), -1), a.den.mul(b.den)}
			case "mul":
				f = rfun{a.num.mul(b.num), a.den.mul(b.den)}
			case "div":
				if len(b.num) == 0 {
					return rfun{}, false
				}
				f = rfun{a.num.mul(b.den), a.den.mul(b.num)}
			default:
				return atom(fmt.Sprintf("t%d", t.id))
			}
			return f, len(f.num)+len(f.den) <= maxMonos
		case n == "math.Sqrt" || n == "math.Abs":
			a, ok := rational(t.args[0])
			if !ok {
				return rfun{}, false
			}
			return atom(strings.ReplaceAll(n+"("+a.num.String()+"/"+a.den.String()+")", " ", "."))
		}
	}
	return atom(fmt.Sprintf("t%d", t.id))
}

func mkAbout(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	x, ok1 := rational(a)
	y, ok2 := rational(b)
	if ok1 && ok2 {
		p, q := x.num.mul(y.den), y.num.mul(x.den)
		same := len(p) == len(q)
		for m, c := range p {
			d := q[m]
			if d == nil {
				same = false
				break
			}
			diff := new(big.Rat).Sub(c, d)
			lim := new(big.Rat).Mul(new(big.Rat).Abs(c), big.NewRat(1, 1000000))
			if diff.Abs(diff).Cmp(lim) > 0 {
				same = false
			}
		}
		if same {
			return mkBool(true)
		}
	}
	return mkApp("about", SBool, mkFConv(SF64, a), mkFConv(SF64, b))
}
