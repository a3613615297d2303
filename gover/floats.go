// Floating point terms: uninterpreted operations with exact constant folding.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

func f32Const(f float32) *Term {
	return mkApp(fmt.Sprintf("f32#%08x", math.Float32bits(f)), SF32)
}
func f64Const(f float64) *Term {
	return mkApp(fmt.Sprintf("f64#%016x", math.Float64bits(f)), SF64)
}
func fconst(t *Term) (float64, bool) {
	if t.op != OApp || len(t.args) != 0 {
		return 0, false
	}
	if strings.HasPrefix(t.name, "f32#") {
		b, err := strconv.ParseUint(t.name[4:], 16, 32)
		return float64(math.Float32frombits(uint32(b))), err == nil
	}
	if strings.HasPrefix(t.name, "f64#") {
		b, err := strconv.ParseUint(t.name[4:], 16, 64)
		return math.Float64frombits(b), err == nil
	}
	return 0, false
}
func mkFC(s Sort, f float64) *Term {
	if s == SF32 {
		return f32Const(float32(f))
	}
	return f64Const(f)
}

func mkFOp(op string, s Sort, a, b *Term) *Term {
	x, ok1 := fconst(a)
	y, ok2 := fconst(b)
	if ok1 && ok2 {
		if s == SF32 {
			p, q := float32(x), float32(y)
			switch op {
			case "add":
				return f32Const(p + q)
			case "sub":
				return f32Const(p - q)
			case "mul":
				return f32Const(p * q)
			case "div":
				return f32Const(p / q)
			}
		} else {
			switch op {
			case "add":
				return f64Const(x + y)
			case "sub":
				return f64Const(x - y)
			case "mul":
				return f64Const(x * y)
			case "div":
				return f64Const(x / y)
			}
		}
	}
	if s == SF64 && (op == "add" || op == "sub") { // sums of whole numbers (below 2^53) are exact
		if p, q := wholeF64(a), wholeF64(b); p != nil && q != nil {
			if op == "sub" {
				q = mkNeg(q)
			}
			return mkI2F(SF64, mkAdd(p, q))
		}
	}
	if (op == "add" || op == "mul") && a.id > b.id {
		a, b = b, a
	}
	return mkApp(string(s)+"."+op, s, a, b)
}

// wholeF64 is the integer a float64 was made of, nil if it was not.
func wholeF64(t *Term) *Term {
	if t.op == OApp && t.name == "i2F64" {
		return t.args[0]
	}
	if x, ok := fconst(t); ok && x == math.Trunc(x) && math.Abs(x) < 1<<53 && t.sort == SF64 {
		return mkInt(int64(x))
	}
	return nil
}

func mkFNeg(s Sort, a *Term) *Term {
	if x, ok := fconst(a); ok {
		return mkFC(s, -x)
	}
	if a.op == OApp && a.name == string(s)+".neg" {
		return a.args[0]
	}
	return mkApp(string(s)+".neg", s, a)
}

// comparison: lt, le, eq
func mkFCmp(op string, s Sort, a, b *Term) *Term {
	x, ok1 := fconst(a)
	y, ok2 := fconst(b)
	if ok1 && ok2 {
		switch op {
		case "lt":
			return mkBool(x < y)
		case "le":
			return mkBool(x <= y)
		case "eq":
			return mkBool(x == y)
		}
	}
	if op == "eq" && a.id > b.id {
		a, b = b, a
	}
	return mkApp(string(s)+"."+op, SBool, a, b)
}

func mkFConv(to Sort, a *Term) *Term {
	if a.sort == to {
		return a
	}
	if x, ok := fconst(a); ok {
		return mkFC(to, x)
	}
	if to == SF32 && a.op == OApp && a.name == "F32toF64" {
		return a.args[0] // widening is exact
	}
	return mkApp(string(a.sort)+"to"+string(to), to, a)
}

func mkI2F(to Sort, a *Term) *Term {
	if isInt(a) {
		if to == SF32 {
			f, _ := new(big.Float).SetPrec(24).SetMode(big.ToNearestEven).SetInt(a.iv).Float32()
			return f32Const(f)
		}
		f, _ := new(big.Float).SetPrec(53).SetMode(big.ToNearestEven).SetInt(a.iv).Float64()
		return f64Const(f)
	}
	return mkApp("i2"+string(to), to, a)
}

func mkF2I(a *Term) *Term {
	if x, ok := fconst(a); ok && math.Abs(x) < 9e18 {
		return mkInt(int64(x))
	}
	return mkApp(string(a.sort)+"toInt", SInt, a)
}
