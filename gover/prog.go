// Program loading and static helpers.
package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	byName    map[string]*types.Package // by package name
	spkg      map[*types.Package]*ssa.Package
	fns       map[string]*ssa.Function
	dynTypes  []types.Type // types converted to interfaces in the module
	contracts map[string]*Contract
	defs      map[string]*SpecDef
	measures  map[string]*SpecDef
	fields    map[string]string
	loops     map[*ssa.Function]*fnLoops
	loopsMu   sync.Mutex
	trusted   map[string]bool
}

var repoDir = "/repo"

func loadProg(dir string, overlay map[string][]byte) (*Prog, error) {
	repoDir = dir
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off"),
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{fset: pkgs[0].Fset, prog: prog, pkgs: pkgs, byName: map[string]*types.Package{}, spkg: map[*types.Package]*ssa.Package{},
		fns: map[string]*ssa.Function{}, contracts: map[string]*Contract{}, defs: map[string]*SpecDef{}, measures: map[string]*SpecDef{}, fields: map[string]string{}, loops: map[*ssa.Function]*fnLoops{}, trusted: map[string]bool{}}
	for _, sp := range prog.AllPackages() {
		// several packages can have the same name: those of the module first, then the one with the shortest path
		have := p.byName[sp.Pkg.Name()]
		rank := func(k *types.Package) string {
			m := 1
			if strings.HasPrefix(k.Path(), modPath) {
				m = 0
			}
			return fmt.Sprintf("%d %05d %s", m, len(k.Path()), k.Path())
		}
		if have == nil || rank(sp.Pkg) < rank(have) {
			p.byName[sp.Pkg.Name()] = sp.Pkg
		}
		p.spkg[sp.Pkg] = sp
	}
	seenT := map[string]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Pkg == nil && fn.Blocks != nil {
			p.fns[shortName(fn)] = fn
		}
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || strings.Contains(fn.Pkg.Pkg.Path(), "/util/test") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok {
					k := types.TypeString(m.X.Type(), nil)
					if !seenT[k] {
						seenT[k] = true
						p.dynTypes = append(p.dynTypes, m.X.Type())
					}
				}
			}
		}
	}
	sort.Slice(p.dynTypes, func(i, j int) bool {
		return types.TypeString(p.dynTypes[i], nil) < types.TypeString(p.dynTypes[j], nil)
	})
	for _, t := range p.dynTypes {
		typeTag(t)
	}
	return p, nil
}

func shortName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return shorten(s)
}

// shorten replaces import paths by the last element of the path without version or "go." prefix.
func shorten(s string) string {
	var b strings.Builder
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && (isIdent(s[j]) || s[j] == '/' || s[j] == '.' || s[j] == '-' || s[j] == '~') {
			j++
		}
		w := s[i:j]
		if k := strings.LastIndexByte(w, '/'); k >= 0 {
			w = w[k+1:]
		}
		if strings.HasPrefix(w, "go.clipper") {
			w = w[3:]
		}
		if strings.HasPrefix(w, "go-convex-hull-2d") {
			w = "go_convex_hull_2d" + w[len("go-convex-hull-2d"):]
		}
		b.WriteString(w)
		if j < len(s) {
			b.WriteByte(s[j])
			j++
		}
		i = j
	}
	return b.String()
}

func isIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// implementers of an interface among the types converted to interfaces in the module.
func (p *Prog) implementers(it types.Type) []types.Type {
	i, ok := it.Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 {
		return nil
	}
	var out []types.Type
	for _, t := range p.dynTypes {
		if types.IsInterface(t) {
			continue
		}
		if types.Implements(t, i) {
			out = append(out, t)
		}
	}
	return out
}

// soleImpl returns the only implementer of a module interface, or nil.
func (p *Prog) soleImpl(it types.Type) types.Type {
	n, ok := it.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	if p.contracts["iface "+shorten(types.TypeString(it, nil))] != nil {
		return nil
	}
	im := p.implementers(it)
	if len(im) == 1 {
		return im[0]
	}
	return nil
}

// ---- loops ----

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	unroll bool
	name   string
}

type fnLoops struct {
	byHeader map[*ssa.BasicBlock]*Loop
	all      []*Loop // in source order
}

func (p *Prog) loopsOf(fn *ssa.Function) *fnLoops {
	p.loopsMu.Lock()
	defer p.loopsMu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	fl := &fnLoops{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fl.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fl.byHeader[s] = l
					fl.all = append(fl.all, l)
				}
				// natural loop of back edge b -> s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	for _, l := range fl.all {
		for _, o := range fl.all {
			if o != l && o.blocks[l.header] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
		l.unroll = constTrip(l)
	}
	sort.Slice(fl.all, func(i, j int) bool {
		pi, pj := loopPos(fl.all[i]), loopPos(fl.all[j])
		if pi != pj {
			return pi < pj
		}
		return len(fl.all[i].blocks) > len(fl.all[j].blocks)
	})
	p.loops[fn] = fl
	return fl
}

// loopPos is the smallest source position inside a loop.
func loopPos(l *Loop) token.Pos {
	best := token.Pos(1 << 40)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && p < best {
				best = p
			}
		}
	}
	return best
}

// constTrip recognizes loops with a constant number (<= 8) of iterations.
func constTrip(l *Loop) bool {
	c, ok := tripCond(l)
	if !ok {
		return false
	}
	k, ok := c.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	v, ok := constant.Int64Val(k.Value)
	return ok && v <= 8 && v >= 0
}

// tripCond returns the bound of a loop which counts from a constant in constant steps.
func tripCond(l *Loop) (ssa.Value, bool) {
	if len(l.header.Instrs) == 0 {
		return nil, false
	}
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || (c.Op != token.LSS && c.Op != token.LEQ && c.Op != token.NEQ) {
		return nil, false
	}
	var phi *ssa.Phi
	switch x := c.X.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if p, ok := x.X.(*ssa.Phi); ok && x.Op == token.ADD {
			if _, ok := x.Y.(*ssa.Const); ok {
				phi = p
			}
		}
	}
	if phi == nil || phi.Block() != l.header {
		return nil, false
	}
	for i, e := range phi.Edges {
		if l.blocks[phi.Block().Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != phi {
				return nil, false
			}
			if _, ok := b.Y.(*ssa.Const); !ok {
				return nil, false
			}
		} else if _, ok := e.(*ssa.Const); !ok {
			return nil, false
		}
	}
	return c.Y, true
}

// loopKey identifies a loop in a call context.
type loopKey struct {
	path string // call path of positions
	l    *Loop
}

// orderedLoops enumerates the loops of fn and of module functions inlined into
// it, in source order of loop heads and call sites.
func (p *Prog) orderedLoops(fn *ssa.Function, cutall bool, path string, depth int, seen map[*ssa.Function]bool) []loopKey {
	if depth > 6 || seen[fn] {
		return nil
	}
	seen[fn] = true
	defer delete(seen, fn)
	type item struct {
		pos  token.Pos
		ord  int
		keys []loopKey
	}
	var items []item
	for _, l := range p.loopsOf(fn).all {
		if l.unroll && !cutall {
			continue
		}
		items = append(items, item{loopPos(l), -len(l.blocks), []loopKey{{path, l}}})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var com *ssa.CallCommon
			switch c := in.(type) {
			case *ssa.Call:
				com = &c.Call
			default:
				continue
			}
			callee := p.staticCallee(com)
			if c := p.contractFor(callee); callee == nil || callee.Blocks == nil || c != nil && !c.inline || !inModule(callee) {
				continue
			}
			ks := p.orderedLoops(callee, cutall, path+fmt.Sprintf("/%d", in.Pos()), depth+1, seen)
			if len(ks) > 0 {
				items = append(items, item{in.Pos(), 0, ks})
			}
		}
	}
	sort.SliceStable(items, func(i, j int) bool {
		if items[i].pos != items[j].pos {
			return items[i].pos < items[j].pos
		}
		return items[i].ord < items[j].ord
	})
	var out []loopKey
	for _, it := range items {
		out = append(out, it.keys...)
	}
	return out
}

func inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Parent() != nil {
		return inModule(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return fn.Synthetic != ""
}

func (p *Prog) staticCallee(c *ssa.CallCommon) *ssa.Function {
	if c.IsInvoke() {
		it := shorten(types.TypeString(c.Value.Type(), nil))
		if p.contracts["("+it+")."+c.Method.Name()] != nil || p.contracts["iface "+it] != nil {
			return nil
		}
		t := p.soleImpl(c.Value.Type())
		if t == nil {
			return nil
		}
		return p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
	}
	return c.StaticCallee()
}

func (p *Prog) contractFor(fn *ssa.Function) *Contract {
	if fn == nil {
		return nil
	}
	return p.contracts[shortName(fn)]
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.fset.Position(pos)
	f := ps.Filename
	if i := strings.Index(f, repoDir+"/"); i >= 0 {
		f = f[i+len(repoDir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func constTerm(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	return constVal(c.Value, t)
}

func constVal(v constant.Value, t types.Type) Val {
	ls := leavesOf(t)
	switch ls[0].sort {
	case SBool:
		return Val{t, []*Term{mkBool(constant.BoolVal(v))}}
	case SStr:
		return Val{t, []*Term{mkLit(constant.StringVal(v))}}
	case SInt:
		i := constant.ToInt(v)
		s := i.ExactString()
		b, ok := new(big.Int).SetString(s, 10)
		if !ok {
			panic(unsupported("constant " + v.String()))
		}
		return Val{t, []*Term{mkBig(b)}}
	case SF32:
		f, _ := constant.Float32Val(v)
		return Val{t, []*Term{f32Const(f)}}
	case SF64:
		f, _ := constant.Float64Val(v)
		return Val{t, []*Term{f64Const(f)}}
	}
	panic(unsupported("constant " + v.String()))
}

var _ = ast.NewIdent
