# C22: all layers are rendered once, bottom up. A call of a renderer is described by the text it leaves in the builder:
# rendered(text before, renderer, layer number, last layer, layer, height) and whether it succeeds, renderOk(...), with
# error renderErr(...). Nothing is known about these functions, so an equation between texts determines the calls made,
# their order and all their arguments.
function rendered(Seq, Int, Int, Int, Int, Int, Int, Int) Seq
function renderOk(Seq, Int, Int, Int, Int, Int, Int, Int) Bool
function renderErr(Seq, Int, Int, Int, Int, Int, Int, Int) Int
# initialized(what happened before, renderer, model)
function initialized(Seq, Int, Int, Int, Int) Seq
# number of the call of renderer r for layer l
function at(Int, Int) Int
axiom different: forall a, b, c, d :: {at(a, b), at(c, d)} at(a, b) == at(c, d) ==> a == c && b == d

iface data.OptimizedModel

func (gcode.Renderer).Init(r, model) ()
  trusted a renderer changes only itself when it is initialized
  modifies trace
  ensures event: trace == initialized(old(trace), r, model)

func (gcode.Renderer).Render(r, b, layerNr, maxLayer, layer, z, options) (err)
  trusted a renderer changes only the builder it is given
  requires builder: b != nil && b.buf != nil
  modifies *b, *b.buf
  ensures builder: b.buf == old(b.buf)
  ensures text: b.String() == rendered(old(b.String()), r, layerNr, maxLayer, layer, z)
  ensures ok: (err == nil) == renderOk(old(b.String()), r, layerNr, maxLayer, layer, z)
  ensures error: ref(err) == renderErr(old(b.String()), r, layerNr, maxLayer, layer, z)

func (*gcode.generator).Init(g, model) ()
  property C22
  requires g != nil && (forall k in 0..len(g.renderers) :: g.renderers[k] != nil)
  modifies trace
  ghost t (Int)Seq
  witness t = u ?? t ?? const("")
  ensures first: t(0) == old(trace)
  ensures each: forall k in 0..len(g.renderers) :: {t(k)} t(k + 1) == initialized(t(k), g.renderers[k], model)
  ensures last: trace == t(len(g.renderers))
  loop 0
    ghost t (Int)Seq = store(const(""), 0, trace)
    step t = store(t, iter, trace)
    invariant first: t(0) == old(trace)
    invariant each: forall k in 0..iter :: {t(k)} t(k + 1) == initialized(t(k), g.renderers[k], model)
    invariant last: trace == t(iter)

# height of a layer
function height(Int, Int, Int) Int
axiom height: forall l, first, t :: {height(l, first, t)} height(l, first, t) == first + l * t
define z(g, l) = height(l, g.options.Print.InitialLayerThickness, g.options.Print.LayerThickness)
define done(g, t, l, r, n, layers) =
  t(at(l, r + 1)) == rendered(t(at(l, r)), g.renderers[r], l, n - 1, layers[l], z(g, l))
  && renderOk(t(at(l, r)), g.renderers[r], l, n - 1, layers[l], z(g, l))

# t(at(l, r)) is the text when renderer r is called for layer l; (fl, fr) is the call which failed, if one did
func (*gcode.generator).Generate(g, layers) (s, err)
  property C22
  reveal at
  reveal height
  requires g != nil && g.options != nil && (forall k in 0..len(g.renderers) :: g.renderers[k] != nil) && g.options.GoSlice.Logger != nil
  requires layers: forall k in 0..len(layers) :: layers[k] != nil
  modifies *g
  ghost t (Int)Seq
  ghost fl Int
  ghost fr Int
  witness t = u ?? t ?? const("")
  witness fl = l ?? 0
  witness fr = r ?? 0
  ensures empty: len(layers) > 0 ==> t(at(0, 0)) == ""
  ensures calls: err == nil ==> (forall l in 0..len(layers), r in 0..len(g.renderers) :: {at(l, r)} done(g, t, l, r, len(layers), layers))
  ensures next: err == nil ==> (forall l in 0..len(layers) - 1 :: {at(l, len(g.renderers))} t(at(l + 1, 0)) == t(at(l, len(g.renderers))))
  ensures result: err == nil ==> s == (if len(layers) > 0 then t(at(len(layers) - 1, len(g.renderers))) else "")
  ensures failing: err != nil ==> 0 <= fl < len(layers) && 0 <= fr < len(g.renderers) && !renderOk(t(at(fl, fr)), g.renderers[fr], fl, len(layers) - 1, layers[fl], z(g, fl)) && ref(err) == renderErr(t(at(fl, fr)), g.renderers[fr], fl, len(layers) - 1, layers[fl], z(g, fl))
  ensures before: err != nil ==> (forall l in 0..fl, r in 0..len(g.renderers) :: {at(l, r)} done(g, t, l, r, len(layers), layers)) && (forall r in 0..fr :: {at(fl, r)} done(g, t, fl, r, len(layers), layers)) && (forall l in 0..fl :: {at(l, len(g.renderers))} t(at(l + 1, 0)) == t(at(l, len(g.renderers))))
  ensures nothing: err != nil ==> s == ""
  loop 0
    ghost t (Int)Seq = store(const(""), at(0, 0), g.builder.String())
    ghost l Int = 0
    step t = store(u, at(iter, 0), g.builder.String())
    step l = iter
    invariant l: l == iter
    invariant builder: g.builder != nil && g.builder.buf != nil && fresh(g.builder) && fresh(g.builder.buf)
    invariant kept: same(g.renderers, old(g.renderers)) && g.options == old(g.options)
    invariant empty: t(at(0, 0)) == ""
    invariant text: g.builder.String() == t(at(iter, 0))
    invariant calls: forall l in 0..iter, r in 0..len(g.renderers) :: {at(l, r)} done(g, t, l, r, len(layers), layers)
    invariant next: forall l in 0..iter :: {at(l, len(g.renderers))} t(at(l + 1, 0)) == t(at(l, len(g.renderers)))
  loop 1
    ghost r Int = 0
    ghost u (Int)Seq = t
    step r = iter1
    step u = store(u, at(iter0, iter1), g.builder.String())
    invariant r: r == iter1 && l == iter0
    invariant builder: g.builder != nil && g.builder.buf != nil && fresh(g.builder) && fresh(g.builder.buf)
    invariant kept: same(g.renderers, old(g.renderers)) && g.options == old(g.options)
    invariant empty: u(at(0, 0)) == ""
    invariant text: g.builder.String() == u(at(iter0, iter1))
    invariant calls: forall l in 0..iter0, r in 0..len(g.renderers) :: {at(l, r)} done(g, u, l, r, len(layers), layers)
    invariant here: forall r in 0..iter1 :: {at(iter0, r)} done(g, u, iter0, r, len(layers), layers)
    invariant next: forall l in 0..iter0 :: {at(l, len(g.renderers))} u(at(l + 1, 0)) == u(at(l, len(g.renderers)))
