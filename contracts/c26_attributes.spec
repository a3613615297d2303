# C26: attributes of layers
iface data.PartitionedLayer

define partsAttr(layer, key, r, err) =
  (!has(layer.Attributes(), key) ==> err == nil && r == nil)
  && (has(layer.Attributes(), key) && is(layer.Attributes()[key], "[]data.LayerPart") ==> err == nil && same(r, as(layer.Attributes()[key], "[]data.LayerPart")))
  && (has(layer.Attributes(), key) && !is(layer.Attributes()[key], "[]data.LayerPart") ==> err != nil && r == nil)

func modifier.PartsAttribute(layer, typ) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: partsAttr(layer, typ, r, err)

define offsetAttr(layer, key, r, err) =
  (!has(layer.Attributes(), key) ==> err == nil && r == nil)
  && (has(layer.Attributes(), key) && is(layer.Attributes()[key], "clip.OffsetResult") ==> err == nil && same(r, as(layer.Attributes()[key], "clip.OffsetResult")))
  && (has(layer.Attributes(), key) && !is(layer.Attributes()[key], "clip.OffsetResult") ==> err != nil && r == nil)

func modifier.BottomInfill(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: partsAttr(layer, "bottom", r, err)

func modifier.TopInfill(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: partsAttr(layer, "top", r, err)

func modifier.FullSupport(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: partsAttr(layer, "fullSupport", r, err)

func modifier.BrimOuterDimension(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: partsAttr(layer, "outerBrim", r, err)

func modifier.Brim(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: offsetAttr(layer, "brim", r, err)

func modifier.Perimeters(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures value: offsetAttr(layer, "perimeters", r, err)

func modifier.OverlapPerimeters(layer) (r, err)
  property C26
  requires layer != nil
  modifies nothing
  ensures none: !has(layer.Attributes(), "overlapPerimeters") ==> err == nil && r == nil
  ensures stored: has(layer.Attributes(), "overlapPerimeters") && is(layer.Attributes()["overlapPerimeters"], "[][]data.LayerPart") ==> err == nil && same(r, as(layer.Attributes()["overlapPerimeters"], "[][]data.LayerPart"))
  ensures other: has(layer.Attributes(), "overlapPerimeters") && !is(layer.Attributes()["overlapPerimeters"], "[][]data.LayerPart") ==> err != nil && r == nil

# an extended layer keeps the layer and its attributes
func modifier.newExtendedLayer(layer, typ) (r)
  property C26
  requires layer != nil
  modifies nothing
  ensures layer: r.PartitionedLayer == layer
  ensures map: r.attributes != nil && (r.attributes == layer.Attributes() || fresh(r.attributes))
  ensures attributes: layer.Attributes() != nil ==> forall k Seq :: has(r.attributes, k) == has(layer.Attributes(), k) && (has(layer.Attributes(), k) ==> same(r.attributes[k], layer.Attributes()[k]))
  ensures empty: layer.Attributes() == nil ==> forall k Seq :: !has(r.attributes, k)

func (modifier.extendedLayer).Attributes(l) (r)
  property C26
  modifies nothing
  ensures attributes: same(r, l.attributes)

func (modifier.extendedLayer).LayerParts(l) (r)
  property C26
  requires l.PartitionedLayer != nil
  modifies nothing
  ensures parts: same(r, l.PartitionedLayer.LayerParts())
