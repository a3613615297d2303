# C24: values of options given as text
# entry k of a fan speed table: layer=speed
define entry(s, k) = piece(s, ",", k)
define entryLayer(s, k) = parsed("strconv.Atoi", piece(entry(s, k), "=", 0))
define entrySpeed(s, k) = parsed("strconv.Atoi", piece(entry(s, k), "=", 1))
define entryGood(s, k) = nsplit(entry(s, k), "=") == 2 && !parseErr("strconv.Atoi", piece(entry(s, k), "=", 0)) && !parseErr("strconv.Atoi", piece(entry(s, k), "=", 1)) && entryLayer(s, k) >= 0 && entrySpeed(s, k) >= 0 && entrySpeed(s, k) <= 255

# last(l): the position of the entry which sets layer l
func (*data.FanSpeedOptions).Set(f, s) (err)
  property C24
  requires f != nil
  modifies f.LayerToSpeedLUT
  ghost last (Int)Int
  ghost bad Int
  witness last = last ?? const(0)
  witness bad = bad ?? 0
  ensures rejected: err != nil ==> same(f.LayerToSpeedLUT, old(f.LayerToSpeedLUT)) && 0 <= bad < nsplit(s, ",") && !entryGood(s, bad)
  ensures accepted: err == nil ==> (forall k in 0..nsplit(s, ",") :: {piece(s, ",", k)} entryGood(s, k))
  ensures all: err == nil ==> (forall k in 0..nsplit(s, ",") :: {piece(s, ",", k)} has(f.LayerToSpeedLUT, entryLayer(s, k)) && k <= last(entryLayer(s, k)))
  ensures only: err == nil ==> (forall l :: {last(l)} has(f.LayerToSpeedLUT, l) ==> 0 <= last(l) < nsplit(s, ",") && entryLayer(s, last(l)) == l && f.LayerToSpeedLUT[l] == entrySpeed(s, last(l)))
  loop 0
    ghost last (Int)Int = const(0)
    ghost bad Int = 0
    step bad = iter
    invariant bad: bad == iter
    step last = store(last, entryLayer(s, prev(iter)), prev(iter))
    invariant good: forall k in 0..iter :: {piece(s, ",", k)} entryGood(s, k)
    invariant all: forall k in 0..iter :: {piece(s, ",", k)} has(lut, entryLayer(s, k)) && k <= last(entryLayer(s, k))
    invariant only: forall l :: {last(l)} has(lut, l) ==> 0 <= last(l) < iter && entryLayer(s, last(l)) == l && lut[l] == entrySpeed(s, last(l))
    invariant same: same(f.LayerToSpeedLUT, old(f.LayerToSpeedLUT))

func (*data.Micrometer).Set(m, s) (err)
  property C24
  requires m != nil
  modifies *m
  ensures err: (err != nil) == parseErr("strconv.ParseInt", s, 0, 64)
  ensures value: err == nil ==> *m == parsed("strconv.ParseInt", s, 0, 64)

define coordGood(s, k) = !parseErr("strconv.ParseInt", piece(s, "_", k), 0, 64)
define coordOf(s, k) = parsed("strconv.ParseInt", piece(s, "_", k), 0, 64)

func (*data.microVec3).Set(v, s) (err)
  property C24
  requires v != nil
  modifies *v
  ensures accepted: (err == nil) == (nsplit(s, "_") == 3 && coordGood(s, 0) && coordGood(s, 1) && coordGood(s, 2))
  ensures stored: err == nil ==> v.x == coordOf(s, 0) && v.y == coordOf(s, 1) && v.z == coordOf(s, 2)
  ensures rejected: err != nil ==> v.x == old(v.x) && v.y == old(v.y) && v.z == old(v.z)

define row(s, k) = piece(s, "\n", k)
define blank(t) = len(strings.TrimSpace(t)) == 0

# pos(j): position of the line j in the text, out(k): position of row k of the text in the lines
func (*data.GCodeHunk).Set(gch, s) (err)
  property C24
  requires gch != nil
  modifies gch.GCodeLines
  ghost pos (Int)Int
  ghost out (Int)Int
  witness pos = pos ?? const(0)
  witness out = out ?? const(0)
  ensures rejected: err != nil ==> same(gch.GCodeLines, old(gch.GCodeLines))
  ensures several: (err != nil) == !strings.Contains(s, "\n")
  ensures only: err == nil ==> (forall j in 0..len(gch.GCodeLines) :: {pos(j)} 0 <= pos(j) < nsplit(s, "\n") && gch.GCodeLines[j] == row(s, pos(j)) && !blank(row(s, pos(j))))
  ensures order: err == nil ==> (forall j in 0..len(gch.GCodeLines) :: {pos(j)} 0 < j ==> pos(j - 1) < pos(j))
  ensures all: err == nil ==> (forall k in 0..nsplit(s, "\n") :: {out(k)} !blank(row(s, k)) ==> 0 <= out(k) < len(gch.GCodeLines) && pos(out(k)) == k)
  loop 0
    ghost pos (Int)Int = const(0)
    ghost out (Int)Int = const(0)
    step pos = if len(result) > prev(len(result)) then store(pos, prev(len(result)), prev(iter)) else pos
    step out = store(out, prev(iter), prev(len(result)))
    invariant fresh: cap(result) > 0 ==> fresh(result)
    invariant only: forall j in 0..len(result) :: {pos(j)} 0 <= pos(j) < iter && result[j] == row(s, pos(j)) && !blank(row(s, pos(j)))
    invariant order: forall j in 0..len(result) :: {pos(j)} 0 < j ==> pos(j - 1) < pos(j)
    invariant all: forall k in 0..iter :: {out(k)} !blank(row(s, k)) ==> 0 <= out(k) < len(result) && pos(out(k)) == k
