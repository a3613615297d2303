# C23: stages of the pipeline. What a stage does is described by the event it adds to the trace of everything that
# happened (ev...) and by its result, which is an uninterpreted function of that trace. An equation between traces
# therefore determines the stages that ran, their order and all their arguments.
function evRead(Seq, Int, Int, Seq) Seq
function evOptimize(Seq, Int, Int, Int, Int) Seq
function evSlice(Seq, Int, Int, Int, Int) Seq
function evInitModifier(Seq, Int, Int, Int, Int) Seq
function evModify(Seq, Int, Int, Int, Int, Int, Int) Seq
function evInitGenerator(Seq, Int, Int, Int, Int) Seq
function evGenerate(Seq, Int, Int, Int, Int, Int, Int) Seq
function evWrite(Seq, Int, Int, Seq, Seq) Seq
# error of the last event (0: none) and components of its result
function errOf(Seq) Int
function res(Seq, Int) Int
function resText(Seq) Seq

iface data.Model

define failed(err, t) = (err == nil) == (errOf(t) == 0) && leaf(err, 1) == errOf(t) && leaf(err, 0) == res(t, 9)
define isRes(m, t) = leaf(m, 0) == res(t, 0) && leaf(m, 1) == res(t, 1)

func (handler.ModelReader).Read(r, filename) (m, err)
  trusted description of an arbitrary reader
  modifies trace
  ensures event: trace == evRead(old(trace), r, filename)
  ensures err: failed(err, trace)
  ensures model: isRes(m, trace) && (err == nil ==> m != nil)

func (handler.ModelOptimizer).Optimize(o, m) (om, err)
  trusted description of an arbitrary optimizer
  modifies trace
  ensures event: trace == evOptimize(old(trace), o, m)
  ensures err: failed(err, trace)
  ensures model: isRes(om, trace)

func (handler.ModelSlicer).Slice(s, m) (layers, err)
  trusted description of an arbitrary slicer
  modifies trace
  ensures event: trace == evSlice(old(trace), s, m)
  ensures err: failed(err, trace)
  ensures layers: isRes(layers, trace) && leaf(layers, 2) == res(trace, 2) && leaf(layers, 3) == res(trace, 3)

func (handler.Namer).GetName(n) (s)
  trusted a name is only a name
  modifies nothing

func (handler.LayerModifier).GetName(n) (s)
  trusted a name is only a name
  modifies nothing

func (handler.LayerModifier).Init(m, model) ()
  trusted description of an arbitrary modifier
  modifies trace
  ensures event: trace == evInitModifier(old(trace), m, model)

func (handler.LayerModifier).Modify(m, layers) (err)
  trusted description of an arbitrary modifier
  modifies trace, elems(layers)
  ensures event: trace == evModify(old(trace), m, layers)
  ensures err: failed(err, trace)

func (handler.GCodeGenerator).Init(g, model) ()
  trusted description of an arbitrary generator
  modifies trace
  ensures event: trace == evInitGenerator(old(trace), g, model)

func (handler.GCodeGenerator).Generate(g, layers) (s, err)
  trusted description of an arbitrary generator
  modifies trace
  ensures event: trace == evGenerate(old(trace), g, layers)
  ensures err: failed(err, trace)
  ensures text: s == resText(trace)

func (handler.GCodeWriter).Write(w, gcode, destination) (err)
  trusted description of an arbitrary writer
  modifies trace
  ensures event: trace == evWrite(old(trace), w, gcode, destination)
  ensures err: failed(err, trace)

define t1(s, t) = evRead(t, s.Reader, s.Options.InputFilePath)
define t2(s, t) = evOptimize(t1(s, t), s.Optimizer, res(t1(s, t), 0), res(t1(s, t), 1))
define t3(s, t) = evSlice(t2(s, t), s.Slicer, res(t2(s, t), 0), res(t2(s, t), 1))
define sliced(s, t) = errOf(t1(s, t)) == 0 && errOf(t2(s, t)) == 0 && errOf(t3(s, t)) == 0
# one modifier after another
define modified(s, t, before, r) = evModify(evInitModifier(before, r, res(t2(s, t), 0), res(t2(s, t), 1)), r, res(t3(s, t), 0), res(t3(s, t), 1), res(t3(s, t), 2), res(t3(s, t), 3))
define t6(s, t, m) = evGenerate(evInitGenerator(m, s.Generator, res(t2(s, t), 0), res(t2(s, t), 1)), s.Generator, res(t3(s, t), 0), res(t3(s, t), 1), res(t3(s, t), 2), res(t3(s, t), 3))
define path(s) = if s.Options.OutputFilePath == "" then s.Options.InputFilePath + ".gcode" else s.Options.OutputFilePath

# tr(k): trace before modifier k, cnt: number of modifiers which were applied without error
func (*goslice.GoSlice).Process(s) (err)
  property C23
  requires s != nil && s.Reader != nil && s.Optimizer != nil && s.Slicer != nil && s.Generator != nil && s.Writer != nil && s.Options.Logger != nil
  requires modifiers: forall k in 0..len(s.Modifiers) :: s.Modifiers[k] != nil
  modifies trace, allelems("data.PartitionedLayer")
  ghost tr (Int)Seq
  ghost cnt Int
  witness tr = tr ?? const("")
  witness cnt = cnt ?? 0
  ensures error: failed(err, trace)
  ensures read: errOf(t1(s, old(trace))) != 0 ==> trace == t1(s, old(trace))
  ensures optimize: errOf(t1(s, old(trace))) == 0 && errOf(t2(s, old(trace))) != 0 ==> trace == t2(s, old(trace))
  ensures slice: errOf(t1(s, old(trace))) == 0 && errOf(t2(s, old(trace))) == 0 && errOf(t3(s, old(trace))) != 0 ==> trace == t3(s, old(trace))
  ensures start: sliced(s, old(trace)) ==> tr(0) == t3(s, old(trace)) && 0 <= cnt <= len(s.Modifiers)
  ensures modify: sliced(s, old(trace)) ==> forall k in 0..cnt :: {tr(k)} tr(k + 1) == modified(s, old(trace), tr(k), s.Modifiers[k])
  ensures applied: sliced(s, old(trace)) ==> forall k in 0..cnt + 1 :: {tr(k)} errOf(tr(k)) == 0
  ensures failing: sliced(s, old(trace)) && cnt < len(s.Modifiers) ==> trace == modified(s, old(trace), tr(cnt), s.Modifiers[cnt]) && errOf(trace) != 0
  ensures generate: sliced(s, old(trace)) && cnt == len(s.Modifiers) && errOf(t6(s, old(trace), tr(cnt))) != 0 ==> trace == t6(s, old(trace), tr(cnt))
  ensures write: sliced(s, old(trace)) && cnt == len(s.Modifiers) && errOf(t6(s, old(trace), tr(cnt))) == 0 ==> trace == evWrite(t6(s, old(trace), tr(cnt)), s.Writer, resText(t6(s, old(trace), tr(cnt))), path(s))
  loop 0
    ghost tr (Int)Seq = store(const(""), 0, trace)
    ghost cnt Int = 0
    step tr = store(tr, iter, trace)
    step cnt = iter
    invariant cnt: cnt == iter
    invariant start: tr(0) == t3(s, old(trace))
    invariant trace: trace == tr(iter)
    invariant modify: forall k in 0..iter :: {tr(k)} tr(k + 1) == modified(s, old(trace), tr(k), s.Modifiers[k])
    invariant applied: forall k in 0..iter + 1 :: {tr(k)} errOf(tr(k)) == 0
    invariant sliced: sliced(s, old(trace))

# The file writer. The trace describes the file system: evCreate(before, name) is the state after creating (or truncating)
# a file, evAppend(before, file, text) after writing to it and evClose(before, file) after closing it.
function evCreate(Seq, Seq) Seq
function handle(Seq) Int
function evAppend(Seq, Int, Seq) Seq
function evClose(Seq, Int) Seq
define created(t, name) = evCreate(t, name)
define filled(t, name, s) = evAppend(created(t, name), handle(created(t, name)), s)
# creating, writing everything and closing a file without any error replaces its content
define stored(t, name, s) = evClose(filled(t, name, s), handle(created(t, name)))

func os.Create(name) (f, err)
  trusted creates or truncates the file; the handle is new
  modifies trace
  ensures event: trace == evCreate(old(trace), name)
  ensures handle: f != nil && ref(f) == handle(trace)
  ensures err: failed(err, trace)

func (*os.File).WriteString(f, s) (n, err)
  trusted writes the whole text or returns an error
  requires f != nil
  modifies trace
  ensures event: trace == evAppend(old(trace), ref(f), s)
  ensures err: failed(err, trace)

func (*os.File).Close(f) (err)
  trusted the content is stored if closing succeeds
  requires f != nil
  modifies trace
  ensures event: trace == evClose(old(trace), ref(f))
  ensures err: failed(err, trace)

func (writer.writer).Write(w, gcode, filename) (err)
  property C23
  modifies trace
  ensures stored: err == nil ==> trace == stored(old(trace), filename, gcode) && errOf(created(old(trace), filename)) == 0 && errOf(filled(old(trace), filename, gcode)) == 0 && errOf(trace) == 0
  ensures reported: errOf(created(old(trace), filename)) != 0 ==> err != nil && leaf(err, 1) == errOf(created(old(trace), filename))
  ensures unwritten: errOf(created(old(trace), filename)) == 0 && errOf(filled(old(trace), filename, gcode)) != 0 ==> err != nil && leaf(err, 1) == errOf(filled(old(trace), filename, gcode))
