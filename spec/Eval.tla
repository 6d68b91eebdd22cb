-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The specification's answer to one observable operation: what an         *)
(* observer must see when operation `op` is applied to input `in`.         *)
(* Replayed cases and recorded traces are both judged by this operator.    *)
(***************************************************************************)
EXTENDS Volumes, Ports, Scalars, Validation, Numerals, Forms, Merge

EvalText(op, s) ==
    CASE op = "image.parse"  -> EvalImageParse(s)
      [] op = "image.name"   -> EvalNameParse(s)
      [] op = "image.tag"    -> EvalTagParse(s)
      [] op = "image.digest" -> EvalDigestParse(s)
      [] op \in Kinds   -> EvalKey(op, s)
      [] op = "range.parse"  -> EvalRange(s)
      [] op = "expose.parse" -> EvalExpose(s)
      [] op = "ranges.parse" -> EvalRanges(s)
      [] op = "port.parse"   -> EvalShortPort(s)
      [] op = "port.expand"  -> EvalExpand(s)
      [] op \in RefOps -> EvalRef(op, s)
      [] op \in VolumeOps -> EvalVolume(op, s)
      [] op = "duration.parse" -> EvalDuration(s)
      [] op = "bytes.parse" -> EvalBytes(s)
      [] op \in LimitKinds -> EvalLimit(op, s)
      [] op = "cpus.parse" -> EvalCpus(s)
      [] op \in ScalarOps -> EvalScalarText(op, s)

\* Texts on which the implementation is not tried (see ModerateCpus).
Tractable(op, s) ==
    CASE op = "cpus.parse" -> ModerateCpus(s)
      [] op \in ScalarOps -> TractableScalar(s)
      \* With a colon it may be a URL.
      [] op = "context.path" -> First(Chars(s), ":") = 0
      [] OTHER -> TRUE
\* Whether the text printed for a text stands for the same again: a scalar parsed and
\* printed may be a number of another type (5. prints as 5).
Faithful(op) == op \notin ScalarOps

Eval(op, in) ==
    CASE op = "image.edits" -> EvalImageEdits(in.s, in.es)
      [] op = "image.selfconsistent" -> [consistent |-> TRUE]
      [] op = "range.new" -> EvalRangeNew(in.s, in.e)
      [] op = "range.shift" -> EvalRangeShift(in.s, in.e, in.k)
      [] op = "port.int" -> EvalPortInt(in.k, in.n)
      [] op = "port.shorten" -> EvalShorten(in)
      [] op = "port.edits" -> EvalPortEdits(in.s, in.es)
      [] op = "duration.of" -> EvalDurationOf(in.secs, in.nanos)
      [] op = "context.url" -> EvalContextUrl(in)
      [] op = "volume.shorten" -> EvalVolumeShorten(in)
      [] op = "path.edits" -> EvalPathEdits(in.kind, in.s, in.es)
      [] op = "compose.validate" -> EvalValidate(in)
      [] op = "kw.read" -> EvalKeyword(in.set, in.s)
      [] op = "kw.default" -> EvalKeywordDefault(in.set)
      [] op \in {"empty.of", "forms.of", "forms.items", "forms.envfile"} -> EvalForm(op, in)
      [] op = "merge.read" -> EvalMerge(in.merge, in.tree)
      \* There is always an answer (see Anything).
      [] op \in {"total.text", "total.yaml", "total.tree", "total.cpus"} -> [answers |-> TRUE]
      [] op = "value.of" -> EvalScalarOf(in)
      [] op = "value.read" -> EvalScalarRead(in)
      [] OTHER -> EvalText(op, in.s)

\* Whether an outcome is one that the specification allows.
Conforms(op, in, out) ==
    CASE op = "compose.validate" -> ConformsValidate(out, in)
      [] op \in ScalarOps /\ ~TractableScalar(in.s) -> TRUE
      [] OTHER -> out = Eval(op, in)
=============================================================================
