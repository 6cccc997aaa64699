----------------------------- MODULE PipelineGen -----------------------------
(***************************************************************************)
(* Random histories of the ideal tools, printed for being replayed with the  *)
(* real ones.  A step is <<tool, file given, file received>>.                 *)
(***************************************************************************)
EXTENDS PipelineMC, Json
VARIABLE hist

GenInit == MCInit /\ hist = <<>>
Log(s) == hist' = Append(hist, s)
GenDo ==
  \E f \in files :
    \/ \E o \in Opts : \/ Step(Compress(f, o, Arc(f, o), 0), {Arc(f, o)}) /\ Log(<<"compress", f, Arc(f, o), o>>)
                       \/ Step(Preprocess(f, o, Pre(f, o), 0), {Pre(f, o)}) /\ Log(<<"preprocess", f, Pre(f, o), o>>)
    \/ f[1] = "arc" /\ Step(Uncompress(f, f[2], 0), {f[2]}) /\ Log(<<"uncompress", f, f[2], 0>>)
    \/ f[1] = "pre" /\ Step(Postprocess(f, f[2], 0), {f[2]}) /\ Log(<<"postprocess", f, f[2], 0>>)
    \/ f[1] \in {"arc", "pre"} /\ Step(Cut(f, CutOf(f)), {CutOf(f)}) /\ Log(<<"cut", f, CutOf(f), 0>>)
    \/ f[1] = "cut" /\ f[2][1] = "arc" /\ Step(UncompressCut(f, 1), {}) /\ Log(<<"refuse-uncompress", f, f, 0>>)
    \/ f[1] = "cut" /\ f[2][1] = "pre" /\ Step(UncompressCut(f, 1), {}) /\ Log(<<"refuse-postprocess", f, f, 0>>)
GenSpec == GenInit /\ [][GenDo]_<<all, hist>>
Show == n = Steps => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
