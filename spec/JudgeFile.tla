----------------------------- MODULE JudgeFile -----------------------------
(* Judging file visits (scenarios of kind "file").                            *)
EXTENDS FileSem, Judge

(* reading a node with an undefined type as Raw is a known deviation, refusing it fine *)
OrRefusal(n, v, R) == IF n.k = "wild" THEN AnyResult(Wild(v))
                      ELSE IF IsFs(n) /\ UndefinedType(n)
                      THEN R \cup {[o |-> Er("*"), v |-> Failed(v)]} ELSE R

FileOkMis(ro, o) ==
  (IF ro.b # o.b THEN {"b"} ELSE {})
  \cup (IF (ro.pend = <<>>) # (o.pend = <<>>) THEN {"cont"}
        ELSE IF ro.pend # o.pend THEN {"pend"} ELSE {})
  \cup (IF ~AllIn(o.fsz, ro.fsz) THEN {"fsz"} ELSE {})
  \cup (IF ~AllIn(o.md, MetaObs(ro.md)) THEN {"md"} ELSE {})

FileMis(ro, o) == IF ro.k = "any" THEN AnyMis(o) ELSE Mis(ro, o, FileOkMis)
FileFollows(m) == m \cap {"panic", "refused", "missed", "cont", "pend"} = {}

FileInit(bg, lenient) == {IdleVisit(pol) : pol \in IF lenient THEN Policies ELSE {CodePolicy}}
FileStepNode(bg, v) == IF v.st = "active" THEN Head(v.pend).to ELSE bg.root

FileResults(bg, e, S) ==
  CASE e.ev = "hang" -> {[o |-> Er("*"), v |-> v] : v \in S}
    [] e.ev = "start" -> UNION {UNION {OrRefusal(n, v, StartResults(v, n, bg.range)) : n \in NodesAt(bg, bg.root)} : v \in S}
    [] e.ev = "cont"  -> UNION { IF v.st = "wild" THEN AnyResult(v)
                                 ELSE IF v.st # "active" THEN {}
                                 ELSE IF Head(v.pend).to \notin DOMAIN bg.nodes THEN {}
                                 ELSE UNION {OrRefusal(n, v, ContResults(v, n, bg.range)) : n \in NodesAt(bg, Head(v.pend).to)}
                                 : v \in S }
FileDev(bg, S) == \E v \in S : LET id == FileStepNode(bg, v) IN
                     "tab" \notin DOMAIN bg /\ id \in DOMAIN bg.nodes /\ IsFs(bg.nodes[id]) /\ UndefinedType(bg.nodes[id])

FileRel(view, wf) ==
  CASE view = "C01" -> {"panic", "refused", "b", "pend", "cont", "fsz"}
    [] view = "C05" -> IF wf THEN {"panic", "refused", "b", "pend", "cont", "fsz"} ELSE {}
    [] view = "C06" -> {"refused", "missed", "err", "detail"} \cup (IF wf THEN {} ELSE {"b", "panic"})
    [] view = "C11" -> {"panic", "pend", "cont"}
    [] view = "C14" -> {"panic", "refused", "missed", "err", "detail", "b", "pend", "cont", "fsz", "md"}
    [] view = "C17" -> {"panic"}
    [] view = "C18" -> {"md", "panic"}
    [] view = "C19" -> {"refused", "missed", "err", "detail"}
    [] OTHER -> {}
=============================================================================
