----------------------------- MODULE JudgeWalk -----------------------------
(* Judging walks (scenarios of kind "walk").                                  *)
EXTENDS WalkSem, JudgeFile

PendMis(ro, o) ==
  (IF ro.cont # o.cont THEN {"cont"} ELSE {})
  \cup (IF ro.pend # o.pend THEN {"pend"} ELSE {})
  \cup (IF ro.pend # <<>> /\ o.pend # <<>> /\ ro.pend[1] # o.pend[1] THEN {"next"} ELSE {})
  \cup (IF o.cont /\ o.pend = <<>> THEN {"usable"} ELSE {})
WalkOkMis(ro, o) ==
  PendMis(ro, o)
  \cup (IF "kind" \notin DOMAIN o THEN {}
        ELSE (IF o.kind \notin ro.kinds THEN {"kind"} ELSE {})
        \cup (IF ro.id # o.id THEN {"id"} ELSE {})
        \cup (IF ro.path # o.path THEN {"path"} ELSE {})
        \cup (IF ~AllIn(o.b, Opt(ro.b, <<>>)) \/ (ro.b = <<>>) # (o.b = <<>>) THEN {"b"} ELSE {})
        \cup (IF ro.first # o.first \/ ro.last # o.last THEN {"flags"} ELSE {})
        \cup (IF ro.fsz # o.fsz THEN {"fsz"} ELSE {})
        \cup (IF [x \in DOMAIN ro.md |-> MetaObs(ro.md[x])] # o.md THEN {"md"} ELSE {}))
WalkMis(ro, o) ==
  (IF ro.k = "any" THEN AnyMis(o) \cup (IF o.k = "ok" /\ o.cont /\ o.pend = <<>> THEN {"usable"} ELSE {})
   ELSE Mis(ro, o, WalkOkMis))
  \cup (IF o.k = "err" /\ o.cont THEN {"cont", "usable"} ELSE {})
WalkFollows(m) == m \cap {"panic", "refused", "missed", "cont", "next"} = {}

WalkInit(bg) == {NewWalk(bg.root, bg.name)}
WalkStep(bg, w) ==
  IF w.st = "wild" THEN AnyResult(w)
  ELSE IF w.st # "active" THEN {}
  ELSE IF NextId(w) \notin DOMAIN bg.nodes THEN {}
  ELSE UNION {OrRefusal(n, w, WalkResults(w, n)) : n \in NodesAt(bg, NextId(w))}
WalkEvResults(bg, e, S) ==
  CASE e.ev = "hang" -> {[o |-> Er("*"), v |-> w] : w \in S}
    [] e.ev = "new"  -> {[o |-> [k |-> "ok", cont |-> TRUE, pend |-> PendIds(w)], v |-> w] : w \in S}
    [] e.ev = "next" -> UNION {WalkStep(bg, w) : w \in S}
WalkDev(bg, S) == "tab" \notin DOMAIN bg /\ \E w \in S : w.st = "active" /\ NextId(w) \in DOMAIN bg.nodes
                               /\ IsFs(bg.nodes[NextId(w)]) /\ UndefinedType(bg.nodes[NextId(w)])

WalkRel(view) ==
  CASE view = "C10" -> {"panic", "refused", "missed", "kind", "id", "path", "b", "flags", "fsz", "cont", "next"}
    [] view = "C11" -> {"panic", "pend", "cont", "next"}
    [] view = "C14" -> {"panic", "refused", "missed", "err", "detail", "kind", "id", "path", "b", "flags", "fsz",
                        "md", "cont", "next", "pend"}
    [] view = "C06" -> {"refused", "missed", "err", "detail"}
    [] view = "C17" -> {"panic", "usable"}
    [] view = "C18" -> {"md", "panic"}
    [] view = "C19" -> {"refused", "missed", "err", "detail"}
    [] view = "C20" -> {"panic", "refused", "missed", "kind", "id", "path", "b", "flags", "fsz", "cont", "next"}
    [] OTHER -> {}
=============================================================================
