------------------------------ MODULE JudgeRes ------------------------------
(* Judging lookups (scenarios of kind "res").                                 *)
EXTENDS ResolveSem, JudgeFile

ResOkMis(ro, o) ==
  IF ro.k # o.k THEN {"outcome"}
  ELSE (IF ro.id # o.id THEN {"id"} ELSE {})
       \cup (IF ro.pend # o.pend THEN {"pend"} ELSE {})
       \cup (IF ro.k = "more" /\ ro.pend[1][1] # o.pend[1][1] THEN {"next"} ELSE {})
ResMis(ro, o) == IF ro.k = "any" THEN AnyMis(o) ELSE Mis(ro, o, ResOkMis)
ResFollows(m) == m \cap {"panic", "refused", "missed", "outcome", "next"} = {}

ResNode(bg, v) == IF v.st = "more" THEN Head(v.queue) ELSE bg.root
ResEvResults(bg, e, S) ==
  CASE e.ev = "hang" -> {[o |-> Er("*"), v |-> v] : v \in S}
    [] OTHER -> UNION { LET id == ResNode(bg, v) IN
                        IF v.st = "wild" THEN AnyResult(v)
                        ELSE IF id \notin DOMAIN bg.nodes \/ (e.ev = "more") # (v.st = "more") THEN {}
                        ELSE UNION {OrRefusal(n, v, IF e.ev = "more" THEN ContLookupResults(v, n, bg.needle)
                                                     ELSE ResolveResults(v, n, bg.needle)) : n \in NodesAt(bg, id)}
                        : v \in S }
ResRel(view) ==
  CASE view \in {"C12", "C13"} -> {"panic", "refused", "missed", "err", "detail", "outcome", "id", "pend", "next"}
    [] view = "C14" -> {"panic", "refused", "missed", "err", "detail", "outcome", "id", "pend", "next"}
    [] view = "C17" -> {"panic"}
    [] view = "C19" -> {"refused", "missed", "err", "detail"}
    [] OTHER -> {"panic", "refused", "missed", "outcome", "id"}
=============================================================================
