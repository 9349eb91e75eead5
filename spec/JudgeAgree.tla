---------------------------- MODULE JudgeAgree ----------------------------
(* Judging whether the readers agree (scenarios of kind "agree"). The state   *)
(* is what the walk told; what it has to tell is the matter of other kinds.   *)
EXTENDS AgreeSem, Judge

AgreeInit == {[es |-> <<>>]}
AgreeResults(bg, e, S) ==
  UNION {CASE e.ev = "hang" -> {[o |-> [k |-> "ok", dif |-> {}], v |-> s]}
           [] e.ev = "walked" -> {[o |-> [k |-> "ok", dif |-> {}], v |-> [es |-> e.o.es]]}
           [] e.o.k \in {"panic", "cut"} -> {[o |-> [k |-> "ok", dif |-> {}], v |-> s]}
           [] e.ev = "look" ->
                {[o |-> [k |-> "ok", dif |-> IF LookAgrees(s.es, e.at, e.needle, e.o) THEN {} ELSE {"found"}], v |-> s]}
           [] e.ev = "read" ->
                {[o |-> [k |-> "ok", dif |-> IF e.at = 0 THEN (IF e.o.k = "ok" THEN {"missed"} ELSE {})
                                             ELSE ReadDiffers(s.es[e.at], e.o)], v |-> s]}
           [] e.ev = "node" -> {[o |-> [k |-> "ok", dif |-> NodeDiffers(s.es[e.at], e.o)], v |-> s]} : s \in S}
AgreeMis(ro, o) == IF o.k = "panic" THEN {"panic"} ELSE ro.dif
AgreeFollows(m) == "panic" \notin m
AgreeRel(view) == CASE view = "C22" -> {"panic", "found", "missed", "refused", "b", "fsz", "md", "type"}
                    [] view = "C18" -> {"panic", "md"}
                    [] OTHER -> {}
===========================================================================
