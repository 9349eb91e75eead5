----------------------------- MODULE JudgeTree -----------------------------
(* Judging whole trees (scenarios of kind "tree").                            *)
EXTENDS TreeSem, Judge

TreePut(bg, e, t) ==
  LET es == bg.ents
      rs == IF es[e.i].kind = "dir" THEN MetaResults(t.v, e.path, [mode |-> e.mode, mt |-> e.mt], bg.wrap)
            ELSE PutResults(t.v, e.path, e.i, Zero, bg.wrap)
  IN {[o |-> r.o, v |-> [t EXCEPT !.v = r.v]] : r \in rs}
(* one of the directories whose directories have all been emitted                  *)
TreeNode(bg, e, t) ==
  LET R == TLCEval(Ready(t.v, bg.wrap))
      hit == IF e.o.k = "ok" THEN {d \in R : PathOf(d) = e.o.path} ELSE {}
      id == IF e.o.k = "ok" THEN e.o.id ELSE 0
  IN IF R = {} THEN {[o |-> [k |-> "none"], v |-> t]}
     ELSE {[o |-> [k |-> "ok", path |-> PathOf(d)],
            v |-> [t EXCEPT !.ids = (d :> id) @@ @, !.v.emitted = (d :> [cid |-> <<>>, ts |-> Zero]) @@ @]]
             : d \in IF hit = {} THEN R ELSE hit}
TreeBegin(bg, t) ==
  LET w == TLCEval(StartWalk(t, bg.ents, bg.wrap, bg.name)) IN
  {[o |-> [k |-> "ok", cont |-> TRUE, id |-> IdAt(t, bg.ents, TopOf(t.v, bg.wrap))], v |-> w]}
TreeNext(bg, e, t) ==
  IF t.st # "walk" THEN {[o |-> Er("Over"), v |-> t]}
  ELSE {TreeStep(t, bg.ents, IF e.o.k = "ok" THEN Opt(e.o.b, <<>>) ELSE <<>>)}
TreeRes(bg, e, t) == {[o |-> Lookup(t, bg.ents, e.dir, e.needle), v |-> t]}
TreeResults(bg, e, S) ==
  UNION {CASE e.ev \in {"hang", "import"} -> {[o |-> [k |-> "ok"], v |-> t]}
           [] e.ev = "put" -> TreePut(bg, e, t)
           [] e.ev = "node" -> TreeNode(bg, e, t)
           [] e.ev = "start" -> TreeBegin(bg, t)
           [] e.ev = "next" -> TreeNext(bg, e, t)
           [] e.ev = "res" -> TreeRes(bg, e, t) : t \in S}

TreeOkMis(ro, o) ==
  IF ro.k # o.k THEN {"ended"}
  ELSE UNION {IF f \notin DOMAIN o \/ o[f] # ro[f] THEN {f} ELSE {} :
                f \in DOMAIN ro \cap {"path", "kind", "id", "b", "first", "last", "fsz", "cont"}}
       \cup (IF "md" \in DOMAIN ro /\ ~(IF ro.kind = "bucket" THEN TRUE ELSE [x \in DOMAIN ro.md |-> MetaObs(ro.md[x])] = o.md)
             THEN {"md"} ELSE {})
TreeMis(ro, o) == Mis(ro, o, TreeOkMis)
TreeFollows(m) == m \cap {"panic", "refused", "missed", "ended", "path", "kind", "b"} = {}
TreeRel(view, e) ==
  CASE view = "C20" -> {"panic", "refused", "missed", "ended", "path", "kind", "id", "b", "first", "last", "fsz", "cont"}
    [] view = "C18" -> {"md"}
    [] OTHER -> {}
=============================================================================
