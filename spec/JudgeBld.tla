------------------------------ MODULE JudgeBld ------------------------------
(* Judging tree building (scenarios of kind "bld").                           *)
EXTENDS BuilderSem, Judge

LinkF(ls, f(_)) == TLCEval([i \in DOMAIN ls |-> f(ls[i])])
LName(l) == l.n
LHash(l) == l.h
LSize(l) == l.ts
NodeOkMis(ro, o) ==
  (IF ro.path # o.path THEN {"path"} ELSE {})
  \cup (IF o.cid # o.hash THEN {"hash"} ELSE {})
  \cup (IF ro.ts # o.ts THEN {"total"} ELSE {})
  \cup (IF o.fs.k # "fs" THEN {"bytes", "unreadable"}
        ELSE (IF LinkF(ro.links, LName) # LinkF(o.links, LName) THEN {"names"} ELSE {})
             \cup (IF LinkF(ro.links, LHash) # LinkF(o.links, LHash) THEN {"cids"} ELSE {})
             \cup (IF LinkF(ro.links, LSize) # LinkF(o.links, LSize) THEN {"tsz"} ELSE {})
             \cup (IF ro.node.mode # o.fs.mode \/ ro.node.mt # o.fs.mt THEN {"md"} ELSE {})
             \cup (IF ro.node.t # o.fs.t THEN {"type"} ELSE {})
             \cup (IF ro.block # o.block THEN {"bytes"} ELSE {}))
BldOkMis(ro, o) == IF ro.k # o.k THEN {"ended"}
                   ELSE IF ro.k = "none" \/ "path" \notin DOMAIN o THEN {}
                   ELSE NodeOkMis(ro, o)
BldMis(ro, o) == Mis(ro, o, BldOkMis)
BldFollows(m) == m \cap {"panic", "refused", "missed", "ended", "path", "names"} = {}

(* candidates: of the directories which may come next those with the path observed *)
BldNext(v, bg, o) ==
  LET R  == Ready(v, bg.wrap)
      at == IF o.k = "ok" THEN {d \in R : PathOf(d) = o.path} ELSE {}
      lk == TLCEval([d \in R |-> LinkF(LinksOf(v, d, bg.cids), LName)])
      nm == IF o.k = "ok" THEN {d \in R : lk[d] = LinkF(o.links, LName)} ELSE {}
  IN IF at # {} THEN at ELSE IF nm # {} THEN nm ELSE R
BldResults(bg, e, S) ==
  CASE e.ev = "hang" -> {[o |-> Er("*"), v |-> v] : v \in S}
    [] e.ev = "put"  -> UNION {PutResults(v, e.path, e.to, e.ts, bg.wrap) : v \in S}
    [] e.ev = "meta" -> UNION {MetaResults(v, e.path, [mode |-> e.mode, mt |-> e.mt], bg.wrap) : v \in S}
    [] e.ev = "node" -> UNION {NextNode(v, bg.wrap, bg.cids, bg.limit,
                                        IF e.o.k = "ok" THEN e.o.cid ELSE <<>>, BldNext(v, bg, e.o)) : v \in S}

BldRel(view, e) ==
  CASE view = "C07" -> IF e.ev = "node" THEN {"panic", "names", "cids", "tsz", "path", "ended"}
                       ELSE {"panic", "refused", "missed"}
    [] view = "C08" -> IF e.ev = "node" THEN {"panic"} ELSE {"panic", "refused", "missed", "err", "detail"}
    [] view = "C09" -> IF e.ev = "node"
                       THEN {"panic", "refused", "missed", "err", "detail", "ended", "path", "names", "cids", "tsz", "total", "hash", "unreadable"}
                       ELSE {"panic"}
    [] view = "C15" -> {"bytes", "hash", "type", "unreadable"}
    [] view = "C18" -> {"md"}
    [] view = "C20" -> {"panic", "refused", "missed", "ended", "path", "names", "cids"}
    [] OTHER -> {}
=============================================================================
