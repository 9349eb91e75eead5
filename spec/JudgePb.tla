------------------------------- MODULE JudgePb -------------------------------
(* Judging the dag-pb helpers (kind "pb") and serialize_symlink_block ("sym"). *)
EXTENDS Judge

PbInit(bg) == LET d == DecodeNode(bg.block) IN
              {[d |-> d, f |-> IF d.st = "bad" THEN [st |-> "bad"] ELSE DecodeFs(Opt(d.data, <<>>))]}
PbResults(bg, e, S) ==
  LET v == CHOOSE x \in S : TRUE
      R == CASE e.ev = "data" -> NodeDataResults(v.d)
             [] e.ev = "wrap" -> WrapResults(v.d, bg.block)
             [] e.ev = "flat" -> FlatResults(v.d, v.f)
             [] e.ev = "node" -> NodeResults(v.d)
             [] e.ev = "ufs" -> UnixFsResults(DecodeFs(Opt(e.d, <<>>)))
             [] e.ev = "out" -> WriteResults(e.what, e.val)
             [] e.ev = "back" -> ReadBackResults(e.val)
             [] OTHER -> {Er("*")}
  IN {[o |-> r, v |-> v] : r \in R}
(* type numbers which are not defined are reported as Raw *)
FsSame(ro, o) == ro.fs = o.fs \/ (UndefinedType(ro.fs) /\ [ro.fs EXCEPT !.t = <<RAW>>] = o.fs)
PbOkMis(ro, o) ==
  IF "size" \in DOMAIN ro THEN (IF ro.size # o.size THEN {"size"} ELSE {}) \cup (IF ro.b # o.b THEN {"bytes"} ELSE {})
  ELSE IF "fs" \in DOMAIN ro THEN (IF ~FsSame(ro, o) THEN {"fs"} ELSE {})
                               \cup (IF "links" \in DOMAIN ro /\ ro.links # o.links THEN {"links"} ELSE {})
  ELSE (IF ro.d # o.d THEN {"data"} ELSE {})
       \cup (IF "links" \in DOMAIN ro /\ ro.links # o.links THEN {"links"} ELSE {})
       \cup (IF "inner" \in DOMAIN ro /\ (ro.inner # o.inner \/ ro.inner # o.into \/ ~o.eq) THEN {"inner"} ELSE {})
PbMis(ro, o) == IF o.k = "panic" THEN {"panic"}
                ELSE IF ro.k = "any" THEN {}
                ELSE Mis(ro, o, PbOkMis)
PbFollows(m) == TRUE
PbRel(view, e) ==
  CASE view = "C16" /\ e.ev \in {"data", "wrap"} -> {"panic", "refused", "missed", "data", "inner"}
    [] view = "C15" /\ e.ev = "flat" -> {"panic", "refused", "missed", "err", "fs", "links"}
    [] view = "C21" /\ e.ev \in {"flat", "node", "ufs", "out", "back"} ->
         {"panic", "refused", "missed", "err", "fs", "links", "data", "size", "bytes"}
    [] view = "C17" -> {"panic"}
    [] OTHER -> {}
(* values of the node types (kind "val") are judged event by event, without a state        *)
ValInit == {[d |-> [st |-> "bad"], f |-> [st |-> "bad"]]}

(* --- symlinks ----------------------------------------------------------------------------- *)
SymNode(target) == [k |-> "fs", t |-> <<SYMLINK>>, d |-> <<target>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>, fo |-> <<>>,
                    mode |-> <<>>, mt |-> <<>>]
SymBlock(target) == EncNode(SymNode(target), <<>>)
SymResults(bg, e, S) ==
  {[o |-> CASE e.ev = "sym" -> [k |-> "ok", buf |-> v \o SymBlock(e.target)]
            [] e.ev = "read" -> [k |-> "ok", target |-> e.target]
            [] OTHER -> Er("*"),
    v |-> IF e.ev = "sym" THEN v \o SymBlock(e.target) ELSE v] : v \in S}
SymOkMis(ro, o) == IF "buf" \in DOMAIN ro THEN (IF ro.buf # o.buf THEN {"bytes"} ELSE {})
                   ELSE IF ro.target # o.target THEN {"target"} ELSE {}
SymMis(ro, o) == Mis(ro, o, SymOkMis)
SymFollows(m) == m = {}
SymRel(view) == CASE view = "C15" -> {"panic", "bytes", "refused", "target"} [] view = "C20" -> {"panic", "refused", "target"} [] OTHER -> {}
=============================================================================
