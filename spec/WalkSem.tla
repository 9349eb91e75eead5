------------------------------ MODULE WalkSem ------------------------------
(* Semantics of Walker: a depth-first walk over directories, HAMT-sharded     *)
(* directories, files and symlinks. Pending items carry the full path of the  *)
(* entry; the items of sub-shards (buckets) carry the path of the directory   *)
(* they belong to.                                                            *)
EXTENDS FileSem

(* walk states: [st, first, items, vis, item]                                  *)
(*   items  Seq of [to, path, bk], vis the visit of the file being read        *)
(*   (idle when none), item the item of that file                              *)
NewWalk(root, name) ==
  [st |-> "active", first |-> TRUE, items |-> << [to |-> root, path |-> name, bk |-> FALSE] >>,
   vis |-> IdleVisit(CodePolicy), item |-> [to |-> 0, path |-> <<>>, bk |-> FALSE]]

SLASH == 47
Join(p, name) == IF p = <<>> THEN name
                 ELSE IF p[Len(p)] = SLASH THEN p \o name
                 ELSE p \o <<SLASH>> \o name
IsSegment(name) == name # <<>> /\ name # <<46>> /\ \A i \in 1..Len(name) : name[i] # SLASH

(* ids of the blocks to be loaded, the next one first *)
PendIds(w) == TLCEval(IF w.st # "active" THEN <<>>
              ELSE [i \in 1..Len(w.vis.pend) |-> w.vis.pend[i].to]
                   \o [i \in 1..Len(w.items) |-> w.items[i].to])

(* --- refusals --------------------------------------------------------------- *)
ParseErrs(n) == CASE n.k \in {"none", "empty"} -> {Er("ReadNone")}
                  [] n.k = "bad" -> {Er("DagPb")}
                  [] n.k = "raw" -> {Er("UnixFs")}
                  [] OTHER -> {}
DirD(n) == [sz |-> n.sz, bs |-> n.bs, ht |-> n.ht, fo |-> n.fo, data |-> n.d]
DirErrs(n) == IF n.sz # <<>> \/ n.bs # <<>> \/ n.ht # <<>> \/ n.fo # <<>> \/ DataOf(n) # <<>>
              THEN {ErD("UnsupportedDirectory", DirD(n))} ELSE {}
ShardErrs(n) ==
  (IF n.fo # << U(256) >> \/ n.ht # << U(34) >>
   THEN {ErD("ShardUnsupported", [ht |-> n.ht, fo |-> n.fo])} ELSE {})
  \cup (IF n.sz # <<>> \/ n.bs # <<>>
        THEN {ErD("ShardUnexpected", [sz |-> n.sz, bs |-> n.bs])} ELSE {})
CidErrs(n) == {BadCid(n.l, i) : i \in {j \in 1..Len(n.l) : ~ValidCid(n.l[j])}}
(* names which cannot extend a path; the kind of error is not specified         *)
NameErrs(n) == IF \E i \in 1..Len(n.l) : ~IsSegment(NameOf(n.l[i])) THEN {Er("*")} ELSE {}
(* names in shards are a two byte prefix, followed by the name of the entry     *)
IsBucket(lk)  == Len(NameOf(lk)) = 2
Boundary(s)   == s[3] < 128 \/ s[3] >= 192  \* a character starts at the third byte
EntryName(lk) == SubSeq(NameOf(lk), 3, Len(NameOf(lk)))
ShardNameErrs(n) ==
  IF \E i \in 1..Len(n.l) : ~IsBucket(n.l[i]) /\
        (Len(NameOf(n.l[i])) < 2 \/ ~Boundary(NameOf(n.l[i])) \/ ~IsSegment(EntryName(n.l[i])))
  THEN {Er("*")} ELSE {}

(* the parsing errors of a file block are reported as dag-pb or UnixFS ones     *)
AsWalkErr(e) == IF e.e = "Read" THEN {Er("DagPb"), Er("UnixFs")} ELSE {e}

(* --- results ----------------------------------------------------------------- *)
WFail(w, errs) == {[o |-> e, v |-> [w EXCEPT !.st = "failed"]] : e \in errs}
WObs(kinds, it, w) ==
  [k |-> "ok", kinds |-> kinds, id |-> it.to, path |-> it.path, md |-> <<>>, b |-> <<>>,
   first |-> TRUE, last |-> TRUE, fsz |-> <<>>, cont |-> w.st = "active", pend |-> PendIds(w)]
WSettle(w) == [w EXCEPT !.st = IF w.items = <<>> /\ w.vis.st # "active" THEN "done" ELSE "active"]

FileEvent(w, x, first) ==  \* x: result of the file visit
  IF x.o.k = "err" THEN WFail(w, AsWalkErr(x.o))
  ELSE LET v == TLCEval(WSettle([w EXCEPT !.vis = x.v, !.first = FALSE])) IN
       {[o |-> [WObs({"file"}, v.item, v) EXCEPT
                   !.b = <<x.o.b>>, !.first = first, !.last = (x.v.st # "active"),
                   !.fsz = <<x.v.fsz>>, !.md = <<x.v.md>>], v |-> v]}

NodeStep(w, n) ==
  LET it   == Head(w.items)
      rest == Tail(w.items)
      perr == ParseErrs(n)
      berr == IF it.bk /\ TypeOf(n) # HAMT THEN {ErD("UnexpectedType", TypeD(n))} ELSE {}
      done(errs, kinds, items, md, b) ==
        IF errs \cup berr # {} THEN WFail(w, errs \cup berr)
        ELSE LET v == TLCEval(WSettle([w EXCEPT !.items = items, !.first = FALSE])) IN
             {[o |-> [WObs(kinds, it, v) EXCEPT !.md = md, !.b = b], v |-> v]}
  IN
  IF perr # {} THEN WFail(w, perr)
  ELSE CASE TypeOf(n) = DIR ->
              done(TLCEval(DirErrs(n) \cup CidErrs(n) \cup NameErrs(n)),
                   IF w.first THEN {"root"} ELSE {"dir"},
                   [i \in 1..Len(n.l) |-> [to |-> n.l[i].to, path |-> Join(it.path, NameOf(n.l[i])), bk |-> FALSE]] \o rest,
                   <<MetaOf(n)>>, <<>>)
         [] TypeOf(n) = HAMT ->
              done(TLCEval(ShardErrs(n) \cup CidErrs(n) \cup ShardNameErrs(n)),
                   IF w.first THEN {"root"} ELSE IF it.bk THEN {"bucket"} ELSE {"root", "dir"},
                   [i \in 1..Len(n.l) |->
                      IF IsBucket(n.l[i]) THEN [to |-> n.l[i].to, path |-> it.path, bk |-> TRUE]
                      ELSE [to |-> n.l[i].to, path |-> Join(it.path, EntryName(n.l[i])), bk |-> FALSE]] \o rest,
                   IF it.bk THEN <<>> ELSE <<MetaOf(n)>>, <<>>)
         [] TypeOf(n) = SYMLINK -> done({}, {"symlink"}, rest, <<MetaOf(n)>>, <<DataOf(n)>>)
         [] TypeOf(n) = META -> done({ErD("UnsupportedType", TypeD(n))}, {}, <<>>, <<>>, <<>>)
         [] OTHER -> IF berr # {} THEN WFail(w, berr)
                     ELSE LET w1 == [w EXCEPT !.items = rest, !.item = it] IN
                          UNION {FileEvent(w1, x, TRUE) : x \in StartResults(IdleVisit(CodePolicy), n, <<>>)}

(* the id of the block the next step consumes *)
NextId(w) == IF w.vis.st = "active" THEN Head(w.vis.pend).to ELSE Head(w.items).to
WalkResults(w, n) ==
  IF w.vis.st = "active" THEN UNION {FileEvent(w, x, FALSE) : x \in ContResults(w.vis, n, <<>>)}
  ELSE NodeStep(w, n)

(* --- declarative meaning -------------------------------------------------------- *)
(* the list of the blocks below the item in the order they are to be visited: each   *)
(* [id, kind, path, first, last, up] with up the position of the linking block       *)
RECURSIVE Events(_, _, _, _, _, _)
Events(dag, id, kind, path, up, at) ==  \* at: position of this block
  LET n == dag[id]
      chain(items) ==  \* the concatenated events of items, keeping positions
        FoldLeft(LAMBDA acc, x : acc \o Events(dag, x.to, x.kind, x.path, at, at + Len(acc)),
                 << [id |-> id, kind |-> kind, path |-> path, first |-> TRUE, last |-> TRUE, up |-> up] >>, items)
      sub(lk, p) == LET t == TypeOf(dag[lk.to]) IN
                    [to |-> lk.to, path |-> p,
                     kind |-> CASE t = DIR -> "dir" [] t = HAMT -> "hamt" [] t = SYMLINK -> "symlink" [] OTHER -> "file"]
  IN CASE TypeOf(n) = DIR -> chain([i \in 1..Len(n.l) |-> sub(n.l[i], Join(path, NameOf(n.l[i])))])
       [] TypeOf(n) = HAMT -> chain([i \in 1..Len(n.l) |->
              IF IsBucket(n.l[i]) THEN [to |-> n.l[i].to, path |-> path, kind |-> "bucket"]
              ELSE sub(n.l[i], Join(path, EntryName(n.l[i])))])
       [] TypeOf(n) = SYMLINK -> chain(<<>>)
       [] OTHER -> LET fs == Spans(dag, id, Zero) IN
                   [i \in 1..Len(fs) |-> [id |-> fs[i].id, kind |-> "file", path |-> path,
                                          first |-> i = 1, last |-> i = Len(fs),
                                          up |-> IF i = 1 THEN up ELSE at + fs[i].up - 1]]
=============================================================================
