------------------------------ MODULE FileSem ------------------------------
(* Semantics of a file visit (IdleFileVisit / FileVisit), shaped after the    *)
(* implementation: a stack of pending links with the byte ranges the parents  *)
(* declared for them, plus the ending of the previously processed block.      *)
(*                                                                            *)
(* StartResults / ContResults give the set of allowed results of one call,    *)
(* each [o |-> observation, v |-> new visit state].                           *)
EXTENDS Nodes

(* visit states: [st |-> "idle"|"active"|"done"|"failed", pol, pend, end, off, fsz, *)
(* md]; pol is the policy for blocks which only touch the target range             *)
IdleVisit(pol) == [st |-> "idle", pol |-> pol, pend |-> <<>>, end |-> [k |-> "none", v |-> Zero],
                off |-> Zero, fsz |-> Zero, md |-> [mode |-> <<>>, mt |-> <<>>]]

(* --- which links are of interest for a target range ------------------------- *)
Overlaps(lo, hi, r) == r = <<>> \/ Lt(UMax(lo, r[1][1]), UMin(hi, r[1][2]))
Touches(lo, hi, r)  == r = <<>> \/ Le(UMax(lo, r[1][1]), UMin(hi, r[1][2]))

(* --- conditions under which a block is refused ------------------------------- *)
LinkStart(n, off, i) == Add(off, USumTo(n.bs, i - 1))
FileSize(n) == Opt(n.sz, U(Len(DataOf(n))))

(* every violated condition is a valid reason, with its detail *)
BlockErrs(n, off, nonroot) ==
  IF n.k \in {"none", "empty"} THEN {Er("ReadNone")}
  ELSE IF n.k # "fs" THEN {Er("Read")}
  ELSE (IF TypeOf(n) \notin {RAW, FILE} THEN {ErD("UnexpectedType", TypeD(n))} ELSE {})
       \cup (IF Len(n.l) # Len(n.bs) THEN {Er("LinksAndBlocksizesMismatch")} ELSE {})
       \cup (IF DataOf(n) = <<>> /\ n.l = <<>> /\ Opt(n.sz, Zero) # Zero
             THEN {Er("NoLinksNoContent")} ELSE {})
       \cup (IF n.ht # <<>> \/ n.fo # <<>>
             THEN {ErD("UnexpectedRawOrFileProperties", [ht |-> n.ht, fo |-> n.fo])} ELSE {})
       \cup (IF n.l # <<>> /\ n.sz = <<>> THEN {Er("IntermediateNodeWithoutFileSize")} ELSE {})
       \cup (IF ~Fits(Add(off, FileSize(n))) \/ ~Fits(Add(off, USum(n.bs)))
             THEN {Er("TreeExpandsOnLinks")} ELSE {})
       \cup (IF nonroot /\ HasMeta(n) THEN {ErD("NonRootDefinesMetadata", MetaObs(MetaOf(n)))} ELSE {})

(* position of the next block against the ending of the previous block *)
PosErrs(v, lo, hi) ==
  IF v.end.k = "chunk"
  THEN IF lo # v.end.v THEN {Er("TreeJumpsBetweenLinks")} ELSE {}
  ELSE (IF Le(lo, v.off) /\ Lt(v.end.v, hi) THEN {Er("TreeExpandsOnLinks")} ELSE {})
       \cup (IF Lt(v.off, lo) /\ Lt(lo, v.end.v) /\ Lt(v.end.v, hi)
             THEN {Er("TreeOverlapsBetweenLinks")} ELSE {})
       \cup (IF Lt(lo, v.off) THEN {Er("EarlierLink")} ELSE {})

(* --- content ------------------------------------------------------------------ *)
(* the part of the content of a block covering lo..hi which is in the target range *)
SliceFor(data, lo, hi, r) ==
  IF r = <<>> THEN data
  ELSE IF ~Touches(lo, hi, r) THEN <<>>
  ELSE LET s == IMin(Clip(Sub(UMax(lo, r[1][1]), lo)), Len(data))
           e == IMin(Clip(Sub(UMin(hi, r[1][2]), lo)), Len(data))
       IN  SubSeq(data, s + 1, e)

(* sets of link indices the visit may descend into: all overlapping the target,   *)
(* and any of those which only touch it. The implementation takes all touching.   *)
(* ranges <<lo, hi>> of the links                                                  *)
LinkRanges(n, off) ==
  FoldLeft(LAMBDA acc, x : LET lo == IF acc = <<>> THEN off ELSE acc[Len(acc)][2]
                           IN  Append(acc, <<lo, Add(lo, x)>>),
           <<>>, SubSeq(n.bs, 1, Len(n.l)))
(* Blocks overlapping the target range are always visited. Those only touching it   *)
(* are visited depending on the policy: "L" ending where it starts, "R" starting    *)
(* where it ends, "Z" empty ones within. The implementation visits all of them.      *)
Wanted(lo, hi, r, pol) ==
  \/ Overlaps(lo, hi, r)
  \/ /\ Touches(lo, hi, r)
     /\ IF hi = r[1][1] /\ lo # r[1][2] THEN "L" \in pol
        ELSE IF lo = r[1][2] /\ hi # r[1][1] THEN "R" \in pol
        ELSE "Z" \in pol
CodePolicy == {"L", "R", "Z"}
Policies   == SUBSET CodePolicy
Selected(rs, r, pol) == TLCEval({i \in DOMAIN rs : Wanted(rs[i][1], rs[i][2], r, pol)})

PendingOf(n, rs, sel) ==
  FilterIdx([i \in 1..Len(n.l) |-> [to |-> n.l[i].to, lo |-> rs[i][1], hi |-> rs[i][2]]], sel)

(* --- results -------------------------------------------------------------------- *)
(* pend: <<>> when the visit ended, <<ids>> when it continues with these ids *)
OkObs(b, v) == [k |-> "ok", b |-> b,
                pend |-> IF v.st = "active" THEN << TLCEval([i \in 1..Len(v.pend) |-> v.pend[i].to]) >> ELSE <<>>,
                fsz |-> v.fsz, md |-> v.md]

Failed(v) == [v EXCEPT !.st = "failed"]
Fail(v, errs) == {[o |-> e, v |-> Failed(v)] : e \in errs}

Settle(v) == [v EXCEPT !.st = IF v.pend = <<>> THEN "done" ELSE "active"]

(* processes the block n at offset off (the parent declared lo..hi for it) when it  *)
(* has no errors; rest are the pending links after it; v0 carries fsz and md        *)
Process(v0, n, off, hi, rest, r) ==
  IF n.l = <<>>
  THEN LET v == TLCEval(Settle([v0 EXCEPT !.pend = rest, !.off = off,
                                  !.end = [k |-> "chunk", v |-> Add(off, FileSize(n))]]))
       IN {[o |-> OkObs(SliceFor(DataOf(n), off, hi, r), v), v |-> v]}
  ELSE LET rs  == LinkRanges(n, off)
           sel == Selected(rs, r, v0.pol)
       IN IF \E i \in sel : ~ValidCid(n.l[i])
          THEN Fail(v0, {BadCid(n.l, i) : i \in {j \in sel : ~ValidCid(n.l[j])}})
          ELSE LET v == TLCEval(Settle([v0 EXCEPT !.pend = PendingOf(n, rs, sel) \o rest,
                                               !.off = off,
                                               !.end = [k |-> "tree", v |-> Add(off, FileSize(n))]]))
               IN {[o |-> OkObs(<<>>, v), v |-> v]}

StartResults(v, n, r) ==
  LET errs == TLCEval(BlockErrs(n, Zero, FALSE)) IN
  IF errs # {} THEN Fail(v, errs)
  ELSE Process([v EXCEPT !.fsz = FileSize(n), !.md = MetaOf(n)],
               n, Zero, U(Len(DataOf(n))), <<>>, r)

ContResults(v, n, r) ==
  LET nx   == Head(v.pend)
      errs == TLCEval(PosErrs(v, nx.lo, nx.hi) \cup BlockErrs(n, nx.lo, TRUE))
  IN  IF errs # {} THEN Fail(v, errs)
      ELSE Process(v, n, nx.lo, nx.hi, Tail(v.pend), r)

(* --- declarative meaning of well-formed files ------------------------------------ *)
(* content of the file below id, spans and the blocks touched by a range             *)
RECURSIVE ContentOf(_, _)
ContentOf(dag, id) ==
  IF dag[id].l = <<>> THEN DataOf(dag[id])
  ELSE Flatten([i \in 1..Len(dag[id].l) |-> ContentOf(dag, dag[id].l[i].to)])

(* what a well-formed file asks of one of its blocks *)
BlockFormed(dag, id, root) ==
  LET n == dag[id] IN
  /\ IsFs(n) /\ TypeOf(n) \in {RAW, FILE}
  /\ n.ht = <<>> /\ n.fo = <<>>
  /\ root \/ ~HasMeta(n)
  /\ Len(n.l) = Len(n.bs)
  /\ IF n.l = <<>> THEN n.sz \in {<<>>, << U(Len(DataOf(n))) >>}
     ELSE /\ n.sz = << USum(n.bs) >>
          /\ \A i \in 1..Len(n.l) :
               /\ n.l[i].to \in DOMAIN dag
               /\ n.bs[i] = FileSize(dag[n.l[i].to])
RECURSIVE BelowFormed(_, _)
BelowFormed(dag, id) ==
  \A i \in 1..Len(dag[id].l) : /\ BlockFormed(dag, dag[id].l[i].to, FALSE)
                               /\ BelowFormed(dag, dag[id].l[i].to)
(* shared blocks are looked at once when all of the blocks are as they should be *)
WellFormed(dag, id, root) ==
  /\ BlockFormed(dag, id, root)
  /\ \/ \A x \in DOMAIN dag : x = id \/ BlockFormed(dag, x, FALSE)
     \/ BelowFormed(dag, id)

(* preorder list of [id, lo, hi, up] of all blocks below id; up is the position of  *)
(* the linking block in that list                                                    *)
RECURSIVE SpansFrom(_, _, _, _, _)
SpansFrom(dag, id, lo, up, at) ==
  LET n == dag[id] IN
  FoldLeft(LAMBDA acc, i : acc \o SpansFrom(dag, n.l[i].to, LinkStart(n, lo, i), at, at + Len(acc)),
           << [id |-> id, lo |-> lo, hi |-> Add(lo, FileSize(n)), up |-> up] >>,
           [i \in 1..Len(n.l) |-> i])
Spans(dag, id, lo) == SpansFrom(dag, id, lo, 0, 1)
=============================================================================
