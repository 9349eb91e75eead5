----------------------------- MODULE ResolveSem -----------------------------
(* Semantics of dir::resolve and ShardedLookup: looking up one name in a      *)
(* plain dag-pb node, a directory or a HAMT-sharded directory.                *)
EXTENDS WalkSem

(* lookup states: [st |-> "idle"|"more"|"done"|"failed", queue |-> ids]         *)
NewLookup == [st |-> "idle", queue |-> <<>>]

ResObs(k, id, queue) == [k |-> k, id |-> id, pend |-> IF k = "more" THEN <<queue>> ELSE <<>>]
LFail(v, errs) == {[o |-> e, v |-> [v EXCEPT !.st = "failed"]] : e \in errs}
LDone(v, k, id) == {[o |-> ResObs(k, id, <<>>), v |-> [v EXCEPT !.st = "done"]]}

(* errors for the links at the indices M all matching the name                  *)
MatchErrs(l, M) ==
  IF M = {} THEN {}
  ELSE LET i == MinOf(M)  R == M \ {i} IN
       IF R = {} THEN (IF ValidCid(l[i]) THEN {} ELSE {BadCid(l, i)})
       ELSE LET j == MinOf(R)
                one(a, c) == ErD("MultipleOneValid", [i |-> a - 1, a |-> l[a].to, j |-> c - 1, bad |-> BadCidD(l, c)])
            IN CASE ValidCid(l[i]) /\ ValidCid(l[j]) ->
                      {ErD("Multiple", [i |-> i - 1, a |-> l[i].to, j |-> j - 1, b |-> l[j].to])}
                 [] ValidCid(l[i]) -> {one(i, j)}
                 [] ValidCid(l[j]) -> {BadCid(l, i), one(j, i)}
                 [] OTHER -> {BadCid(l, i)}

(* --- plain directories and dag-pb nodes ---------------------------------------- *)
DirMatches(n, needle) == {i \in 1..Len(n.l) : NameOf(n.l[i]) = needle}
PlainResults(v, n, needle) ==
  LET M == TLCEval(DirMatches(n, needle))
      errs == TLCEval(MatchErrs(n.l, M))
  IN IF errs # {} THEN LFail(v, errs)
     ELSE IF M = {} THEN LDone(v, "notfound", 0)
     ELSE LDone(v, "found", n.l[MinOf(M)].to)

(* --- shards --------------------------------------------------------------------- *)
ShardMatches(n, needle) ==
  {i \in 1..Len(n.l) : /\ Len(NameOf(n.l[i])) > 2
                       /\ Boundary(NameOf(n.l[i]))
                       /\ EntryName(n.l[i]) = needle}
BucketIdx(n) == {i \in 1..Len(n.l) : IsBucket(n.l[i])}
BucketsOf(n) == FilterIdx([i \in 1..Len(n.l) |-> n.l[i].to], BucketIdx(n))
ShardResults(v, n, needle) ==
  LET M == TLCEval(ShardMatches(n, needle))
      errs == TLCEval(ShardErrs(n) \cup MatchErrs(n.l, M)
                      \cup {BadCid(n.l, i) : i \in {j \in BucketIdx(n) : ~ValidCid(n.l[j])}})
      queue == TLCEval(v.queue \o BucketsOf(n))
  IN IF errs # {} THEN LFail(v, errs)
     ELSE IF M # {} THEN LDone(v, "found", n.l[MinOf(M)].to)
     ELSE IF queue = <<>> THEN LDone(v, "notfound", 0)
     ELSE {[o |-> ResObs("more", 0, queue), v |-> [st |-> "more", queue |-> queue]]}

(* --- calls ------------------------------------------------------------------------ *)
ResolveResults(v, n, needle) ==
  CASE n.k = "bad" -> LFail(v, {Er("Read")})
    [] n.k \in {"raw", "none", "empty"} -> PlainResults(v, n, needle)
    [] TypeOf(n) = HAMT -> ShardResults(v, n, needle)
    [] TypeOf(n) = DIR -> IF DirErrs(n) # {} THEN LFail(v, DirErrs(n)) ELSE PlainResults(v, n, needle)
    [] OTHER -> LFail(v, {ErD("UnexpectedType", TypeD(n))})

ContLookupResults(v, n, needle) ==
  LET w == [v EXCEPT !.queue = Tail(@)] IN
  CASE n.k \in {"none", "empty"} -> LFail(w, {Er("ReadNone")})
    [] n.k \in {"raw", "bad"} -> LFail(w, {Er("Read")})
    [] TypeOf(n) = HAMT -> ShardResults(w, n, needle)
    [] OTHER -> LFail(w, {ErD("UnexpectedBucketType", TypeD(n))})

(* --- declarative meaning ------------------------------------------------------------ *)
(* shards below the id level by level: the k-th level                                   *)
RECURSIVE ShardLevels(_, _)
ShardLevels(dag, ids) == IF ids = <<>> THEN <<>>
                    ELSE ids \o ShardLevels(dag, Flatten([i \in 1..Len(ids) |-> BucketsOf(dag[ids[i]])]))
=============================================================================
