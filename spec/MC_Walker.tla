----------------------------- MODULE MC_Walker -----------------------------
(* Exhaustive exploration of walks over all small DAGs.                       *)
(*   MODE = "good": GoodDags, MODE = "bad": BadDags of SmallDags              *)
EXTENDS Walking, SmallDags, Json

CONSTANTS MODE, EMIT

VARIABLES events, loads
mvars == <<dag, root, name, walk, out, events, loads>>

(* --- behaviours --------------------------------------------------------------------- *)
RootNames == { <<>>, <<114>> }
Init ==
  /\ \E d \in IF MODE = "good" THEN GoodDags ELSE BadDags : dag = TLCEval(d)
  /\ root = Len(dag) /\ name \in RootNames
  /\ StartState /\ events = <<>> /\ loads = <<>>
  /\ EMIT => PrintT("@" \o ToJson([kind |-> "walk", nodes |-> dag, root |-> root, name |-> name]))
Next == /\ ~EMIT /\ walk.st = "active"
        /\ loads' = Append(loads, NextId(walk))
        /\ Step
        /\ events' = Append(events, out')
Spec == Init /\ [][Next]_mvars

(* --- invariants ----------------------------------------------------------------------- *)
RootKind == CASE TypeOf(dag[root]) \in {DIR, HAMT} -> "root" [] TypeOf(dag[root]) = SYMLINK -> "symlink" [] OTHER -> "file"
All == Events(dag, root, RootKind, name, 0, 1)
KindOk(kinds, kind) == IF kind = "hamt" THEN kinds = {"root", "dir"} ELSE kinds = {kind}
N == Len(events)
Matches(o, x) == /\ KindOk(o.kinds, x.kind) /\ o.path = x.path
                 /\ o.kinds = {"file"} => o.first = x.first /\ o.last = x.last
(* the blocks to be loaded: those linked by blocks loaded before, in visiting order *)
PendDecl(all, k) == LET I == {j \in DOMAIN all : j > k /\ all[j].up <= k} IN
                    FilterIdx([j \in DOMAIN all |-> all[j].id], I)
WalkInv ==
  MODE = "good" =>
    LET all == TLCEval(All) IN
    /\ walk.st # "failed"
    /\ N <= Len(all)
    /\ \A k \in 1..N : Matches(events[k], all[k]) /\ loads[k] = all[k].id
    /\ walk.st = "done" <=> N = Len(all)
    /\ PendIds(walk) = PendDecl(all, N)
    /\ \A k \in 1..N : events[k].kinds = {"file"} => LET f == {j \in 1..k : events[j].kinds = {"file"} /\ events[j].first} IN
         /\ events[k].id = loads[CHOOSE j \in f : \A i \in f : i <= j]
         /\ events[k].fsz = << FileSize(dag[events[k].id]) >>
         /\ events[k].md = << MetaOf(dag[events[k].id]) >>
    /\ \A k \in 1..N : events[k].kinds \notin {{"file"}, {"bucket"}} =>
         events[k].id = loads[k] /\ events[k].md = << MetaOf(dag[loads[k]]) >>
UsableInv ==
  /\ (walk.st = "active") = (walk.st # "failed" /\ (walk.items # <<>> \/ walk.vis.st = "active"))
  /\ walk.st = "active" => PendIds(walk) # <<>>
  /\ walk.vis.st = "active" => walk.vis.pend # <<>>
  /\ walk.st = "failed" => out.k = "err"
  /\ \A k \in 1..(N - 1) : events[k].k = "ok"
=============================================================================
