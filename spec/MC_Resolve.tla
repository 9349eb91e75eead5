----------------------------- MODULE MC_Resolve -----------------------------
(* Exhaustive exploration of lookups.                                         *)
(*   "plain": all directories and dag-pb nodes with up to MaxLinks links with *)
(*     names, valid and invalid CIDs of small sets                            *)
(*   "shards": all trees of Conts shards with up to MaxLinks links each       *)
(*   "bad": all defects of one node of a shard tree                           *)
EXTENDS ResolveSem, Json

CONSTANTS MODE, Conts, MaxLinks, EMIT

VARIABLES dag, root, needle, lk, out, loads
vars == <<dag, root, needle, lk, out, loads>>

NoNode == [k |-> "fs", t |-> <<FILE>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>,
           fo |-> <<>>, mode |-> <<>>, mt |-> <<>>, l |-> <<>>]
Lnk(to, nm) == [to |-> to, n |-> << nm >>, ts |-> <<>>]
Dir(l)   == [NoNode EXCEPT !.t = <<DIR>>, !.l = l]
Shard(l) == [NoNode EXCEPT !.t = <<HAMT>>, !.l = l, !.ht = << U(34) >>, !.fo = << U(256) >>]
Seqs(X, lo, hi) == UNION {[1..n -> X] : n \in lo..hi}

A == <<97>>   AB == <<97, 98>>   P == <<48, 65>>
(* --- plain ------------------------------------------------------------------------- *)
PlainLinks == { Lnk(to, nm) : to \in {101, 102, 0}, nm \in {A, AB, P \o A, <<>>} } \cup { [to |-> 103, n |-> <<>>, ts |-> <<>>] }
PlainNodes == {Dir(l) : l \in Seqs(PlainLinks, 0, MaxLinks)}
              \cup {[Dir(l) EXCEPT !.k = k] : k \in {"none", "raw", "empty"}, l \in Seqs(PlainLinks, 0, IMin(2, MaxLinks))}
(* --- shards ------------------------------------------------------------------------ *)
(* entries "a", "b", an entry with a two byte name, and buckets                         *)
ShardLinks(ns) == { Lnk(101, P \o A), Lnk(102, P \o <<98>>), Lnk(103, P \o P), Lnk(104, <<48, 66>> \o A) }
                  \cup { Lnk(x, P) : x \in DOMAIN ns }
ShardLeaves(ns) == {Shard(l) : l \in Seqs(ShardLinks(ns), 0, MaxLinks)}
RECURSIVE Extend(_, _)
Extend(ns, n) == IF n = 0 THEN {ns} ELSE UNION {Extend(Append(ns, c), n - 1) : c \in ShardLeaves(ns)}
(* --- defects ----------------------------------------------------------------------- *)
Base == << Shard(<<Lnk(101, P \o A), Lnk(102, P \o <<98>>)>>),
           Shard(<<Lnk(103, P \o <<99>>), Lnk(1, P)>>),
           Shard(<<Lnk(2, P), Lnk(104, P \o <<100>>), Lnk(1, <<48, 66>>)>>) >>
Names == { <<>>, <<97>>, P, P \o A, <<48, 66>> \o A, P \o P, <<195, 164>>, <<48, 195, 164>>, <<48, 195, 164, 97>>, P \o <<195, 164>>,
           <<226, 130, 172>>, P \o P \o P }
Defects(n, id) ==
  {[n EXCEPT !.t = <<ty>>] : ty \in RAW..HAMT} \cup {[n EXCEPT !.t = <<>>], [n EXCEPT !.t = <<6>>]}
  \cup {[n EXCEPT !.sz = s] : s \in {<<Zero>>, << U(9) >>}}
  \cup {[n EXCEPT !.d = d] : d \in {<< <<>> >>, << <<7>> >>}}
  \cup {[n EXCEPT !.bs = Append(@, Zero)]}
  \cup {[n EXCEPT !.ht = h] : h \in {<<>>, << U(35) >>}}
  \cup {[n EXCEPT !.fo = f] : f \in {<<>>, << U(16) >>}}
  \cup {[n EXCEPT !.k = k] : k \in {"raw", "none", "empty", "bad"}}
  \cup {[n EXCEPT !.l[x].n = << nm >>] : x \in DOMAIN n.l, nm \in Names}
  \cup {[n EXCEPT !.l[x].n = <<>>] : x \in DOMAIN n.l}
  \cup {[n EXCEPT !.l[x].to = to] : x \in DOMAIN n.l, to \in {0, -1, -2, -3, -4, -5, 105} \cup 1..(id - 1)}
  \cup {[n EXCEPT !.l = Append(@, Lnk(105, P \o nm))] : nm \in {A, <<99>>, <<100>>}}
  \cup {[n EXCEPT !.t = <<DIR>>, !.ht = <<>>, !.fo = <<>>]}
Defective(d) == UNION { {[d EXCEPT ![x] = y] : y \in Defects(d[x], x)} : x \in DOMAIN d }
Needles == CASE MODE = "plain" -> {A, AB, P \o A, <<>>, <<98>>}
             [] MODE = "shards" -> {A, P, <<122>>}
             [] MODE = "bad" -> {A, <<99>>, <<100>>, <<122>>, <<195, 164>>, <<>>, P \o A}

Init ==
  /\ CASE MODE = "plain"  -> \E n \in PlainNodes : dag = <<n>>
       [] MODE = "shards" -> \E n \in 1..Conts : \E d \in Extend(<<>>, n) : dag = TLCEval(d)
       [] MODE = "bad"    -> \E d \in Defective(Base) :
                               IF Conts = 1 THEN dag = d ELSE \E c \in Defective(d) : dag = c
  /\ root = Len(dag) /\ needle \in Needles
  /\ lk = NewLookup /\ out = [k |-> "none"] /\ loads = <<>>
  /\ EMIT => PrintT("@" \o ToJson([kind |-> "res", nodes |-> dag, root |-> root, needle |-> needle,
                                   own |-> (Len(dag) % 2 = 0)]))
Load(id) == /\ id \in DOMAIN dag /\ loads' = Append(loads, id) /\ UNCHANGED <<dag, root, needle>>
Next == /\ ~EMIT
        /\ \/ /\ lk.st = "idle" /\ Load(root)
              /\ \E x \in ResolveResults(lk, dag[root], needle) : lk' = x.v /\ out' = x.o
           \/ /\ lk.st = "more" /\ Load(Head(lk.queue))
              /\ \E x \in ContLookupResults(lk, dag[Head(lk.queue)], needle) : lk' = x.v /\ out' = x.o
Spec == Init /\ [][Next]_vars

(* --- invariants ---------------------------------------------------------------------- *)
n0 == dag[root]
Named == {i \in DOMAIN n0.l : Opt(n0.l[i].n, <<>>) = needle}
PlainInv ==
  MODE = "plain" /\ lk.st # "idle" =>
    /\ lk.st \in {"done", "failed"}
    /\ out.k = "notfound" <=> Named = {}
    /\ out.k = "found" <=> (\E i \in Named : Named = {i} /\ n0.l[i].to >= 1)
    /\ out.k = "found" => out.id \in {n0.l[i].to : i \in Named}
    /\ out.k = "err" => out.e \in {"Multiple", "MultipleOneValid", "InvalidCid"}
Order == ShardLevels(dag, <<root>>)   \* breadth first
Hits(id) == {i \in DOMAIN dag[id].l : dag[id].l[i].n[1] \in {P \o needle, <<48, 66>> \o needle}}
ShardInv ==
  MODE = "shards" =>
    LET ord == TLCEval(Order)
        N   == Len(loads)
        hits == TLCEval([k \in DOMAIN ord |-> Cardinality(Hits(ord[k]))])
        H   == {k \in DOMAIN ord : hits[k] > 0}
    IN /\ N <= Len(ord) /\ \A k \in 1..N : loads[k] = ord[k]
       /\ \A k \in 1..(N - 1) : hits[k] = 0
       /\ out.k = "more" => lk.queue # <<>> /\ N < Len(ord) /\ lk.queue[1] = ord[N + 1]
       /\ out.k = "notfound" => N = Len(ord) /\ H = {}
       /\ out.k = "found" => H # {} /\ N = MinOf(H) /\ hits[N] = 1
       /\ out.k = "err" => H # {} /\ N = MinOf(H) /\ hits[N] > 1 /\ out.e = "Multiple"
       /\ lk.st \in {"idle", "more"} \/ out.k \in {"found", "notfound", "err"}
UsableInv ==
  /\ lk.st = "more" <=> out.k = "more"
  /\ lk.st = "more" => lk.queue # <<>> /\ out.pend = << lk.queue >>
  /\ lk.st = "failed" <=> out.k = "err"
=============================================================================
