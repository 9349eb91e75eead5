----------------------------- MODULE MC_Reader -----------------------------
(* Exhaustive exploration of file visits over all small DAGs.                 *)
(*   MODE = "good": all well-formed DAGs with 2 leaves of 0..MaxLeaf bytes    *)
(*     and Inner link nodes of 1..MaxFan links to any lower nodes (so blocks  *)
(*     are shared and depths differ), with all ranges                         *)
(*   MODE = "bad": all DAGs of a root over an inner node and leaves with sizes*)
(*     and positions declared from Vals, and single structural defects        *)
EXTENDS Reader, Json

CONSTANTS POLS, MODE, MaxLeaf, Inner, MaxFan, EMIT

VARIABLES got, seen
mvars == <<dag, root, range, visit, out, got, seen>>

NoNode == [k |-> "fs", t |-> <<FILE>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>,
           fo |-> <<>>, mode |-> <<>>, mt |-> <<>>, l |-> <<>>]
Lnk(to) == [to |-> to, n |-> << <<>> >>, ts |-> <<>>]
Bytes(id, n) == [x \in 1..n |-> 10 * id + x]
Leaf(id, n) == [NoNode EXCEPT !.d = IF n = 0 THEN <<>> ELSE << Bytes(id, n) >>,
                              !.sz = << U(n) >>, !.t = <<(id % 2) * 2>>]
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

InnerNode(ns, f) ==
  LET bs == [x \in 1..Len(f) |-> FileSize(ns[f[x]])] IN
  [NoNode EXCEPT !.l = [x \in 1..Len(f) |-> Lnk(f[x])], !.bs = bs, !.sz = << USum(bs) >>]
(* a new node can only be useful when it links the previous one, or is last *)
RECURSIVE Extend(_, _)
Extend(ns, n) == IF n = 0 THEN {ns}
                 ELSE UNION { Extend(Append(ns, InnerNode(ns, f)), n - 1)
                              : f \in Seqs(1..Len(ns), 1, MaxFan) }
GoodDags == {<<Leaf(1, a)>> : a \in 0..MaxLeaf}
            \cup UNION { Extend(<<Leaf(1, a), Leaf(2, c)>>, n)
                         : a \in 0..MaxLeaf, c \in 0..MaxLeaf, n \in 1..Inner }
Ranges(n) == {<<>>} \cup {<< <<U(lo), U(hi)>> >> : lo \in 0..(n + 1), hi \in 0..(n + 1)}
             \cup {<< <<U(lo), MaxU64>> >> : lo \in {0, 1, n}}
             \cup {<< <<MaxU64, MaxU64>> >>}

(* --- inconsistent DAGs ------------------------------------------------------------ *)
Vals == {Zero, U(1), U(2), U(3), Sub(MaxU64, U(1)), MaxU64}
FewVals == {Zero, U(1), U(2), MaxU64}
(* leaf 1 "ab", leaf 2 "c", inner 3 over both, root 4 over the inner node and leaf 2  *)
SizedDags(V) ==
  { << Leaf(1, 2), Leaf(2, 1),
       [NoNode EXCEPT !.l = <<Lnk(1), Lnk(2)>>, !.bs = <<i1, i2>>, !.sz = << isz >>],
       [NoNode EXCEPT !.l = <<Lnk(3), Lnk(2)>>, !.bs = <<r1, r2>>, !.sz = << rsz >>] >>
    : i1 \in V, i2 \in V, isz \in V, r1 \in V, r2 \in V, rsz \in {U(3), U(4), MaxU64} }
Base == << Leaf(1, 2), Leaf(2, 1),
           [NoNode EXCEPT !.l = <<Lnk(1), Lnk(2)>>, !.bs = <<U(2), U(1)>>, !.sz = << U(3) >>],
           [NoNode EXCEPT !.l = <<Lnk(3), Lnk(2)>>, !.bs = <<U(3), U(1)>>, !.sz = << U(4) >>] >>
(* all variants of a node with one defect *)
Defects(n, id) ==
  {[n EXCEPT !.t = <<ty>>] : ty \in RAW..HAMT}
  \cup {[n EXCEPT !.sz = s] : s \in {<<>>, <<Zero>>, << U(9) >>, << MaxU64 >>}}
  \cup {[n EXCEPT !.d = d] : d \in {<<>>, << <<>> >>, << <<7>> >>, << <<7, 8, 9>> >>}}
  \cup {[n EXCEPT !.bs = Append(@, x)] : x \in FewVals}
  \cup {[n EXCEPT !.bs = SubSeq(@, 1, Len(@) - 1)] : x \in IF n.bs = <<>> THEN {} ELSE {0}}
  \cup {[n EXCEPT !.ht = << U(34) >>], [n EXCEPT !.fo = << U(256) >>]}
  \cup {[n EXCEPT !.mode = << U(420) >>], [n EXCEPT !.mt = << [s |-> U(5), n |-> <<>>] >>],
        [n EXCEPT !.mt = << [s |-> U(5), n |-> << U(7) >>] >>]}
  \cup {[n EXCEPT !.k = k] : k \in {"raw", "none", "empty", "bad"}}
  \cup {[n EXCEPT !.l = [@ EXCEPT ![x] = Lnk(to)]] : x \in DOMAIN n.l, to \in {0, -1, -2, -4} \cup 1..(id - 1)}
  \cup {[n EXCEPT !.l = Append(@, Lnk(to))] : to \in {0} \cup 1..(id - 1)}
  \cup {[n EXCEPT !.l = <<>>]}
  \cup {[n EXCEPT !.l = Append(@, Lnk(to)), !.bs = Append(@, x)] : to \in {0} \cup 1..(id - 1), x \in FewVals}
Defective(d) == { [d EXCEPT ![x] = y] : <<x, y>> \in UNION { {<<z, w>> : w \in Defects(d[z], z)} : z \in DOMAIN d } }
BadDags == SizedDags(IF Inner > 2 THEN Vals ELSE FewVals)
           \cup Defective(Base) \cup (IF Inner > 2 THEN UNION {Defective(d) : d \in Defective(Base)} ELSE {})
BadRanges == {<<>>, << <<U(1), U(3)>> >>, << <<U(3), U(4)>> >>} \cup
             (IF Inner > 2 THEN {<< <<Zero, MaxU64>> >>, << <<U(2), U(2)>> >>} ELSE {})

(* --- behaviours --------------------------------------------------------------------- *)
Init ==
  /\ \E d \in IF MODE = "good" THEN GoodDags ELSE BadDags :
       /\ dag = TLCEval(d)
       /\ range \in IF MODE = "good" THEN Ranges(Len(ContentOf(d, Len(d)))) ELSE BadRanges
  /\ root = Len(dag)
  /\ visit \in {IdleVisit(pol) : pol \in POLS} /\ out = NoObs /\ got = <<>> /\ seen = <<>>
  /\ EMIT => PrintT("@" \o ToJson([kind |-> "file", nodes |-> dag, root |-> root, range |-> range]))

Record(id, lo, hi) == /\ seen' = Append(seen, [id |-> id, lo |-> lo, hi |-> hi, leaf |-> dag[id].l = <<>>])
                      /\ got' = IF out'.k = "ok" THEN got \o out'.b ELSE got
Next ==
  /\ ~EMIT
  /\ \/ Start /\ Record(root, Zero, FileSize(dag[root]))
     \/ Continue /\ LET x == Head(visit.pend) IN Record(x.to, x.lo, x.hi)
Spec == Init /\ [][Next]_mvars

(* --- invariants ----------------------------------------------------------------------- *)
Cut(s, r) == IF r = <<>> THEN s
             ELSE SubSeq(s, Clip(r[1][1]) + 1, IMin(Len(s), Clip(r[1][2])))
Content == ContentOf(dag, root)
Plain(s) == [x \in 1..Len(s) |-> [id |-> s[x].id, lo |-> s[x].lo, hi |-> s[x].hi]]
All == Plain(Spans(dag, root, Zero))
Needed == SelectSeq(All, LAMBDA x : Overlaps(x.lo, x.hi, range))
Allowed(x) == Touches(x.lo, x.hi, range) \/ (x.lo = Zero /\ x.id = root)
RECURSIVE IsSubseq(_, _)
IsSubseq(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                  ELSE IF Head(s) = Head(t) THEN IsSubseq(Tail(s), Tail(t)) ELSE IsSubseq(s, Tail(t))
PendSpans == [x \in 1..Len(visit.pend) |-> [id |-> visit.pend[x].to, lo |-> visit.pend[x].lo, hi |-> visit.pend[x].hi]]

(* a continuation always has a next link *)
Usable == (visit.st = "active") = (visit.pend # <<>> /\ visit.st # "failed")
(* C05 and C01 *)
GoodInv ==
  MODE = "good" =>
    /\ WellFormed(dag, root, TRUE)
    /\ visit.st # "failed"
    /\ visit.st # "idle" => visit.fsz = U(Len(Content))
    /\ \A x \in 1..Len(seen) : Allowed(seen[x])
    /\ visit.st \in {"active", "done"} =>
         (* loaded and pending blocks in file order: prefetching is exact (C11) *)
         IsSubseq(Plain(seen) \o PendSpans, All)
    /\ visit.st = "done" => /\ got = Cut(Content, range)
                            /\ IsSubseq(Needed, Plain(seen))
(* C06: bytes are only taken from leaves which start where the previous one ended; *)
(* nothing after an error                                                           *)
Leaves == SelectSeq(seen, LAMBDA x : x.leaf)
BadInv ==
  MODE = "bad" =>
    /\ visit.st \in {"active", "done"} /\ range = <<>> =>
         \A x \in 1..Len(Leaves) - 1 :
            Leaves[x + 1].lo = Add(Leaves[x].lo, FileSize(dag[Leaves[x].id]))
    /\ visit.st = "done" /\ range = <<>> /\ Leaves # <<>> => Leaves[1].lo = Zero
    /\ \A x \in 1..Len(seen) : Fits(seen[x].hi)
    /\ visit.st = "failed" => out.k = "err"
=============================================================================
