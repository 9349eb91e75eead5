------------------------------ MODULE MC_Adder ------------------------------
(* Imports of all contents of up to MaxLen bytes, for all chunk sizes and     *)
(* branching factors in CSS and BFS, with pushes of every size up to MaxPush. *)
(* Buffer and collector are shaped after the implementation (one vector of    *)
(* pending links which is compacted in place, flushed when it gets longer     *)
(* than the branching factor); what they emit has to be the declarative       *)
(* layout of AddSem, and the blocks read back (FileSem) to the content.       *)
EXTENDS AddSem, FileSem, Json

CONSTANTS CSS, BFS, MaxLen, MaxPush, EMIT

VARIABLES len, cs, bf, pos, buf, pend, out, fin, last, hist
vars == <<len, cs, bf, pos, buf, pend, out, fin, last, hist>>

Byte(i) == i
Link(d, lo, hi) == [d |-> d, lo |-> lo, hi |-> hi]    \* level, bytes lo + 1..hi

Init == /\ len \in 0..MaxLen /\ cs \in CSS /\ bf \in BFS
        /\ pos = 0 /\ buf = 0 /\ pend = <<>> /\ out = <<>> /\ fin = FALSE
        /\ last = [n |-> 0, c |-> 0, blocks |-> 0]
        /\ hist = <<>>

(* flush_links: level by level, the first run of links of that level                     *)
FirstAt(p, from, level) == LET I == {i \in from..Len(p) : p[i].d = level} IN IF I = {} THEN 0 ELSE MinOf(I)
RECURSIVE Inner(_, _, _, _, _, _)
(* the `while` over the link blocks of one level: result [p, bl, brk]                     *)
Inner(p, bl, level, start, over, f) ==
  LET at == FirstAt(p, start, level) IN
  IF at = 0 THEN [p |-> IF over = 0 THEN p ELSE SubSeq(p, 1, over), bl |-> bl, brk |-> FALSE]
  ELSE IF ~f /\ Len(p) - at + 1 <= bf
  THEN [p |-> IF over = 0 THEN p ELSE SubSeq(p, 1, over) \o SubSeq(p, at, Len(p)), bl |-> bl, brk |-> TRUE]
  ELSE LET to  == IMin(at + bf - 1, Len(p))
           ok  == \A i \in at..to : p[i].d = level
           idx == IF over = 0 THEN at ELSE over + 1
           nl  == Link(level + 1, p[at].lo, p[to].hi)
       IN IF ~ok THEN [p |-> <<>>, bl |-> Append(bl, Link(-1, 0, 0)), brk |-> TRUE]
          ELSE Inner(TLCEval([p EXCEPT ![idx] = nl]), Append(bl, nl), level, to + 1, idx, f)
RECURSIVE Outer(_, _, _, _)
Outer(p, bl, level, f) ==
  IF (Len(p) = 1 /\ f) \/ (Len(p) <= bf /\ ~f) THEN [p |-> p, bl |-> bl]
  ELSE LET r == TLCEval(Inner(p, bl, level, 1, 0, f)) IN
       IF r.brk THEN [p |-> r.p, bl |-> r.bl] ELSE Outer(r.p, r.bl, level + 1, f)
Flush(p, f) == Outer(p, <<>>, 1, f)

Push(n) ==
  /\ ~fin /\ n <= len - pos
  /\ LET c == Consumed(n, buf, cs) IN
     /\ pos' = pos + c
     /\ IF buf + c >= cs
        THEN LET leaf == Link(1, pos + c - cs, pos + c)
                 r == Flush(Append(pend, leaf), FALSE)
             IN buf' = 0 /\ pend' = r.p /\ out' = out \o <<leaf>> \o r.bl /\ last' = [n |-> n, c |-> c, blocks |-> 1 + Len(r.bl)]
        ELSE buf' = buf + c /\ UNCHANGED <<pend, out>> /\ last' = [n |-> n, c |-> c, blocks |-> 0]
  /\ hist' = IF EMIT THEN Append(hist, n) ELSE hist
  /\ UNCHANGED <<len, cs, bf, fin>>
Finish ==
  /\ ~fin /\ pos = len
  /\ LET leaf == IF buf > 0 \/ pend = <<>> THEN << Link(1, pos - buf, pos) >> ELSE <<>>
         r == Flush(pend \o leaf, TRUE)
     IN /\ out' = out \o leaf \o r.bl /\ pend' = r.p
        /\ EMIT => PrintT("@" \o ToJson([kind |-> "add", cs |-> cs, bf |-> bf, c |-> [i \in 1..len |-> Byte(i)], small |-> TRUE,
                                         runs |-> <<hist, <<len, len, len, len, len, len, len, len>> >>]))
  /\ fin' = TRUE
  /\ UNCHANGED <<len, cs, bf, pos, buf, last, hist>>
Next == \/ \E n \in (IF EMIT THEN 0 ELSE 1)..MaxPush :
             /\ n = 0 => IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # 0
             /\ Push(n)
        \/ Finish
Spec == Init /\ [][Next]_vars

(* --- invariants ---------------------------------------------------------------------- *)
LV == Levels(len, cs, bf)
(* block j of level k as a link *)
RECURSIVE Lo(_, _)
Lo(k, j) == IF k = 1 THEN LeafOff(j, cs) ELSE Lo(k - 1, FirstKid(j, bf))
RECURSIVE Hi(_, _)
Hi(k, j) == IF k = 1 THEN LeafOff(j, cs) + LeafLen(j, len, cs) ELSE Hi(k - 1, LastKid(j, bf, LV[k - 1]))
LayoutLink(k, j) == Link(k, Lo(k, j), Hi(k, j))
At(k) == SelectSeq(out, LAMBDA x : x.d = k)
Idx(o, i) == Cardinality({x \in 1..i : o[x].d = o[i].d})
PushInv == /\ last.blocks <= 2
           /\ last.n > 0 => last.c > 0 /\ last.c <= last.n
           /\ buf < cs /\ buf = pos % cs
          
(* C03: blocks of the layout, in order at each level, after their links                  *)
LayoutInv ==
  \A i \in 1..Len(out) :
     LET k == out[i].d  j == Idx(out, i) IN
     /\ k \in 1..Len(LV) /\ j <= LV[k]
     /\ out[i] = LayoutLink(k, j)
     /\ k > 1 => \A m \in FirstKid(j, bf)..LastKid(j, bf, LV[k - 1]) :
                   \E x \in 1..(i - 1) : out[x].d = k - 1 /\ Idx(out, x) = m
DoneInv ==
  fin => /\ \A k \in 1..Len(LV) : Len(At(k)) = LV[k]
         /\ Len(out) = FoldLeft(LAMBDA a, x : a + x, 0, LV)
         /\ out[Len(out)] = LayoutLink(Len(LV), 1)
         /\ Len(pend) = 1
         (* least depth *)
         /\ Len(LV) = 1 \/ NumLeaves(len, cs) > bf ^ (Len(LV) - 2)
         /\ NumLeaves(len, cs) <= bf ^ (Len(LV) - 1)
(* C02: what has been emitted is a function of how much has been consumed                 *)
RECURSIVE Replay(_)
Replay(n) == IF n = 0 THEN [p |-> <<>>, bl |-> <<>>]
             ELSE LET q == TLCEval(Replay(n - 1))
                      leaf == Link(1, (n - 1) * cs, n * cs)
                      r == Flush(Append(q.p, leaf), FALSE)
                  IN [p |-> r.p, bl |-> q.bl \o <<leaf>> \o r.bl]
SplitInv == ~fin => LET q == Replay(pos \div cs) IN out = q.bl /\ pend = q.p
(* C01, C04: the blocks as nodes, read with FileSem                                        *)
IdOf(k, j) == MinOf({i \in 1..Len(out) : out[i].d = k /\ Idx(out, i) = j})
NodeAt(i) ==
  LET k == out[i].d  j == Idx(out, i) IN
  IF k = 1 THEN LeafNode([x \in 1..(out[i].hi - out[i].lo) |-> Byte(out[i].lo + x)]) @@ [l |-> <<>>]
  ELSE LET kids == [m \in 1..(LastKid(j, bf, LV[k - 1]) - FirstKid(j, bf) + 1) |-> IdOf(k - 1, FirstKid(j, bf) + m - 1)]
       IN LinkNode([m \in DOMAIN kids |-> U(out[kids[m]].hi - out[kids[m]].lo)])
          @@ [l |-> [m \in DOMAIN kids |-> [to |-> kids[m], n |-> << <<>> >>, ts |-> <<>>]]]
Dag == TLCEval([i \in 1..Len(out) |-> NodeAt(i)])
(* a whole visit *)
RECURSIVE Visit(_, _, _)
Visit(dag, v, acc) ==
  IF v.st # "active" THEN [v |-> v, b |-> acc]
  ELSE LET r == CHOOSE x \in ContResults(v, dag[Head(v.pend).to], <<>>) : TRUE IN
       IF r.o.k # "ok" THEN [v |-> r.v, b |-> acc] ELSE Visit(dag, TLCEval(r.v), acc \o r.o.b)
ReadInv ==
  fin => LET dag == Dag
             root == Len(out)
             r0 == CHOOSE x \in StartResults(IdleVisit(CodePolicy), dag[root], <<>>) : TRUE
             r == Visit(dag, r0.v, IF r0.o.k = "ok" THEN r0.o.b ELSE <<>>)
         IN /\ WellFormed(dag, root, TRUE)
            /\ ContentOf(dag, root) = [i \in 1..len |-> Byte(i)]
            /\ r.v.st = "done" /\ r.b = [i \in 1..len |-> Byte(i)] /\ r.v.fsz = U(len)
(* the closed forms of the block lengths agree with the encoding                           *)
H34 == [i \in 1..34 |-> 7]
LenInv ==
  fin => LET dag == Dag IN
         \A i \in 1..Len(out) :
           LET n == dag[i]
               ls == [m \in 1..Len(n.l) |-> FileLink(H34, U(100 + (m * 50)))]
           IN Len(EncNode(n, ls)) = IF n.l = <<>> THEN LeafBlockLen(Len(DataOf(n)))
                                    ELSE LinkBlockLen(n.bs, [m \in 1..Len(n.l) |-> U(100 + (m * 50))], 34)
=============================================================================
