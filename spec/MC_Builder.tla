----------------------------- MODULE MC_Builder -----------------------------
(* All sequences of up to MaxOps operations on small paths, then the build    *)
(* with a model of PostOrderIterator shaped after the implementation (stack   *)
(* of visits, leaves persisted by node id, incrementally updated full path),  *)
(* which has to refine BuilderSem and keep the internal assertions.           *)
EXTENDS BuilderSem, Json

CONSTANTS MaxOps, PATHS, WRAPS, EMIT

VARIABLES ops, wrap, pos, v,     \* operations, option, progress, BuilderSem state
          ids, counter,          \* implementation: path -> node id
          acc,                   \* accepted effects (ghost)
          it,                    \* iterator: [pend, pers, fp, od, bad]
          order                  \* emitted directories
vars == <<ops, wrap, pos, v, ids, counter, acc, it, order>>

Paths == CASE PATHS = "tiny" -> { <<>>, <<97>>, <<98>>, <<97, 47, 98>>, <<97, 47, 98, 47, 97>>, <<47, 97>>, <<97, 47>>, <<97, 47, 47, 98>> }
           [] PATHS = "deep" -> { <<97>>, <<97, 47, 98>>, <<97, 47, 99>>, <<97, 47, 98, 47, 97>>, <<97, 47, 98, 47, 98>>,
                                  <<97, 47, 98, 47, 97, 47, 97>>, <<97, 47, 99, 47, 97>>, <<97, 97>>, <<97, 47, 98, 98, 47, 98>> }
           [] PATHS = "bad"  -> { <<>>, <<47>>, <<47, 47>>, <<47, 97>>, <<97, 47>>, <<97, 47, 47, 98>>, <<47, 97, 47>>, <<97, 47, 47>>, <<98>>, <<97, 47, 98>> }
OpSet == {[put |-> b, path |-> p] : b \in BOOLEAN, p \in Paths}
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
TsOf(i) == U(i)
MdOf(i) == [mode |-> << U(i) >>, mt |-> <<>>]
Cids == << <<18, 32>> >>

Init ==
  /\ ops \in Seqs(OpSet, 0, MaxOps) /\ wrap \in WRAPS
  /\ pos = 1 /\ v = NewBuilder /\ ids = (<<>> :> 0) /\ counter = 1
  /\ acc = [puts |-> {}, metas |-> [p \in {} |-> NoMd]]
  /\ it = [pend |-> <<>>, pers |-> <<>>, fp |-> <<>>, od |-> 0, bad |-> FALSE]
  /\ order = <<>>
  /\ EMIT => PrintT("@" \o ToJson([kind |-> "bld", wrap |-> wrap, limit |-> <<>>, own |-> (Len(ops) + 3) % 3,
       ops |-> [i \in DOMAIN ops |->
         [put |-> ops[i].put, path |-> ops[i].path, to |-> 100 + i, ts |-> TsOf(i), mode |-> << U(i) >>, mt |-> <<>>]]]))

(* ids are given to new directories in the order they are created               *)
NewDirs(old, new) == {p \in DOMAIN new.ents : ~new.ents[p].leaf /\ p \notin DOMAIN old.ents}
RECURSIVE Give(_, _, _)
Give(m, ps, n) == IF ps = <<>> THEN m ELSE Give((ps[1] :> n) @@ m, Tail(ps), n + 1)

Op ==
  /\ pos <= Len(ops) /\ ~EMIT
  /\ LET o == ops[pos] IN
     \E x \in IF o.put THEN PutResults(v, o.path, 1, TsOf(pos), wrap) ELSE MetaResults(v, o.path, MdOf(pos), wrap) :
       /\ v' = x.v
       /\ LET nd == TLCEval(NewDirs(v, x.v))
              sorted == SortSeq(SetToSeq(nd), LAMBDA a, c : Len(a) < Len(c))
          IN /\ ids' = Give(ids, sorted, counter)
             /\ counter' = counter + Len(sorted)
       /\ acc' = IF x.o.k # "ok" THEN acc
                 ELSE IF o.put THEN [acc EXCEPT !.puts = @ \cup {<<Split(o.path), TsOf(pos)>>}]
                 ELSE [acc EXCEPT !.metas = (Split(o.path) :> MdOf(pos)) @@ @]
       /\ pos' = pos + 1
  /\ it' = IF pos' > Len(ops) THEN [it EXCEPT !.pend = << [v |-> "DescentRoot", d |-> <<>>, depth |-> 0, idx |-> 0] >>] ELSE it
  /\ UNCHANGED <<ops, wrap, order>>
StartEmpty == /\ ~EMIT /\ ops = <<>> /\ pos = 1 /\ pos' = 2
              /\ it' = [it EXCEPT !.pend = << [v |-> "DescentRoot", d |-> <<>>, depth |-> 0, idx |-> 0] >>]
              /\ UNCHANGED <<ops, wrap, v, ids, counter, acc, order>>

(* update_full_path *)
RECURSIVE Pop(_, _, _, _)
Pop(fp, od, name, depth) ==
  IF ~(od >= depth /\ od > 0) THEN [fp |-> fp, od |-> od, ret |-> FALSE, bad |-> FALSE]
  ELSE LET S == {i \in 1..Len(fp) : fp[i] = SL} IN
       IF S = {} THEN [fp |-> fp, od |-> od, ret |-> TRUE, bad |-> TRUE]
       ELSE LET at == CHOOSE i \in S : \A j \in S : j <= i IN
            IF od = depth /\ name # <<>> /\ SubSeq(fp, at + 1, Len(fp)) = name[1]
            THEN [fp |-> fp, od |-> od, ret |-> TRUE, bad |-> FALSE]
            ELSE Pop(SubSeq(fp, 1, at - 1), od - 1, name, depth)
UpdatePath(fp, od, name, depth) ==
  LET r == IF depth < 2 THEN [fp |-> <<>>, od |-> 0, ret |-> FALSE, bad |-> FALSE] ELSE Pop(fp, od, name, depth)
      q == IF r.ret \/ name = <<>> THEN r
           ELSE [r EXCEPT !.fp = IF r.fp = <<>> THEN name[1] ELSE @ \o <<SL>> \o name[1], !.od = @ + 1]
  IN [fp |-> q.fp, od |-> q.od, bad |-> q.bad \/ (~q.ret /\ q.od # depth)]

(* one turn of the loop of next_borrowed *)
Turn ==
  /\ ~EMIT /\ pos > Len(ops) /\ it.pend # <<>> /\ ~it.bad
  /\ LET x    == it.pend[Len(it.pend)]
         rest == SubSeq(it.pend, 1, Len(it.pend) - 1)
         name == IF x.d = <<>> THEN <<>> ELSE << x.d[Len(x.d)] >>
         up   == UpdatePath(it.fp, it.od, name, x.depth)
         base == [it EXCEPT !.fp = up.fp, !.od = up.od, !.bad = up.bad]
         ch   == TLCEval(Children(v, x.d))
         kids == {i \in DOMAIN ch : ~v.ents[ch[i]].leaf}
         stash == kids # {}
         leaves == [i \in DOMAIN ch |-> IF i \in kids THEN <<>> ELSE << v.ents[ch[i]].ts >>]
     IN CASE x.v \in {"DescentRoot", "Descent"} ->
               /\ it' = [base EXCEPT
                    !.pers = IF stash THEN (ids[x.d] :> leaves) @@ @ ELSE @,
                    !.pend = rest \o << [v |-> IF x.v = "Descent" THEN "Post" ELSE "PostRoot", d |-> x.d, depth |-> x.depth, idx |-> x.idx] >>
                             \o FilterIdx([i \in DOMAIN ch |-> [v |-> "Descent", d |-> ch[i], depth |-> x.depth + 1, idx |-> i]], kids)]
               /\ UNCHANGED <<v, order>>
          [] x.v \in {"Post", "PostRoot"} ->
               LET mine == IF stash THEN it.pers[ids[x.d]] ELSE leaves
                   pers == IF stash THEN [i \in DOMAIN it.pers \ {ids[x.d]} |-> it.pers[i]] ELSE it.pers
                   okl  == \A i \in DOMAIN mine : mine[i] # <<>>
               IN IF x.v = "PostRoot" /\ ~wrap
                  THEN it' = [base EXCEPT !.pend = <<>>] /\ UNCHANGED <<v, order>>
                  ELSE LET rs == {r \in NextNode(v, wrap, Cids, <<>>, <<18, 34>>, Ready(v, wrap)) :
                                    r.o.k = "ok" /\ r.o.path = up.fp}
                           r  == CHOOSE y \in rs : x.d \in DOMAIN y.v.emitted
                           par == IF x.v = "Post" THEN ids[SubSeq(x.d, 1, Len(x.d) - 1)] ELSE 0
                           \* what is persisted is what the specification lists as links
                           same == okl /\ Len(mine) = Len(r.o.links) /\ \A i \in DOMAIN mine : mine[i] = r.o.links[i].ts
                       IN IF rs = {} \/ ~(\E y \in rs : x.d \in DOMAIN y.v.emitted) \/ ~okl
                          THEN it' = [base EXCEPT !.bad = TRUE] /\ UNCHANGED <<v, order>>
                          ELSE /\ v' = r.v
                               /\ order' = Append(order, x.d)
                               /\ it' = [base EXCEPT !.pend = rest,
                                    !.bad = @ \/ ~same \/ (x.v = "Post" /\ (par \notin DOMAIN pers \/ pers[par][x.idx] # <<>>)),
                                    !.pers = IF x.v = "Post" /\ par \in DOMAIN pers THEN [pers EXCEPT ![par][x.idx] = <<r.o.ts>>] ELSE pers]
  /\ UNCHANGED <<ops, wrap, pos, ids, counter, acc>>

Next == Op \/ StartEmpty \/ Turn
Spec == Init /\ [][Next]_vars

(* --- invariants ---------------------------------------------------------------------- *)
Named == {x[1] : x \in acc.puts}
Meant == DOMAIN acc.metas
(* exactly the accepted entries, independently of the order of the operations           *)
EntsInv ==
  /\ DOMAIN v.ents = Named \cup Meant \cup UNION {Ancestors(p) : p \in Named \cup Meant}
  /\ \A x \in acc.puts : v.ents[x[1]] = LeafE(1, x[2])
  /\ \A p \in DOMAIN v.ents \ Named : v.ents[p] = DirE(IF p \in Meant THEN acc.metas[p] ELSE NoMd)
  /\ \A x, y \in acc.puts : x[1] = y[1] => x = y
  /\ \A p \in Named : \A q \in DOMAIN v.ents : ~IsUnder(q, p)
  /\ ~wrap => Cardinality({p[1] : p \in DOMAIN v.ents}) <= 1
IdsInv == /\ DOMAIN ids = {<<>>} \cup {p \in DOMAIN v.ents : ~v.ents[p].leaf}
          /\ \A p, q \in DOMAIN ids : ids[p] = ids[q] => p = q
          /\ \A p \in DOMAIN ids : ids[p] < counter
(* once each, children first, complete                                                   *)
IterInv ==
  /\ ~it.bad
  /\ \A i, j \in DOMAIN order : i < j => order[i] # order[j] /\ ~IsUnder(order[j], order[i])
  /\ pos > Len(ops) /\ it.pend = <<>> /\ ~(ops = <<>> /\ pos = 1) => {order[i] : i \in DOMAIN order} = Dirs(v, wrap)
=============================================================================
