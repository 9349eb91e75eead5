------------------------------ MODULE MC_Tree ------------------------------
(* The composition of the specifications: trees of files of every small       *)
(* length (laid out by AddSem), symlinks and directories (BuilderSem) become  *)
(* a DAG, which is walked (WalkSem) and in which names are resolved           *)
(* (ResolveSem). That has to give what has been put in (TreeSem).             *)
EXTENDS Walking, TreeSem, AddSem, Json

CONSTANTS MaxEnts, MaxFile, CS, BF, EMIT

VARIABLES puts, wrap, es, tree, bad
mvars == <<dag, root, name, walk, out, puts, wrap, es, tree, bad>>

a == 97  b == 98
Paths == { << <<a>> >>, << <<b>> >>, << <<a, b>> >>, << <<a>>, <<a>> >>, << <<a>>, <<b>> >>, << <<b>>, <<a>> >>,
           << <<a>>, <<a>>, <<b>> >>, << <<a, b>>, <<a>> >> }
Kinds == {[kind |-> "file", c |-> [i \in 1..n |-> i]] : n \in 0..MaxFile}
         \cup {[kind |-> "symlink", c |-> c] : c \in { <<>>, <<46, 46>> }}
         \cup {[kind |-> "dir", c |-> <<>>]}
PutSets == UNION {{[p \in S |-> f[p]] : f \in [S -> Kinds]} : S \in {T \in SUBSET Paths : T # {} /\ Cardinality(T) <= MaxEnts}}
Md(p) == [mode |-> << U(Len(p)) >>, mt |-> << [s |-> U(Len(p)), n |-> <<>>] >>]

(* the operations in some order, which does not matter (C07)                     *)
Order(f) == SetToSeq(DOMAIN f)
PathBytes(p) == PathOf(p)
RECURSIVE PutAll(_, _, _, _, _)
PutAll(v, f, ord, i, wr) ==
  IF i > Len(ord) THEN <<v>>
  ELSE LET p == ord[i]
           rs == IF f[p].kind = "dir" THEN MetaResults(v, PathBytes(p), Md(p), wr)
                 ELSE PutResults(v, PathBytes(p), i, Zero, wr)
           x == CHOOSE y \in rs : TRUE
       IN IF x.o.k # "ok" THEN <<>> ELSE PutAll(x.v, f, ord, i + 1, wr)

(* the blocks of a file, appended to the blocks ns                                *)
FileBlocks(c) ==
  LET L == Levels(Len(c), CS, BF)
      base(k) == FoldLeft(LAMBDA s, x : s + x, 0, SubSeq(L, 1, k - 1))
      RECURSIVE Size(_, _)
      Size(k, j) == IF k = 1 THEN LeafLen(j, Len(c), CS)
                    ELSE FoldLeft(LAMBDA s, m : s + Size(k - 1, m), 0,
                                  [i \in 1..(LastKid(j, BF, L[k - 1]) - FirstKid(j, BF) + 1) |-> FirstKid(j, BF) + i - 1])
      Node(k, j) ==
        IF k = 1 THEN LeafNode(SubSeq(c, LeafOff(j, CS) + 1, LeafOff(j, CS) + LeafLen(j, Len(c), CS))) @@ [l |-> <<>>]
        ELSE LET fk == FirstKid(j, BF)  n == LastKid(j, BF, L[k - 1]) - fk + 1 IN
             LinkNode([i \in 1..n |-> U(Size(k - 1, fk + i - 1))])
             @@ [l |-> [i \in 1..n |-> [to |-> base(k - 1) + fk + i - 1, n |-> << <<>> >>, ts |-> <<>>]]]
  IN FlattenSeq([k \in 1..Len(L) |-> [j \in 1..L[k] |-> Node(k, j)]])
SymNode(c) == [k |-> "fs", t |-> <<SYMLINK>>, d |-> IF c = <<>> THEN <<>> ELSE <<c>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>,
               fo |-> <<>>, mode |-> <<>>, mt |-> <<>>, l |-> <<>>]
Shift(n, by) == [n EXCEPT !.l = TLCEval([i \in DOMAIN @ |-> [@[i] EXCEPT !.to = @ + by]])]
(* [ns, es]: blocks and entries (with the ids of their last blocks)                *)
Import(f, ord) ==
  FoldLeft(LAMBDA acc, p :
     LET bl == IF f[p].kind = "file" THEN FileBlocks(f[p].c) ELSE IF f[p].kind = "symlink" THEN << SymNode(f[p].c) >> ELSE <<>>
     IN [ns |-> acc.ns \o TLCEval([i \in DOMAIN bl |-> Shift(bl[i], Len(acc.ns))]),
         es |-> Append(acc.es, [kind |-> f[p].kind, c |-> f[p].c, id |-> Len(acc.ns) + Len(bl)])],
     [ns |-> <<>>, es |-> <<>>], ord)
(* directories, in any order allowed                                              *)
RECURSIVE BuildDirs(_, _, _, _)
BuildDirs(t, ns, ents, wr) ==
  LET R == Ready(t.v, wr) IN
  IF R = {} THEN [t |-> t, ns |-> ns]
  ELSE LET d  == CHOOSE x \in R : TRUE
           ch == TLCEval(Children(t.v, d))
           n  == DirNode(DirMd(t.v, d)) @@
                 [l |-> [i \in DOMAIN ch |-> [to |-> IdAt(t, ents, ch[i]), n |-> << ch[i][Len(ch[i])] >>, ts |-> <<>>]]]
       IN BuildDirs([t EXCEPT !.ids = (d :> (Len(ns) + 1)) @@ @,
                              !.v.emitted = (d :> [cid |-> <<>>, ts |-> Zero]) @@ @], TLCEval(Append(ns, n)), ents, wr)

Init ==
  /\ puts \in PutSets /\ wrap \in BOOLEAN
  /\ name \in { <<>>, <<114>> }
  /\ LET ord == TLCEval(Order(puts))
         v   == TLCEval(PutAll(NewBuilder, puts, ord, 1, wrap))
     IN /\ v # <<>>
        /\ LET im == TLCEval(Import(puts, ord))
               bd == TLCEval(BuildDirs([NewTree EXCEPT !.v = v[1]], im.ns, im.es, wrap))
           IN /\ dag = bd.ns
              /\ root = IdAt(bd.t, im.es, TopOf(v[1], wrap))
              /\ es = im.es
              /\ tree = StartWalk(bd.t, im.es, wrap, name)
        /\ EMIT => PrintT("@" \o ToJson([kind |-> "tree", wrap |-> wrap, name |-> name,
             ents |-> [i \in DOMAIN ord |-> [kind |-> puts[ord[i]].kind, c |-> puts[ord[i]].c, path |-> PathBytes(ord[i]), cs |-> CS, bf |-> BF,
                                             mode |-> Md(ord[i]).mode, mt |-> Md(ord[i]).mt]]]))
  /\ bad = FALSE
  /\ StartState
Next ==
  /\ ~EMIT /\ walk.st = "active" /\ ~bad
  /\ Step
  /\ IF out'.k # "ok" \/ tree.st = "done" THEN bad' = TRUE /\ UNCHANGED tree
     ELSE LET x == TreeStep(tree, es, Opt(out'.b, <<>>)) IN
          /\ tree' = x.v
          /\ bad' = ~(/\ x.o.kind \in out'.kinds /\ x.o.path = out'.path /\ x.o.md = out'.md /\ x.o.b = out'.b
                      /\ x.o.first = out'.first /\ x.o.last = out'.last /\ x.o.fsz = out'.fsz /\ x.o.cont = out'.cont)
  /\ UNCHANGED <<puts, wrap, es>>
Spec == Init /\ [][Next]_mvars

(* --- invariants --------------------------------------------------------------------- *)
WalkedInv == ~bad /\ ((walk.st = "active") = (tree.st = "walk")) /\ walk.st # "failed"
Names == {p[Len(p)] : p \in Paths} \cup { <<>>, <<97, 98, 97>>, <<46>> }
ResolvedInv ==
  out.k = "none" =>
    \A d \in DOMAIN tree.ids : \A nm \in Names :
      LET r == CHOOSE x \in ResolveResults(NewLookup, dag[tree.ids[d]], nm) : TRUE
          l == Lookup(tree, es, d, nm)
      IN r.o.k = l.k /\ r.o.id = l.id
=============================================================================
