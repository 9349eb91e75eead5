----------------------------- MODULE BuilderSem -----------------------------
(* Semantics of BufferingTreeBuilder: a map from paths (sequences of names)   *)
(* to leaves and directories, and the directories emitted when it is built.   *)
EXTENDS Wire

SL == 47
(* str::split('/') *)
Split(p) == FoldLeft(LAMBDA acc, c : IF c = SL THEN Append(acc, <<>>)
                                     ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, p)
PathOf(segs) == IF segs = <<>> THEN <<>>
                ELSE FoldLeft(LAMBDA acc, s : acc \o <<SL>> \o s, segs[1], Tail(segs))
IsUnder(p, d) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Ancestors(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}

(* builder states: [st |-> "open"|"end"|"failed", ents, emitted]                 *)
(*   ents: path -> [leaf, to, ts, md]; emitted: directory -> [cid, ts]            *)
NoMd == [mode |-> <<>>, mt |-> <<>>]
LeafE(to, ts) == [leaf |-> TRUE, to |-> to, ts |-> ts, md |-> NoMd]
DirE(md) == [leaf |-> FALSE, to |-> 0, ts |-> Zero, md |-> md]
NewBuilder == [st |-> "open", ents |-> [p \in {} |-> DirE(NoMd)], emitted |-> [p \in {} |-> [cid |-> <<>>, ts |-> Zero]]]

SyntaxErrs(p) ==
  (IF p # <<>> /\ p[1] = SL THEN {ErD("RootedPath", p)} ELSE {})
  \cup (IF p # <<>> /\ p[Len(p)] = SL THEN {ErD("PathEndsInSlash", p)} ELSE {})
  \cup (IF \E i \in 1..(Len(p) - 1) : p[i] = SL /\ p[i + 1] = SL THEN {ErD("RepeatSlashesInPath", p)} ELSE {})

OpErrs(v, p, segs, wrap, isPut) ==
  LET D == DOMAIN v.ents
      leaf(x) == x \in D /\ v.ents[x].leaf
  IN SyntaxErrs(p)
     \cup (IF \E x \in Ancestors(segs) \cup (IF isPut THEN {} ELSE {segs}) : leaf(x)
           THEN {ErD("LeafAsDirectory", p)} ELSE {})
     \cup (IF isPut /\ segs \in D THEN {ErD("DuplicatePath", p)} ELSE {})
     \cup (IF ~wrap /\ D # {} /\ <<segs[1]>> \notin D THEN {Er("TooManyRootLevelEntries")} ELSE {})

Implied(v, segs) == [x \in Ancestors(segs) |-> IF x \in DOMAIN v.ents THEN v.ents[x] ELSE DirE(NoMd)]
OpResults(v, p, wrap, isPut, new) ==
  LET segs == TLCEval(Split(p))
      errs == TLCEval(OpErrs(v, p, segs, wrap, isPut))
  IN IF errs # {} THEN {[o |-> e, v |-> v] : e \in errs}   \* the tree is left as it was
     ELSE {[o |-> [k |-> "ok"],
            v |-> [v EXCEPT !.ents = (segs :> new) @@ Implied(v, segs) @@ @]]}
PutResults(v, p, to, ts, wrap) == OpResults(v, p, wrap, TRUE, LeafE(to, ts))
MetaResults(v, p, md, wrap) == OpResults(v, p, wrap, FALSE, DirE(md))

(* --- building ---------------------------------------------------------------------- *)
Dirs(v, wrap) == {p \in DOMAIN v.ents : ~v.ents[p].leaf} \cup (IF wrap THEN {<<>>} ELSE {})
Ready(v, wrap) == LET T == TLCEval(Dirs(v, wrap) \ DOMAIN v.emitted) IN
                  {d \in T : \A x \in T : ~IsUnder(x, d)}

RECURSIVE LexLt(_, _)
LexLt(a, c) == IF a = <<>> THEN c # <<>>
               ELSE IF c = <<>> THEN FALSE
               ELSE IF a[1] # c[1] THEN a[1] < c[1] ELSE LexLt(Tail(a), Tail(c))
Children(v, d) == SortSeq(SetToSeq({p \in DOMAIN v.ents : Len(p) = Len(d) + 1 /\ SubSeq(p, 1, Len(d)) = d}),
                          LAMBDA a, c : LexLt(a[Len(a)], c[Len(c)]))
(* cids: bytes of the CIDs linked by put_link *)
LinksOf(v, d, cids) ==
  LET ch == TLCEval(Children(v, d)) IN
  TLCEval([i \in 1..Len(ch) |->
     LET e == v.ents[ch[i]] IN
     [h |-> << IF e.leaf THEN cids[e.to] ELSE v.emitted[ch[i]].cid >>,
      n |-> << ch[i][Len(ch[i])] >>,
      ts |-> << IF e.leaf THEN e.ts ELSE v.emitted[ch[i]].ts >>]])
DirMd(v, d) == IF d = <<>> THEN NoMd ELSE v.ents[d].md
WrittenMt(md) == IF md.mt = <<>> THEN <<>>
                 ELSE << [s |-> md.mt[1].s, n |-> IF md.mt[1].n \in {<<>>, <<Zero>>} THEN <<>> ELSE md.mt[1].n] >>
DirNode(md) == [k |-> "fs", t |-> <<DIR>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>, fo |-> <<>>,
                mode |-> md.mode, mt |-> WrittenMt(md)]

NodeResult(v, d, cids, limit, cid) ==
  LET ls  == LinksOf(v, d, cids)
      nd  == DirNode(DirMd(v, d))
      blk == TLCEval(EncNode(nd, ls))
      tot == FoldLeft(LAMBDA acc, l : Add(acc, l.ts[1]), U(Len(blk)), ls)
  IN IF limit # <<>> /\ Lt(limit[1], U(Len(blk)))
     THEN [o |-> ErD("TooLargeBlock", U(Len(blk))), v |-> [v EXCEPT !.st = "failed"]]
     ELSE IF ~Fits(tot)
     THEN [o |-> Er("TotalSizeOverflow"), v |-> [v EXCEPT !.st = "failed"]]
     ELSE [o |-> [k |-> "ok", path |-> PathOf(d), block |-> blk, links |-> ls, node |-> nd, ts |-> tot],
           v |-> [v EXCEPT !.emitted = (d :> [cid |-> cid, ts |-> tot]) @@ @]]
(* cid is that of the block (hashing is not specified) *)
NextNode(v, wrap, cids, limit, cid, Ds) ==
  IF v.st # "open" \/ Ready(v, wrap) = {}
  THEN {[o |-> [k |-> "none"], v |-> [v EXCEPT !.st = IF @ = "open" THEN "end" ELSE @]]}
  ELSE {NodeResult(v, d, cids, limit, cid) : d \in Ds}
=============================================================================
