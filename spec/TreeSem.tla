------------------------------ MODULE TreeSem ------------------------------
(* The whole way of an entry: files imported, symlinks written, both put into *)
(* a tree builder, the tree walked from its root and every path resolved.     *)
(* Stated without any blocks: a tree is what has been put into it, and a walk *)
(* has to tell exactly that again, in the order of the names.                 *)
EXTENDS BuilderSem, WalkSem, ResolveSem

(* entries: [kind |-> "file"|"symlink", c |-> bytes, id |-> id of its root block]  *)
(* v: BuilderSem state, the `to` of its leaves are indices of entries               *)
(* tree states: [v, ids, exp, off, in, st |-> "put"|"walk"|"done"]                   *)
NewTree == [v |-> NewBuilder, ids |-> [p \in {} |-> 0], exp |-> <<>>, off |-> 0, in |-> FALSE, st |-> "put"]

TopOf(v, wrap) == IF wrap THEN <<>> ELSE CHOOSE p \in DOMAIN v.ents : Len(p) = 1
IsDirAt(v, p) == p = <<>> \/ ~v.ents[p].leaf
IdAt(t, es, p) == IF IsDirAt(t.v, p) THEN Opt(IF p \in DOMAIN t.ids THEN << t.ids[p] >> ELSE <<>>, 0)
                  ELSE es[t.v.ents[p].to].id

(* everything below d (and d itself), a directory before its entries                *)
RECURSIVE Told(_, _, _, _)
Told(v, es, d, path) ==
  IF ~IsDirAt(v, d)
  THEN LET e == es[v.ents[d].to] IN << [kind |-> e.kind, at |-> d, path |-> path, c |-> e.c, md |-> NoMd] >>
  ELSE LET ch == TLCEval(Children(v, d)) IN
       FoldLeft(LAMBDA acc, p : acc \o Told(v, es, p, Join(path, p[Len(p)])),
                << [kind |-> "dir", at |-> d, path |-> path, c |-> <<>>, md |-> MetaOf(DirNode(DirMd(v, d)))] >>, ch)

StartWalk(t, es, wrap, name) ==
  LET top == TopOf(t.v, wrap)
      all == TLCEval(Told(t.v, es, top, name))
  IN [t EXCEPT !.st = "walk", !.off = 0,
               !.exp = IF all[1].kind = "dir" THEN [all EXCEPT ![1].kind = "root"] ELSE all]

(* the next event of the walk: what it has to be, given that it has these bytes         *)
TreeStep(t, es, bytes) ==
  LET x    == Head(t.exp)
      fin  == x.kind # "file" \/ t.off + Len(bytes) >= Len(x.c)
      rest == IF fin THEN Tail(t.exp) ELSE t.exp
      base == [k |-> "ok", kind |-> x.kind, path |-> x.path, md |-> << x.md >>, id |-> IdAt(t, es, x.at),
               b |-> <<>>, first |-> TRUE, last |-> TRUE, fsz |-> <<>>, cont |-> rest # <<>>]
  IN [o |-> CASE x.kind = "file" ->
                   [base EXCEPT !.b = << SubSeq(x.c, t.off + 1, IMin(t.off + Len(bytes), Len(x.c))) >>,
                                !.first = ~t.in, !.last = fin, !.fsz = << U(Len(x.c)) >>]
              [] x.kind = "symlink" -> [base EXCEPT !.b = <<x.c>>]
              [] OTHER -> base,
      v |-> [t EXCEPT !.exp = rest, !.off = IF fin THEN 0 ELSE t.off + Len(bytes), !.in = ~fin, !.st = IF rest = <<>> THEN "done" ELSE "walk"]]

(* looking up a name in the directory d                                                 *)
Lookup(t, es, d, name) ==
  LET p == Append(d, name) IN
  IF p \in DOMAIN t.v.ents THEN [k |-> "found", id |-> IdAt(t, es, p)] ELSE [k |-> "notfound", id |-> 0]
=============================================================================
