----------------------------- MODULE MC_Agree -----------------------------
(* The readers agree: every small DAG is walked, then any of its entries is   *)
(* looked up by any name, read on its own and taken for a node. The walk, the *)
(* lookup and the visit are the state machines of the other models.           *)
EXTENDS AgreeSem, ResolveSem, Decode, SmallDags, Json

CONSTANTS MODE, EMIT

VARIABLES dag, root, name, walk, es, ph, at, needle, lk, vis, obs
vars == <<dag, root, name, walk, es, ph, at, needle, lk, vis, obs>>

RootNames == { <<>>, <<114>>, <<47>> }
Needles == { <<>>, Nm(1), Nm(2), Nm(3), <<46>>, Pfx(1), Pfx(1) \o Nm(1), <<97, 47, 97>>, <<195, 164>>, <<98, 97>> }

Init ==
  /\ \E d \in IF MODE = "good" THEN GoodDags ELSE BadDags : dag = TLCEval(d)
  /\ root = Len(dag) /\ name \in RootNames
  /\ walk = NewWalk(root, name) /\ es = <<>> /\ ph = "walk"
  /\ at = 0 /\ needle = <<>> /\ lk = NewLookup /\ vis = IdleVisit(CodePolicy) /\ obs = [k |-> "none"]
  /\ EMIT => PrintT("@" \o ToJson([kind |-> "agree", nodes |-> dag, root |-> root, name |-> name,
                                   cache |-> (Len(dag) % 2 = 0)]))
Obs(e) == IF e.k = "err" THEN [k |-> "err", e |-> e.e] ELSE e
Walk ==
  /\ ph = "walk" /\ walk.st = "active" /\ NextId(walk) \in DOMAIN dag
  /\ \E x \in WalkResults(walk, dag[NextId(walk)]) :
       /\ walk' = x.v /\ es' = IF x.o.k = "ok" THEN Grown(es, x.o) ELSE es
       /\ ph' = IF x.v.st = "active" THEN "walk" ELSE "ask"
  /\ UNCHANGED <<dag, root, name, at, needle, lk, vis, obs>>
(* the entries which can be asked for: all, or the file a walk failed in       *)
Asked == IF walk.st = "done" THEN DOMAIN es
         ELSE {k \in DOMAIN es : k = Len(es) /\ ~es[k].done} \cup (IF es = <<>> THEN {0} ELSE {})
Node(k) == dag[IF k = 0 THEN root ELSE es[k].id]
LookUp ==
  /\ ph = "ask" /\ at' \in Asked \ {0} /\ needle' \in IF es[at'].kind = "dir" THEN Needles ELSE {Nm(1)}
  /\ \E x \in ResolveResults(lk, Node(at'), needle') :
       lk' = x.v /\ obs' = Obs(x.o) /\ ph' = IF x.v.st = "more" THEN "look" ELSE "looked"
  /\ UNCHANGED <<dag, root, name, walk, es, vis>>
LookOn ==
  /\ ph = "look"
  /\ \E x \in ContLookupResults(lk, dag[Head(lk.queue)], needle) :
       lk' = x.v /\ obs' = Obs(x.o) /\ ph' = IF x.v.st = "more" THEN "look" ELSE "looked"
  /\ UNCHANGED <<dag, root, name, walk, es, at, needle, vis>>
ReadObs(b, x) == IF x.o.k = "err" THEN Obs(x.o) ELSE [k |-> "ok", b |-> b \o x.o.b, fsz |-> x.o.fsz, md |-> x.o.md]
ReadPh(x) == IF x.v.st = "active" THEN "read" ELSE "over"
Read ==
  /\ ph = "ask" /\ at' \in Asked
  /\ \E x \in StartResults(vis, Node(at'), <<>>) : vis' = x.v /\ obs' = ReadObs(<<>>, x) /\ ph' = ReadPh(x)
  /\ UNCHANGED <<dag, root, name, walk, es, needle, lk>>
ReadOn ==
  /\ ph = "read"
  /\ \E x \in ContResults(vis, dag[Head(vis.pend).to], <<>>) : vis' = x.v /\ obs' = ReadObs(obs.b, x) /\ ph' = ReadPh(x)
  /\ UNCHANGED <<dag, root, name, walk, es, at, needle, lk>>
Next == ~EMIT /\ (Walk \/ LookUp \/ LookOn \/ Read \/ ReadOn)
Spec == Init /\ [][Next]_vars

(* --- invariants ----------------------------------------------------------------- *)
LookInv == ph = "looked" => walk.st # "done" \/ LookAgrees(es, at, needle, obs)
ReadInv == ph = "over" => IF at = 0 THEN obs.k = "err" ELSE ReadDiffers(es[at], obs) = {}
NodeInv == walk.st = "done" => \A k \in DOMAIN es :
             IF IsFs(Node(k)) THEN NodeDiffers(es[k], [k |-> "ok", t |-> TypeOf(Node(k)), md |-> MetaOf(Node(k))]) = {} ELSE FALSE
(* a walk tells every entry: what the lookups find is what is linked                  *)
Linked(k, nm) == {lkk.to : lkk \in {l \in ToSet(Node(k).l) : NameOf(l) = nm}}
HitsInv == ph = "ask" /\ walk.st = "done" =>
             \A k \in DOMAIN es : (es[k].kind = "dir" /\ TypeOf(Node(k)) = DIR) =>
               \A nm \in Needles : {es[j].id : j \in Hits(es, k, nm)} = Linked(k, nm)
===========================================================================
