------------------------------- MODULE Reader -------------------------------
(* State machine of one file visit over a DAG.                                *)
EXTENDS FileSem

VARIABLES dag,      \* id -> node
          root,     \* id of the root block
          range,    \* option of <<lo, hi>>
          visit,    \* the visit (FileSem)
          out       \* observation of the last call
rvars == <<dag, root, range, visit, out>>

NoObs == [k |-> "none"]

Start ==
  /\ visit.st = "idle"
  /\ \E x \in StartResults(visit, dag[root], range) : visit' = x.v /\ out' = x.o
  /\ UNCHANGED <<dag, root, range>>

Continue ==
  /\ visit.st = "active"
  /\ Head(visit.pend).to \in DOMAIN dag
  /\ \E x \in ContResults(visit, dag[Head(visit.pend).to], range) :
       visit' = x.v /\ out' = x.o
  /\ UNCHANGED <<dag, root, range>>
=============================================================================
