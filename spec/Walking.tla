------------------------------ MODULE Walking ------------------------------
(* State machine of one walk over a DAG.                                      *)
EXTENDS WalkSem

VARIABLES dag, root, name, walk, out

NoObs == [k |-> "none"]
StartState == walk = NewWalk(root, name) /\ out = NoObs

Step ==
  /\ walk.st = "active"
  /\ NextId(walk) \in DOMAIN dag
  /\ \E x \in WalkResults(walk, dag[NextId(walk)]) : walk' = x.v /\ out' = x.o
  /\ UNCHANGED <<dag, root, name>>
=============================================================================
