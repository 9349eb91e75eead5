------------------------------- MODULE Judge -------------------------------
(* Comparison of observations of the implementation with the results allowed  *)
(* by the specification. A comparison gives the set of what differs:          *)
(*   panic    the call panicked                                               *)
(*   refused  an error where only success is allowed                          *)
(*   missed   success where only an error is allowed                          *)
(*   err, detail   a different error, an error carrying different values      *)
(*   and names of fields of successful results                                *)
EXTENDS Decode

(* carried details are compared when the specification gives them; "num" is   *)
(* only taken from a text and might not be available                          *)
DetailOk(e, rd, od) ==
  \/ rd = <<>>
  \/ rd = od
  \/ /\ e \in {"UnexpectedType", "UnsupportedType", "UnexpectedBucketType"}
     /\ Len(rd) = 1 /\ Len(od) = 1
     /\ rd[1].dir = od[1].dir /\ rd[1].file = od[1].file /\ od[1].num = <<>>

(* e = "*" stands for any error, "?" is observed for one of unknown name *)
ErrMis(ro, o) == IF ro.e = "*" \/ o.e = "?" THEN {}
                 ELSE IF ro.e # o.e THEN {"err"}
                 ELSE IF DetailOk(ro.e, ro.d, o.d) THEN {}
                 ELSE IF o.e = "UnsupportedDirectory" /\ o.d = <<>> THEN {} \* values not accessible
                 ELSE {"detail"}

(* OkMis(ro, o) compares two successful results *)
Mis(ro, o, OkMis(_, _)) ==
  IF o.k = "panic" THEN {"panic"}
  ELSE IF o.k = "err" /\ ro.k = "err" THEN ErrMis(ro, o)
  ELSE IF o.k = "err" THEN {"refused"}
  ELSE IF ro.k = "err" THEN {"missed"}
  ELSE OkMis(ro, o)

(* the nodes a block of the scenario may be taken for (one, unless given as bytes)  *)
NodesAt(bg, id) == IF "tab" \in DOMAIN bg THEN TLCEval(Candidates(bg.nodes[id].b, bg.tab)) ELSE {bg.nodes[id]}
AnyResult(v) == {[o |-> [k |-> "any"], v |-> v]}
Wild(v) == [v EXCEPT !.st = "wild"]
AnyMis(o) == IF o.k = "panic" THEN {"panic"} ELSE {}

AllIn(s, x) == \A i \in 1..Len(s) : s[i] = x
=============================================================================
