------------------------------- MODULE Trace -------------------------------
(* Judges a trace recorded from the implementation (harness/) against the     *)
(* specification. The trace is read line by line; S is the set of             *)
(* specification states which agree with everything observed so far in the    *)
(* current scenario. A violation of the property VIEW is an observation for   *)
(* which every result allowed by the specification differs in something that  *)
(* property is about. When the difference is only in what other properties    *)
(* are about, and the specification cannot follow, the rest of the scenario   *)
(* is not judged ("off", counted; none on a conforming implementation).       *)
EXTENDS JudgeWalk, JudgeRes, JudgeBld, JudgeAdd, JudgePb, JudgeTree, JudgeAgree, Json, IOUtils, TLC

View == IOEnv.VIEW
(* violations found are judged again with all of the allowed nondeterminism         *)
Lenient == "LENIENT" \in DOMAIN IOEnv
Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,     \* next line
          b,     \* line of the current scenario's begin
          S,     \* set of specification states
          wf,    \* the scenario's DAG is a well-formed file
          mode,  \* "run" | "off" | "bad"
          cnt    \* [scn, ev, off, viol, dev]
vars == <<i, b, S, wf, mode, cnt>>

B == Lines[b]
E == Lines[i]

(* --- dispatch ------------------------------------------------------------------- *)
Init0 == CASE E.kind = "file" -> FileInit(E, Lenient)
           [] E.kind = "walk" -> WalkInit(E)
           [] E.kind = "res" -> {NewLookup}
           [] E.kind = "bld" -> {NewBuilder}
           [] E.kind = "add" -> {NewImport(E)}
           [] E.kind = "pb" -> PbInit(E)
           [] E.kind = "val" -> ValInit
           [] E.kind = "sym" -> {E.prefix}
           [] E.kind = "tree" -> {NewTree}
           [] E.kind = "agree" -> AgreeInit
Wf0   == CASE E.kind = "file" -> IF "tab" \in DOMAIN E THEN FALSE ELSE WellFormed(E.nodes, E.root, TRUE)
           [] OTHER -> FALSE
(* whether a call gave the same as without any caches                                 *)
CmpResults == {[o |-> [k |-> "ok", same |-> TRUE], v |-> v] : v \in S}
Results == CASE E.ev = "cmp" -> CmpResults
             [] B.kind = "file" -> FileResults(B, E, S)
             [] B.kind = "walk" -> WalkEvResults(B, E, S)
             [] B.kind = "res" -> ResEvResults(B, E, S)
             [] B.kind = "bld" -> BldResults(B, E, S)
             [] B.kind = "add" -> AddResults(B, E, S)
             [] B.kind \in {"pb", "val"} -> PbResults(B, E, S)
             [] B.kind = "sym" -> SymResults(B, E, S)
             [] B.kind = "tree" -> TreeResults(B, E, S)
             [] B.kind = "agree" -> AgreeResults(B, E, S)
MisOf(ro) == CASE E.ev = "cmp" -> IF ro.same = E.o.same THEN {} ELSE {"cached"}
               [] B.kind = "file" -> FileMis(ro, E.o)
               [] B.kind = "walk" -> WalkMis(ro, E.o)
               [] B.kind = "res" -> ResMis(ro, E.o)
               [] B.kind = "bld" -> BldMis(ro, E.o)
               [] B.kind = "add" -> AddMis(ro, E.o)
               [] B.kind \in {"pb", "val"} -> PbMis(ro, E.o)
               [] B.kind = "sym" -> SymMis(ro, E.o)
               [] B.kind = "tree" -> TreeMis(ro, E.o)
               [] B.kind = "agree" -> AgreeMis(ro, E.o)
Rel == CASE E.ev = "cmp" -> IF View = "C14" THEN {"cached"} ELSE {}
         [] B.kind = "file" -> FileRel(View, wf)
         [] B.kind = "walk" -> WalkRel(View)
         [] B.kind = "res" -> ResRel(View)
         [] B.kind = "bld" -> BldRel(View, E)
         [] B.kind = "add" -> AddRel(View, E)
         [] B.kind \in {"pb", "val"} -> PbRel(View, E)
         [] B.kind = "sym" -> SymRel(View)
         [] B.kind = "tree" -> TreeRel(View, E)
         [] B.kind = "agree" -> AgreeRel(View)
Follows(m) == CASE E.ev = "cmp" -> TRUE
                [] B.kind = "file" -> FileFollows(m)
                [] B.kind = "walk" -> WalkFollows(m)
                [] B.kind = "res" -> ResFollows(m)
                [] B.kind = "bld" -> BldFollows(m)
                [] B.kind = "add" -> AddFollows(m)
                [] B.kind \in {"pb", "val"} -> PbFollows(m)
                [] B.kind = "sym" -> SymFollows(m)
                [] B.kind = "tree" -> TreeFollows(m)
                [] B.kind = "agree" -> AgreeFollows(m)
(* the accepted step is explained only by the known deviation *)
Deviates == CASE B.kind = "file" -> FileDev(B, S)
              [] B.kind = "walk" -> WalkDev(B, S)
              [] OTHER -> FALSE

Begin == /\ E.ev = "begin"
         /\ b' = i /\ S' = Init0 /\ mode' = "run"
         /\ wf' = Wf0
         /\ cnt' = [cnt EXCEPT !.scn = @ + 1]

Skip == /\ E.ev # "begin" /\ (E.ev = "end" \/ mode # "run")
        /\ UNCHANGED <<b, S, wf, mode, cnt>>

Call ==
  /\ E.ev \notin {"begin", "end"} /\ mode = "run"
  /\ LET R   == TLCEval(Results)
         rel == Rel
         M   == TLCEval([r \in R |-> MisOf(r.o)])
         ok  == TLCEval({r \in R : M[r] \cap rel = {}})
         nxt == TLCEval({r.v : r \in {x \in ok : Follows(M[x])}})
     IN /\ IF ok = {}
           THEN /\ mode' = "bad"
                /\ cnt' = [cnt EXCEPT !.viol = @ + 1]
                /\ PrintT(<<"VIOL", B.id, i - b, E.ev, {M[r] \cap rel : r \in R}>>)
           ELSE IF nxt = {}
           THEN /\ mode' = "off" /\ cnt' = [cnt EXCEPT !.off = @ + 1]
                /\ PrintT(<<"OFF", B.id, i - b, E.ev, {M[r] : r \in R}>>)
           ELSE mode' = "run" /\ (IF E.o.k = "ok" /\ E.ev # "cmp" /\ Deviates THEN PrintT(<<"DEV", "UndefinedTypeAsRaw", B.id>>) ELSE TRUE) /\ cnt' = [cnt EXCEPT !.ev = @ + 1]
        /\ S' = nxt
  /\ UNCHANGED <<b, wf>>

Init == i = 1 /\ b = 0 /\ S = {} /\ wf = FALSE /\ mode = "off"
        /\ cnt = [scn |-> 0, ev |-> 0, off |-> 0, viol |-> 0]
Next == \/ /\ i <= Len(Lines)
           /\ (Begin \/ Skip \/ Call)
           /\ i' = i + 1
        \/ /\ i = Len(Lines) + 1
           /\ PrintT(<<"SUMMARY", cnt.scn, cnt.ev, cnt.off, cnt.viol>>)
           /\ i' = i + 1
           /\ UNCHANGED <<b, S, wf, mode, cnt>>
Spec == Init /\ [][Next]_vars
=============================================================================
