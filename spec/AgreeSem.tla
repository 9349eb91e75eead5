----------------------------- MODULE AgreeSem -----------------------------
(* What the readers tell of the same DAG has to agree: the entries a walk     *)
(* gives are what lookups find, what visits read and what the node types tell *)
(* of their root blocks.                                                      *)
(*                                                                            *)
(* entries: [kind |-> "dir"|"file"|"symlink", id, path, b, fsz, md, done], in *)
(* the order of the walk, buckets left out; done: whether all of a file was   *)
(* read.                                                                      *)
EXTENDS WalkSem

(* below the entry at k: the following ones with longer paths (names have no slash)  *)
Under(p) == IF p = <<>> \/ p[Len(p)] = SLASH THEN p ELSE Append(p, SLASH)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsBelow(es, k, j) == j > k /\ (k = 1 \/ \A i \in (k + 1)..j : StartsWith(es[i].path, Under(es[k].path)))
(* the entries of that name in the directory at k                                    *)
Hits(es, k, name) ==
  IF ~IsSegment(name) THEN {}
  ELSE LET p == TLCEval(Join(es[k].path, name)) IN
       {j \in {i \in (k + 1)..Len(es) : es[i].path = p} : IsBelow(es, k, j)}

(* the result of a lookup: [k |-> "found", id] | [k |-> "notfound"] | [k |-> "err", e] *)
LookAgrees(es, k, name, o) ==
  IF es[k].kind # "dir" THEN o.k = "err"
  ELSE LET H == TLCEval(Hits(es, k, name)) IN
       CASE o.k = "found" -> \E j \in H : es[j].id = o.id
         [] o.k = "notfound" -> H = {}
         [] OTHER -> o.e = "Multiple" /\ Cardinality(H) > 1

(* what differs in the result of a visit: [k |-> "ok", b, fsz, md] | [k |-> "err"]     *)
ReadDiffers(e, o) ==
  IF e.kind # "file" \/ ~e.done THEN (IF o.k = "err" THEN {} ELSE {"missed"})
  ELSE IF o.k # "ok" THEN {"refused"}
  ELSE (IF o.b # e.b THEN {"b"} ELSE {}) \cup (IF o.fsz # e.fsz THEN {"fsz"} ELSE {})
       \cup (IF o.md # e.md THEN {"md"} ELSE {})

(* what differs in the node of the root block: [k |-> "ok", t, md] | [k |-> "err"]     *)
KindsOf(t) == CASE t \in {DIR, HAMT} -> {"dir"} [] t = SYMLINK -> {"symlink"} [] t = META -> {} [] OTHER -> {"file"}
NodeDiffers(e, o) ==
  IF o.k # "ok" THEN {"refused"}
  ELSE (IF e.kind \notin KindsOf(o.t) THEN {"type"} ELSE {}) \cup (IF o.md # e.md THEN {"md"} ELSE {})

(* the entries of the events of a walk, and what a failed one tells                    *)
EntryOf(o) == [kind |-> IF o.kinds \cap {"root", "dir"} # {} THEN "dir" ELSE CHOOSE x \in o.kinds : TRUE,
               id |-> o.id, path |-> o.path, b |-> IF o.kinds = {"file"} THEN o.b[1] ELSE <<>>,
               fsz |-> Opt(o.fsz, Zero), md |-> o.md[1], done |-> o.last]
Grown(es, o) ==
  IF o.kinds = {"bucket"} THEN es
  ELSE IF o.kinds = {"file"} /\ ~o.first
  THEN [es EXCEPT ![Len(es)].b = @ \o o.b[1], ![Len(es)].done = o.last]
  ELSE Append(es, EntryOf(o))
=============================================================================
