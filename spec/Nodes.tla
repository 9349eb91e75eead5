------------------------------- MODULE Nodes -------------------------------
(* Abstract dag-pb nodes. A node is a record                                  *)
(*   k    "fs" UnixFS data | "raw" data which is not UnixFS | "none" no Data  *)
(*        field | "empty" empty Data field | "bad" not a dag-pb block at all  *)
(*   t    option of the UnixFS type number                                    *)
(*   d    option of the UnixFS Data bytes                                     *)
(*   sz, bs, ht, fo     filesize, blocksizes, hashType, fanout (u64, U64.tla) *)
(*   mode, mt           option of u64; option of [s |-> u64, n |-> option]    *)
(*   l    sequence of links [to |-> id, n |-> option of name, ts |-> option]  *)
(* Options are sequences of length 0 or 1. to >= 1 is a valid CID (ids of the *)
(* nodes of the DAG; larger numbers name CIDs of blocks outside of it), to <= *)
(* 0 is a hash which is not a CID. Names and Data are sequences of bytes.     *)
EXTENDS U64, FiniteSets, TLC, SequencesExt

RAW == 0  DIR == 1  FILE == 2  META == 3  SYMLINK == 4  HAMT == 5

(* Deviation UndefinedTypeAsRaw (known finding, C19): type numbers which are  *)
(* not defined, and a missing type, are read as Raw.                          *)
UndefinedType(n) == n.t = <<>> \/ n.t[1] \notin RAW..HAMT
TypeOf(n) == IF UndefinedType(n) THEN RAW ELSE n.t[1]

IsFs(n)    == n.k = "fs"
Opt(o, dflt) == IF o = <<>> THEN dflt ELSE o[1]
DataOf(n)  == Opt(n.d, <<>>)
NameOf(lk) == Opt(lk.n, <<>>)
ValidCid(lk) == lk.to >= 1

(* Metadata as reported: mode option and mtime option with nanoseconds *)
MetaOf(n) == [mode |-> n.mode,
              mt |-> IF n.mt = <<>> THEN <<>>
                     ELSE << [s |-> n.mt[1].s, n |-> Opt(n.mt[1].n, Zero)] >>]
HasMeta(n) == n.mode # <<>> \/ n.mt # <<>>

MetaObs(m) == [mode |-> m.mode, mt |-> m.mt, ft |-> TRUE]

(* --- errors: name and optional detail (<<>> when there is nothing to compare) -- *)
Er(e)     == [k |-> "err", e |-> e, d |-> <<>>]
ErD(e, d) == [k |-> "err", e |-> e, d |-> << d >>]
(* the node type carried by an error *)
TypeD(n)  == [dir |-> TypeOf(n) \in {DIR, HAMT}, file |-> TypeOf(n) = FILE, num |-> << TypeOf(n) >>]
(* an invalid CID in the link at 1-based position i; a missing and an empty hash   *)
(* are the same                                                                    *)
BadCidD(l, i) == [nth |-> i - 1, name |-> NameOf(l[i]),
                  to |-> IF l[i].to = -1 THEN -2 ELSE IF l[i].to = -99 THEN 99 ELSE IF l[i].to < -5 THEN -5 ELSE l[i].to]
BadCid(l, i)  == ErD("InvalidCid", BadCidD(l, i))

(* index of the first link satisfying a predicate given as a set of indices *)
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j

(* TLCEval only makes TLC evaluate a function once, it is the identity *)
Flatten(ss) == FlattenSeq(TLCEval(ss))
MapSeq(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
(* the elements of s at the positions in I, in order *)
FilterIdx(s, I) == LET t == TLCEval(s) IN
                   FoldLeft(LAMBDA acc, i : IF i \in I THEN Append(acc, t[i]) ELSE acc,
                            <<>>, [i \in 1..Len(t) |-> i])
=============================================================================
