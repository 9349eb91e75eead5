------------------------------ MODULE MC_Decode ------------------------------
(*   MODE = "nodes": all nodes with fields from small sets are encoded and    *)
(*     read back, in canonical and in other field orders                      *)
(*   MODE = "values": the same nodes as values which are written and read     *)
(*   MODE = "unknown": unknown fields (known numbers with other wire types too) *)
(*     and repeated ones in the node, its link and its UnixFS data: skipped,  *)
(*     and the last one counts                                                *)
(*   MODE = "bytes": all byte strings up to MaxBytes over Alphabet            *)
EXTENDS Decode, Json

CONSTANTS MODE, MaxBytes, EMIT

VARIABLES blk, src
vars == <<blk, src>>

Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Nums == {Zero, U(1), U(127), U(128), U(16384), <<0, 255, Limb - 1>>, <<32768, 0, 0>>, MaxU64}
O(S) == {<<>>} \cup {<<x>> : x \in S}
BaseFs == [k |-> "fs", t |-> <<2>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>, fo |-> <<>>, mode |-> <<>>, mt |-> <<>>]
FsSet ==
  {[BaseFs EXCEPT !.t = <<t>>] : t \in 0..5}
  \cup {[BaseFs EXCEPT !.d = d, !.sz = s] : d \in O({<<>>, <<1>>, <<10, 0, 18>>}), s \in O(Nums)}
  \cup {[BaseFs EXCEPT !.bs = x] : x \in Seqs({Zero, U(128), MaxU64}, 0, 3)}
  \cup {[BaseFs EXCEPT !.ht = h, !.fo = f] : h \in O({Zero, U(34), MaxU64}), f \in O({Zero, U(256)})}
  \cup {[BaseFs EXCEPT !.mode = m, !.mt = t] : m \in O({Zero, U(420), <<0, 255, Limb - 1>>}),
          t \in O({[s |-> s, n |-> n] : s \in {Zero, U(5), MaxU64}, n \in O({Zero, U(7), <<0, 59, 10>>})})}
LinkSet == {[h |-> h, n |-> n, ts |-> t] : h \in O({<<>>, <<18, 0>>}), n \in O({<<>>, <<97>>}), t \in O({Zero, MaxU64})}
Datas == O({<<>>, <<7>>, <<8, 2>>})
Nodes == {[n |-> f, l |-> <<>>] : f \in FsSet} \cup {[n |-> BaseFs, l |-> l] : l \in Seqs(LinkSet, 0, 2)}
Bare == {[d |-> d, l |-> l] : d \in Datas, l \in Seqs(LinkSet, 0, 2)}
Alphabet == {0, 1, 2, 8, 10, 18, 24, 128, 255}

Enc(x) == IF "n" \in DOMAIN x THEN EncNode(x.n, x.l) ELSE EncLinks(x.l) \o OptBytes(10, x.d)
DataFirst(x) == IF "n" \in DOMAIN x THEN BytesF(10, EncFs(x.n)) \o EncLinks(x.l) ELSE OptBytes(10, x.d) \o EncLinks(x.l)
None == [d |-> <<>>, l |-> <<>>]
ValueOf(x) == [kind |-> "val", fs |-> IF "n" \in DOMAIN x THEN x.n ELSE BaseFs, links |-> x.l,
               d |-> IF "n" \in DOMAIN x THEN << EncFs(x.n) >> ELSE x.d]
(* a field of any number below 16 and any wire type, and two of larger numbers                *)
Extra(f, w) == <<(f * 8) + w>> \o CASE w = 0 -> <<5>> [] w = 1 -> <<1, 2, 3, 4, 5, 6, 7, 8>> [] w = 5 -> <<9, 8, 7, 6>>
                                     [] OTHER -> <<2, 8, 1>>
Extras(known) == {Extra(f, w) : f \in 1..15, w \in {0, 1, 2, 5}} \ known
Larger == {<<128, 1, 3>>, <<138, 1, 2, 18, 0>>, <<189, 191, 4, 1, 1, 1, 1>>}
Full == [BaseFs EXCEPT !.t = <<1>>, !.d = << <<9>> >>, !.sz = <<U(300)>>, !.mode = <<U(420)>>, !.mt = <<[s |-> U(5), n |-> <<U(7)>>]>>]
FullLink == [h |-> << <<18, 0>> >>, n |-> << <<97>> >>, ts |-> <<U(300)>>]
KnownFs == {Extra(x[1], x[2]) : x \in {<<1, 0>>, <<2, 2>>, <<3, 0>>, <<4, 0>>, <<4, 2>>, <<5, 0>>, <<6, 0>>, <<7, 0>>, <<8, 2>>}}
KnownLink == {Extra(x[1], x[2]) : x \in {<<1, 2>>, <<2, 2>>, <<3, 0>>}}
KnownNode == {Extra(x[1], x[2]) : x \in {<<1, 2>>, <<2, 2>>}}
KnownTime == {Extra(x[1], x[2]) : x \in {<<1, 0>>, <<2, 5>>}}
LinkB(l) == OptBytes(10, l.h) \o OptBytes(18, l.n) \o OptInt(24, l.ts)
Around(x, m) == {x \o m, m \o x}
(* what must read as: the node of Full and a FullLink                                        *)
WithUnknown ==
  LET fs == EncFs(Full)  lb == LinkB(FullLink)  nb == BytesF(18, lb) \o BytesF(10, fs)
  IN UNION {Around(x, nb) : x \in Larger \cup Extras(KnownNode)}
     \cup {BytesF(18, lb) \o BytesF(10, y) : y \in UNION {Around(x, fs) : x \in Larger \cup Extras(KnownFs)}}
     \cup {BytesF(18, y) \o BytesF(10, fs) : y \in UNION {Around(x, lb) : x \in Larger \cup Extras(KnownLink)}}
     (* all but the last of repeated singular fields do not matter *)
     \cup {BytesF(18, lb) \o BytesF(10, <<>>) \o BytesF(10, fs), BytesF(10, <<8, 2>>) \o nb}
     \cup {BytesF(18, lb) \o BytesF(10, x \o fs) : x \in {<<8, 2>>, <<18, 1, 1>>, <<24, 9>>, <<56, 1>>}}
     \cup {BytesF(18, x \o lb) \o BytesF(10, fs) : x \in {<<10, 0>>, <<18, 1, 98>>, <<24, 9>>}}
     (* an mtime with unknown fields *)
     \cup {BytesF(18, lb) \o BytesF(10, EncFs([Full EXCEPT !.mt = <<>>]) \o BytesF(66, y)) :
              y \in UNION {Around(x, <<8, 5, 21, 7, 0, 0, 0>>) : x \in Larger \cup Extras(KnownTime)}}
UnknownSrc == [n |-> Full, l |-> <<FullLink>>]
Init == /\ CASE MODE = "unknown" -> src = UnknownSrc /\ blk \in WithUnknown
             [] MODE = "nodes" -> src \in Nodes \cup Bare /\ blk \in {Enc(src), DataFirst(src)}
             [] MODE = "values" -> src \in Nodes \cup Bare /\ blk = Enc(src)
             [] OTHER -> src = None /\ blk \in Seqs(Alphabet, 0, MaxBytes)
        /\ EMIT => PrintT("@" \o ToJson(IF MODE = "values" THEN ValueOf(src) ELSE [kind |-> "pb", block |-> blk]))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

D == DecodeNode(blk)
RoundInv ==
  MODE \in {"nodes", "values", "unknown"} =>
    /\ D.st = "ok" /\ D.links = src.l
    /\ IF "n" \in DOMAIN src THEN (MODE = "unknown" \/ D.data = << EncFs(src.n) >>) /\ DecodeFs(D.data[1]) = [st |-> "ok", fs |-> src.n]
       ELSE D.data = src.d
(* the writers of the node types write what the readers read, and its size                 *)
WriteInv ==
  MODE = "values" /\ "n" \in DOMAIN src =>
    /\ Written("flat", [fs |-> src.n, links |-> src.l]) = blk
    /\ FlatResults(D, DecodeFs(D.data[1])) = ReadBackResults([fs |-> src.n, links |-> src.l])
    /\ Written("node", [d |-> D.data, links |-> src.l]) = blk
    /\ Written("fs", [fs |-> src.n]) = D.data[1]
    /\ UnixFsResults(DecodeFs(D.data[1])) = {[k |-> "ok", fs |-> src.n]}
Again(d) == EncLinks(d.links) \o OptBytes(10, d.data)
BytesInv ==
  LET d == D IN
  /\ d.st \in {"ok", "odd", "wild", "bad"}
  (* reading, writing and reading is the same as reading; canonical blocks are written the same *)
  /\ d.st = "ok" => DecodeNode(Again(d)) = d
  (* nothing but the last data is ever reported *)
  /\ d.st \in {"ok", "odd"} /\ d.data # <<>> =>
       \E i \in 0..Len(blk) : SubSeq(blk, i + 1, i + Len(d.data[1])) = d.data[1]
  /\ NodeDataResults(d) # {} /\ FlatResults(d, DecodeFs(Opt(d.data, <<>>))) # {}
=============================================================================
