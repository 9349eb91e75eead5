------------------------------- MODULE AddSem -------------------------------
(* Semantics of importing a file: the content is cut into chunks of cs bytes, *)
(* the leaves are level 1, and every further level groups bf consecutive      *)
(* blocks of the level below until a single block is left.                    *)
EXTENDS Wire

CeilDiv(a, c) == ((a - 1) \div c) + 1
NumLeaves(len, cs) == IF len = 0 THEN 1 ELSE CeilDiv(len, cs)
(* the number of blocks at each level *)
RECURSIVE LevelsOf(_, _)
LevelsOf(n, bf) == IF n = 1 THEN <<1>> ELSE <<n>> \o LevelsOf(CeilDiv(n, bf), bf)
Levels(len, cs, bf) == LevelsOf(NumLeaves(len, cs), bf)

(* bytes of leaf j (from 1): from LeafOff, LeafLen of them *)
LeafOff(j, cs) == (j - 1) * cs
LeafLen(j, len, cs) == IMin(cs, len - LeafOff(j, cs))
(* the links of block j (from 1) at level k > 1 are the blocks First..Last of level k - 1 *)
FirstKid(j, bf) == ((j - 1) * bf) + 1
LastKid(j, bf, below) == IMin(j * bf, below)

Consumed(n, buf, cs) == IMin(n, cs - buf)

(* the node written for a leaf and for a link block *)
FileNode(d, sz, bs) == [k |-> "fs", t |-> <<FILE>>, d |-> d, sz |-> <<sz>>, bs |-> bs, ht |-> <<>>, fo |-> <<>>,
                        mode |-> <<>>, mt |-> <<>>]
LeafNode(data) == FileNode(IF data = <<>> THEN <<>> ELSE <<data>>, U(Len(data)), <<>>)
LinkNode(sizes) == FileNode(<<>>, USum(sizes), sizes)
FileLink(h, tot) == [h |-> <<h>>, n |-> << <<>> >>, ts |-> <<tot>>]

(* lengths of the encoded blocks without writing them out: a leaf of n bytes, and a    *)
(* link block over kids with file sizes and total sizes and CIDs of hl bytes           *)
FsLen(n)   == IF n = 0 THEN 4 ELSE IF n < 0 THEN 0 ELSE 2 + Clip(FieldLen(U(n))) + 1 + VarLen(U(n))
LeafBlockLen(n) == Clip(FieldLen(U(FsLen(n))))
LinkFsLen(sizes) == 3 + VarLen(USum(sizes)) + FoldLeft(LAMBDA acc, x : acc + 1 + VarLen(x), 0, sizes)
OneLinkLen(hl, tot) == Clip(FieldLen(U(Clip(FieldLen(U(hl))) + 3 + VarLen(tot))))
LinkBlockLen(sizes, tots, hl) ==
  FoldLeft(LAMBDA acc, x : acc + OneLinkLen(hl, x), 0, tots) + Clip(FieldLen(U(LinkFsLen(sizes))))
=============================================================================
