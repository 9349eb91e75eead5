-------------------------------- MODULE Wire --------------------------------
(* Canonical encoding of dag-pb and UnixFS: fields in the order of the dag-pb *)
(* specification (links before data), minimal varints, absent fields left     *)
(* out. Blocks are sequences of bytes. Links here are [h |-> option of bytes  *)
(* of the hash, n |-> option of name, ts |-> option of u64].                  *)
EXTENDS Nodes

Shr7(x) == <<x[1] \div 128, (x[1] % 128) * 131072 + x[2] \div 128, (x[2] % 128) * 131072 + x[3] \div 128>>
RECURSIVE Varint(_)
Varint(x) == IF x[1] = 0 /\ x[2] = 0 /\ x[3] < 128 THEN <<x[3]>>
             ELSE <<128 + (x[3] % 128)>> \o Varint(TLCEval(Shr7(x)))
VarintN(n) == Varint(U(n))
Fixed32(x) == LET lo == x[3]  hi == x[2] IN
              <<lo % 256, (lo \div 256) % 256, (lo \div 65536) % 256, hi % 256>>

BytesF(tag, b) == <<tag>> \o VarintN(Len(b)) \o b
IntF(tag, x)   == <<tag>> \o Varint(x)
OptInt(tag, o)   == IF o = <<>> THEN <<>> ELSE IntF(tag, o[1])
OptBytes(tag, o) == IF o = <<>> THEN <<>> ELSE BytesF(tag, o[1])

EncLink(l) == OptBytes(10, l.h) \o OptBytes(18, l.n) \o OptInt(24, l.ts)
EncLinks(ls) == FlattenSeq(TLCEval([i \in 1..Len(ls) |-> BytesF(18, EncLink(ls[i]))]))
EncMtime(m) == IntF(8, m.s) \o (IF m.n = <<>> THEN <<>> ELSE <<21>> \o Fixed32(m.n[1]))
EncFs(n) ==
  (IF n.t = <<>> THEN <<>> ELSE IntF(8, U(n.t[1])))
  \o OptBytes(18, n.d)
  \o OptInt(24, n.sz)
  \o FlattenSeq(TLCEval([i \in 1..Len(n.bs) |-> IntF(32, n.bs[i])]))
  \o OptInt(40, n.ht) \o OptInt(48, n.fo) \o OptInt(56, n.mode)
  \o (IF n.mt = <<>> THEN <<>> ELSE BytesF(66, EncMtime(n.mt[1])))
EncNode(n, ls) == EncLinks(ls) \o BytesF(10, EncFs(n))

(* lengths, as u64: for content too large to be written out *)
VarLen(x) == Len(Varint(x))
FieldLen(x) == Add(U(1 + VarLen(x)), x)     \* tag, length, content of x bytes
=============================================================================
