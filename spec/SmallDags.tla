----------------------------- MODULE SmallDags -----------------------------
(* All small DAGs: of a leaf (1), a symlink (2), a two block file (3, 4) and  *)
(* Conts containers, each a directory or a shard with up to MaxLinks links to *)
(* any lower nodes (GoodDags), and all single defects (Deep: pairs) of one    *)
(* DAG with all kinds of nodes (BadDags).                                     *)
EXTENDS Nodes

CONSTANTS Conts, MaxLinks, Deep

NoNode == [k |-> "fs", t |-> <<FILE>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>,
           fo |-> <<>>, mode |-> <<>>, mt |-> <<>>, l |-> <<>>]
Lnk(to, nm) == [to |-> to, n |-> << nm >>, ts |-> <<>>]
Leaf  == [NoNode EXCEPT !.d = << <<7>> >>, !.sz = << U(1) >>, !.mode = << U(420) >>]
Chunk == [NoNode EXCEPT !.t = <<RAW>>, !.d = << <<8, 9>> >>, !.sz = << U(2) >>]
Sym   == [NoNode EXCEPT !.t = <<SYMLINK>>, !.d = << <<46, 46>> >>, !.mode = << U(511) >>]
Two(a, c) == [NoNode EXCEPT !.l = <<Lnk(a, <<>>), Lnk(c, <<>>)>>, !.bs = <<U(2), U(2)>>, !.sz = << U(4) >>,
                            !.mt = << [s |-> U(5), n |-> << U(6) >>] >>]
Dir(l)   == [NoNode EXCEPT !.t = <<DIR>>, !.l = l, !.mt = << [s |-> U(1), n |-> <<>>] >>]
Shard(l) == [NoNode EXCEPT !.t = <<HAMT>>, !.l = l, !.ht = << U(34) >>, !.fo = << U(256) >>, !.mode = << U(493) >>]

Nm(x)  == <<96 + x>>               \* "a", "b", ..
Pfx(x) == <<48, 64 + x>>           \* "0A", "0B", ..
Firsts == <<Leaf, Sym, Chunk, Two(3, 3)>>
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Targets(ns) == {x \in DOMAIN ns : x # 3}   \* chunks are only linked by the file

DirNodes(ns) == {Dir([x \in DOMAIN f |-> Lnk(f[x], Nm(x))]) : f \in Seqs(Targets(ns), 0, MaxLinks)}
(* a target and whether it is linked as a bucket *)
ShardNodes(ns) ==
  LET T == {<<x, FALSE>> : x \in Targets(ns)} \cup {<<x, TRUE>> : x \in {y \in DOMAIN ns : TypeOf(ns[y]) = HAMT}} IN
  {Shard([x \in DOMAIN f |-> IF f[x][2] THEN Lnk(f[x][1], Pfx(x)) ELSE Lnk(f[x][1], Pfx(x) \o Nm(x))])
     : f \in Seqs(T, 0, MaxLinks)}
RECURSIVE Extend(_, _)
Extend(ns, n) == IF n = 0 THEN {ns}
                 ELSE UNION {Extend(Append(ns, c), n - 1) : c \in DirNodes(ns) \cup ShardNodes(ns)}
GoodDags == {<<Leaf>>, <<Sym>>, <<Chunk, Two(1, 1)>>} \cup UNION {Extend(Firsts, n) : n \in 1..Conts}

(* --- defects ---------------------------------------------------------------------- *)
Base == Firsts \o
  << Shard(<<Lnk(1, Pfx(1) \o Nm(3))>>),                                            \* 5 sub-shard
     Dir(<<Lnk(1, Nm(1)), Lnk(4, Nm(2))>>),                                         \* 6
     Shard(<<Lnk(6, Pfx(1) \o Nm(1)), Lnk(5, Pfx(2)), Lnk(2, Pfx(3) \o Nm(2))>>),   \* 7 shard
     Dir(<<Lnk(7, Nm(1)), Lnk(4, Nm(2)), Lnk(6, Nm(3))>>) >>                        \* 8 root
Names == { <<>>, <<46>>, <<46, 46>>, <<47>>, <<97, 47, 98>>, <<97>>, <<48, 65>>, <<48, 65, 46>>, <<48, 65, 47>>,
           <<48, 65, 98>>, <<195, 164>>, <<48, 195, 164>>, <<48, 195, 164, 98>>, <<48, 65, 195, 164>>, <<226, 130, 172>> }
Defects(n, id) ==
  {[n EXCEPT !.t = <<ty>>] : ty \in RAW..HAMT}
  \cup {[n EXCEPT !.t = <<>>], [n EXCEPT !.t = <<6>>], [n EXCEPT !.t = <<1000>>]}
  \cup {[n EXCEPT !.sz = s] : s \in {<<>>, <<Zero>>, << U(9) >>}}
  \cup {[n EXCEPT !.d = d] : d \in {<<>>, << <<>> >>, << <<7>> >>}}
  \cup {[n EXCEPT !.bs = Append(@, Zero)]}
  \cup {[n EXCEPT !.ht = h] : h \in {<<>>, << U(34) >>, << U(35) >>}}
  \cup {[n EXCEPT !.fo = f] : f \in {<<>>, << U(256) >>, << U(16) >>}}
  \cup {[n EXCEPT !.k = k] : k \in {"raw", "none", "empty", "bad"}}
  \cup {[n EXCEPT !.l[x].n = << nm >>] : x \in DOMAIN n.l, nm \in Names}
  \cup {[n EXCEPT !.l[x].n = <<>>] : x \in DOMAIN n.l}
  \cup {[n EXCEPT !.l[x].to = to] : x \in DOMAIN n.l, to \in {0, -1, -2, -3, -4, -5} \cup 1..(id - 1)}
  \cup {[n EXCEPT !.l = <<>>]}
Defective(d) == UNION { {[d EXCEPT ![x] = y] : y \in Defects(d[x], x)} : x \in DOMAIN d }
BadDags == Defective(Base) \cup (IF Deep THEN UNION {Defective(d) : d \in Defective(Base)} ELSE {})
=============================================================================
