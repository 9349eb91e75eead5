------------------------------ MODULE JudgeAdd ------------------------------
(* Judging imports (scenarios of kind "add"): the same content pushed in      *)
(* several ways, then the blocks of the first import read back.               *)
(* When link blocks are emitted is left open, as long as they come after the  *)
(* blocks they link. Blocks are identified by ids, equal for equal CIDs.      *)
EXTENDS AddSem, Judge

(* blk: id -> [n, tot, leaf]: bytes below, total size as it is                      *)
NoBlocks == [x \in {} |-> [n |-> Zero, tot |-> Zero, leaf |-> TRUE]]
NewImport(bg) == [pos |-> 0, buf |-> 0, lv |-> [k \in 1..Len(Levels(bg.len, bg.cs, bg.bf)) |-> <<>>],
                  seq |-> <<>>, first |-> <<>>, firstRun |-> TRUE, blk |-> NoBlocks, rd |-> 0, root |-> 0]

(* a block: bl = [id, new, hash, len, dn, deq] and for new ones fs, links, block, canon *)
NodeFieldsMis(bl, leaf) ==
  (IF bl.fs.t # <<FILE>> THEN {"type"} ELSE {})
  \cup (IF bl.fs.ht # <<>> \/ bl.fs.fo # <<>> \/ bl.fs.mode # <<>> \/ bl.fs.mt # <<>> THEN {"fields"} ELSE {})
  \cup (IF (bl.dn = 0) # ~bl.has \/ (~leaf /\ bl.has) THEN {"fields"} ELSE {})
  \cup (IF \E x \in DOMAIN bl.links : bl.links[x].n # << <<>> >> THEN {"fields"} ELSE {})
  \cup (IF ~bl.canon \/ (bl.block # <<>> /\ bl.block # EncNode(bl.fs, bl.links)) THEN {"bytes"} ELSE {})
LeafSizesMis(bl) == IF bl.fs.sz # << U(bl.dn) >> \/ bl.fs.bs # <<>> THEN {"sizes"} ELSE {}
LinkSizesMis(v, bl) ==
  LET known == \A x \in DOMAIN bl.links : bl.links[x].to \in DOMAIN v.blk
      nn == TLCEval([x \in DOMAIN bl.links |-> IF known THEN v.blk[bl.links[x].to].n ELSE Zero])
      tt == TLCEval([x \in DOMAIN bl.links |-> IF known THEN << v.blk[bl.links[x].to].tot >> ELSE <<>>])
  IN IF ~known THEN {}
     ELSE IF bl.fs.bs # nn \/ bl.fs.sz # << USum(nn) >> \/ [x \in DOMAIN bl.links |-> bl.links[x].ts] # tt
     THEN {"sizes"} ELSE {}
BlkInfo(v, bl, leaf) ==
  IF leaf THEN [n |-> U(bl.dn), tot |-> U(bl.len), leaf |-> TRUE, links |-> <<>>]
  ELSE LET get(x, f) == IF bl.links[x].to \in DOMAIN v.blk THEN v.blk[bl.links[x].to][f] ELSE Zero IN
       [n |-> USum([x \in DOMAIN bl.links |-> get(x, "n")]),
        tot |-> Add(U(bl.len), USum([x \in DOMAIN bl.links |-> Opt(bl.links[x].ts, Zero)])), leaf |-> FALSE,
        links |-> TLCEval([x \in DOMAIN bl.links |-> bl.links[x].to])]

(* levels a link block over these ids can be the next block of *)
LevelsFor(bg, v, ids) ==
  LET L == TLCEval(Levels(bg.len, bg.cs, bg.bf)) IN
  {k \in 2..Len(L) : LET j == Len(v.lv[k]) + 1 IN
     /\ j <= L[k]
     /\ LastKid(j, bg.bf, L[k - 1]) <= Len(v.lv[k - 1])
     /\ SubSeq(v.lv[k - 1], FirstKid(j, bg.bf), LastKid(j, bg.bf, L[k - 1])) = ids}

OneBlock(bg, acc, bl) ==
  LET v == acc.v IN
  IF ~bl.new /\ bl.id \notin DOMAIN v.blk THEN [acc EXCEPT !.mis = @ \cup {"hash"}]
  ELSE IF bl.new /\ bl.fs.k # "fs"
  THEN [v |-> [v EXCEPT !.seq = Append(@, bl.id), !.root = bl.id], mis |-> acc.mis \cup {"bytes", "layout", "sizes"}]
  ELSE
  LET leaf == IF bl.new THEN bl.links = <<>> ELSE v.blk[bl.id].leaf
      info == TLCEval(IF bl.new THEN BlkInfo(v, bl, leaf) ELSE v.blk[bl.id])
      i    == Len(v.lv[1]) + 1
      unknown == bl.new /\ \E x \in DOMAIN bl.links : bl.links[x].to \notin DOMAIN v.blk
      ks   == IF leaf THEN {1} ELSE LevelsFor(bg, v, info.links)
      badLeaf == leaf /\ (i > NumLeaves(bg.len, bg.cs) \/ bl.dn # LeafLen(i, bg.len, bg.cs))
      mis  == (IF bl.new THEN NodeFieldsMis(bl, leaf) \cup (IF leaf THEN LeafSizesMis(bl) ELSE LinkSizesMis(v, bl)) ELSE {})
              \cup (IF ~bl.hash THEN {"hash"} ELSE {})
              \cup (IF leaf /\ ~bl.deq THEN {"content"} ELSE {})
              \cup (IF badLeaf \/ ks = {} THEN {"layout"} ELSE {})
              \cup (IF unknown THEN {"order"} ELSE {})
              \cup (IF ~v.firstRun /\ ~(Len(v.seq) < Len(v.first) /\ v.first[Len(v.seq) + 1] = bl.id) THEN {"split"} ELSE {})
  IN [v |-> [v EXCEPT !.seq = Append(@, bl.id), !.root = bl.id,
                      !.blk = IF bl.new THEN (bl.id :> info) @@ @ ELSE @,
                      !.lv = IF ks = {} THEN @ ELSE [@ EXCEPT ![MinOf(ks)] = Append(@, bl.id)]],
      mis |-> acc.mis \cup mis]
Blocks(bg, v, bls) == FoldLeft(LAMBDA acc, bl : TLCEval(OneBlock(bg, acc, bl)), [v |-> v, mis |-> {}], bls)

PushResult(bg, v, e) ==
  IF e.o.k # "ok" THEN [o |-> [k |-> "ok", mis |-> {}], v |-> v]
  ELSE LET c   == Consumed(e.n, v.buf, bg.cs)
           r   == Blocks(bg, v, e.o.blocks)
           mis == r.mis \cup (IF e.o.c # c THEN {"consumed"} ELSE {}) \cup (IF Len(e.o.blocks) > 2 THEN {"count"} ELSE {})
                  \cup (IF e.o.hint # bg.cs THEN {"hint"} ELSE {})
       IN [o |-> [k |-> "ok", mis |-> mis],
           v |-> [r.v EXCEPT !.pos = @ + e.o.c, !.buf = (v.buf + c) % bg.cs]]
FinishResult(bg, v, e) ==
  IF e.o.k # "ok" THEN [o |-> [k |-> "ok", mis |-> {}], v |-> v]
  ELSE LET r  == Blocks(bg, v, e.o.blocks)
           w  == r.v
           L  == Levels(bg.len, bg.cs, bg.bf)
           mis == r.mis
                  \cup (IF \E k \in 1..Len(L) : Len(w.lv[k]) # L[k] THEN {"layout"} ELSE {})
                  \cup (IF w.lv[Len(L)] = <<>> \/ w.root # w.lv[Len(L)][1] THEN {"layout"} ELSE {})
                  \cup (IF ~w.firstRun /\ w.seq # w.first THEN {"split"} ELSE {})
       IN [o |-> [k |-> "ok", mis |-> mis],
           v |-> [w EXCEPT !.pos = 0, !.buf = 0, !.lv = [k \in DOMAIN @ |-> <<>>], !.seq = <<>>,
                           !.first = IF w.firstRun THEN w.seq ELSE @, !.firstRun = FALSE]]

(* reading back: a step consumes the block requested and gives the next bytes *)
ReadResult(bg, v, e) ==
  LET off == IF e.n = 1 THEN 0 ELSE v.rd IN
  IF e.o.k # "ok" THEN [o |-> [k |-> "ok", mis |-> {}], v |-> v]
  ELSE LET to == off + e.o.dn
           emitted == {v.first[x] : x \in DOMAIN v.first}
           mis == (IF e.o.id \notin emitted \/ (e.n = 1 /\ e.o.id # v.first[Len(v.first)]) THEN {"id"} ELSE {})
                  \cup (IF ~e.o.deq \/ to > bg.len THEN {"b"} ELSE {})
                  \cup (IF \E x \in DOMAIN e.o.fsz : e.o.fsz[x] # U(bg.len) THEN {"fsz"} ELSE {})
                  \cup (IF e.o.cont # (to < bg.len) THEN {"cont"} ELSE {})
       IN [o |-> [k |-> "ok", mis |-> mis], v |-> [v EXCEPT !.rd = to]]

AddResults(bg, e, S) ==
  {CASE e.ev = "hang" -> [o |-> Er("*"), v |-> v]
     [] e.ev = "push" -> PushResult(bg, v, e)
     [] e.ev = "finish" -> FinishResult(bg, v, e)
     [] e.ev = "rd" -> ReadResult(bg, v, e) : v \in S}
AddOkMis(ro, o) == ro.mis
AddMis(ro, o) == Mis(ro, o, AddOkMis)
AddFollows(m) == m \cap {"panic", "refused", "missed"} = {}
AddRel(view, e) ==
  IF e.ev = "rd" THEN (IF view \in {"C01", "C20"} THEN {"panic", "refused", "missed", "id", "b", "fsz", "cont"} ELSE {})
  ELSE CASE view = "C01" -> {"panic"}
         [] view = "C02" -> {"panic", "consumed", "count", "split", "hint"}
         [] view = "C03" -> {"panic", "layout", "order", "content"}
         [] view = "C04" -> {"sizes"}
         [] view = "C15" -> {"bytes", "fields", "type", "hash"}
         [] OTHER -> {}
=============================================================================
