------------------------------- MODULE Decode -------------------------------
(* Reading dag-pb nodes and UnixFS messages from bytes. The status of a       *)
(* message is                                                                 *)
(*   "ok"    it has exactly one meaning                                       *)
(*           (fields in any order, unknown ones skipped, and of a singular    *)
(*           one which is repeated the last, as protobuf has it)              *)
(*   "odd"   it is legal for a lenient reader (overlong varints, names which  *)
(*           are not UTF-8, repeated mtimes, which protobuf would merge):     *)
(*           refusing it is fine, and so is the lenient meaning               *)
(*   "wild"  readers truncate differently (fields or lengths over 32 bits,    *)
(*           packed blocksizes): anything but a panic is fine                 *)
(*   "bad"   it is not a message                                              *)
EXTENDS Wire

Worse == [ok |-> 0, odd |-> 1, wild |-> 2, bad |-> 3]
WorseOf(a, c) == IF Worse[a] < Worse[c] THEN c ELSE a

Shl7(x) == <<(x[1] * 128) + (x[2] \div 131072), ((x[2] % 131072) * 128) + (x[3] \div 131072), (x[3] % 131072) * 128>>
Low64(x) == <<x[1] % 65536, x[2], x[3]>>
Is32(x) == x[1] = 0 /\ x[2] < 256

(* a varint at p: [st, v, nx] *)
ReadVar(b, p) ==
  LET E == {q \in p..IMin(Len(b), p + 9) : b[q] < 128} IN
  IF E = {} THEN [st |-> "bad", v |-> Zero, nx |-> p]
  ELSE LET q == MinOf(E)
           v == FoldLeft(LAMBDA acc, i : Add(Shl7(acc), U(b[p + q - i] % 128)), Zero, [i \in 1..(q - p + 1) |-> p + i - 1])
       IN [st |-> IF ~Fits(v) \/ (q - p = 9 /\ b[q] > 1) THEN "odd" ELSE IF q > p /\ b[q] = 0 THEN "odd" ELSE "ok",
           v |-> Low64(v), nx |-> q + 1]

(* the fields: [st, f], f a sequence of [tag, v, b] (tag as TLC integer, 0 when larger) *)
RECURSIVE FieldsFrom(_, _, _, _)
FieldsFrom(b, p, acc, st) ==
  IF p > Len(b) THEN [st |-> st, f |-> acc]
  ELSE
  LET t == TLCEval(ReadVar(b, p)) IN
  IF t.st = "bad" THEN [st |-> "bad", f |-> acc]
  ELSE
  LET tag  == IF IsSmall(t.v) THEN Clip(t.v) ELSE 0
      wire == t.v[3] % 8
      st1  == WorseOf(WorseOf(st, t.st), IF Is32(t.v) THEN "ok" ELSE "wild")
      more(v, bytes, nx, s) == FieldsFrom(b, nx, Append(acc, [tag |-> tag, v |-> v, b |-> bytes]), WorseOf(st1, s))
  IN CASE wire = 0 -> LET x == TLCEval(ReadVar(b, t.nx)) IN
                      IF x.st = "bad" THEN [st |-> "bad", f |-> acc] ELSE more(x.v, <<>>, x.nx, x.st)
       [] wire \in {1, 5} -> LET n == IF wire = 1 THEN 8 ELSE 4 IN
                      IF t.nx + n - 1 > Len(b) THEN [st |-> "bad", f |-> acc]
                      ELSE more(Zero, SubSeq(b, t.nx, t.nx + n - 1), t.nx + n, "ok")
       [] wire = 2 -> LET x == TLCEval(ReadVar(b, t.nx)) IN
                      IF x.st = "bad" THEN [st |-> "bad", f |-> acc]
                      ELSE IF ~Is32(x.v) THEN [st |-> "wild", f |-> acc]
                      ELSE IF ~IsSmall(x.v) \/ x.nx + Clip(x.v) - 1 > Len(b) THEN [st |-> "bad", f |-> acc]
                      ELSE more(Zero, SubSeq(b, x.nx, x.nx + Clip(x.v) - 1), x.nx + Clip(x.v), x.st)
       [] OTHER -> [st |-> "bad", f |-> acc]
Fields(b) == FieldsFrom(b, 1, <<>>, "ok")

RECURSIVE Utf8(_)
Utf8(s) ==
  IF s = <<>> THEN TRUE
  ELSE LET c == s[1]
           cont(n) == Len(s) >= n /\ \A i \in 2..n : s[i] \in 128..191
       IN IF c < 128 THEN Utf8(Tail(s))
          ELSE IF c \in 194..223 THEN cont(2) /\ Utf8(SubSeq(s, 3, Len(s)))
          ELSE IF c \in 224..239 THEN /\ cont(3) /\ (c = 224 => s[2] >= 160) /\ (c = 237 => s[2] < 160)
                                      /\ Utf8(SubSeq(s, 4, Len(s)))
          ELSE IF c \in 240..244 THEN /\ cont(4) /\ (c = 240 => s[2] >= 144) /\ (c = 244 => s[2] < 144)
                                      /\ Utf8(SubSeq(s, 5, Len(s)))
          ELSE FALSE

(* all values of a field, and the last as option *)
AllOf(f, tag, part) == LET x == SelectSeq(f, LAMBDA y : y.tag = tag) IN TLCEval([i \in 1..Len(x) |-> x[i][part]])
LastOf(f, tag, part) == LET x == AllOf(f, tag, part) IN IF x = <<>> THEN <<>> ELSE << x[Len(x)] >>
(* only one field of the tag *)
OnceSt(f, tag) == IF \E i, j \in DOMAIN f : i # j /\ f[i].tag = tag /\ f[j].tag = tag THEN "odd" ELSE "ok"

DecodeLink(b) ==
  LET r == TLCEval(Fields(b))
      nm == LastOf(r.f, 18, "b")
  IN [st |-> IF r.st = "bad" THEN "bad"
             ELSE WorseOf(r.st,
                          IF \A i \in DOMAIN r.f : r.f[i].tag = 18 => Utf8(r.f[i].b) THEN "ok" ELSE "odd"),
      l |-> [h |-> LastOf(r.f, 10, "b"), n |-> nm, ts |-> LastOf(r.f, 24, "v")]]
DecodeNode(b) ==
  LET r == TLCEval(Fields(b))
      ls == TLCEval([i \in DOMAIN AllOf(r.f, 18, "b") |-> DecodeLink(AllOf(r.f, 18, "b")[i])])
  IN [st |-> IF r.st = "bad" \/ \E i \in DOMAIN ls : ls[i].st = "bad" THEN "bad"
             ELSE FoldLeft(LAMBDA acc, x : WorseOf(acc, x.st), r.st, ls),
      data |-> LastOf(r.f, 10, "b"),
      links |-> TLCEval([i \in DOMAIN ls |-> ls[i].l])]

DecodeMtime(b) ==
  LET r == TLCEval(Fields(b))
      n == LastOf(r.f, 21, "b")
      le(x) == <<0, x[4], ((x[3] * 256) + x[2]) * 256 + x[1]>>
  IN [st |-> WorseOf(r.st, IF r.st = "bad" THEN "bad"
                           ELSE IF AllOf(r.f, 8, "v") = <<>> THEN "odd" ELSE "ok"),
      m |-> [s |-> Opt(LastOf(r.f, 8, "v"), Zero), n |-> IF n = <<>> THEN <<>> ELSE << le(n[1]) >>]]
DecodeFs(b) ==
  LET r == TLCEval(Fields(b))
      mt == LastOf(r.f, 66, "b")
      m  == TLCEval([i \in DOMAIN AllOf(r.f, 66, "b") |-> DecodeMtime(AllOf(r.f, 66, "b")[i])])
      ty == LastOf(r.f, 8, "v")
      mode == LastOf(r.f, 56, "v")
  IN [st |-> IF r.st = "bad" \/ \E i \in DOMAIN m : m[i].st = "bad" THEN "bad"
             ELSE FoldLeft(LAMBDA acc, x : WorseOf(acc, x.st),
                    WorseOf(WorseOf(r.st, OnceSt(r.f, 66)),
                            IF \E i \in DOMAIN r.f : \/ r.f[i].tag = 34
                                                     \/ (r.f[i].tag \in {8, 56} /\ ~Is32(r.f[i].v)) THEN "wild" ELSE "ok"), m),
      fs |-> [k |-> "fs", t |-> IF ty = <<>> THEN <<>> ELSE << Clip(ty[1]) >>,
              d |-> LastOf(r.f, 18, "b"), sz |-> LastOf(r.f, 24, "v"), bs |-> AllOf(r.f, 32, "v"),
              ht |-> LastOf(r.f, 40, "v"), fo |-> LastOf(r.f, 48, "v"), mode |-> mode,
              mt |-> IF mt = <<>> THEN <<>> ELSE << m[Len(m)].m >>]]

(* --- abstract nodes (Nodes.tla) ----------------------------------------------------------- *)
(* tab gives for the hashes of links what they refer to: sequence of [h |-> bytes, to]          *)
ToOf(h, tab) == LET I == {i \in DOMAIN tab : tab[i].h = Opt(h, <<>>)} IN
                IF h = <<>> THEN -1 ELSE IF I = {} THEN -99 ELSE tab[MinOf(I)].to
NodeWith(k, d, f, tab) ==
  (IF k = "fs" THEN [f EXCEPT !.k = "fs"]
   ELSE [k |-> k, t |-> <<>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>, fo |-> <<>>, mode |-> <<>>, mt |-> <<>>])
  @@ [l |-> TLCEval([i \in DOMAIN d.links |-> [to |-> ToOf(d.links[i].h, tab), n |-> d.links[i].n, ts |-> d.links[i].ts]])]
WildNode == [k |-> "wild"]
(* the nodes a reader may take the bytes for                                                     *)
Candidates(b, tab) ==
  LET d == TLCEval(DecodeNode(b))
      f == TLCEval(DecodeFs(d.data[1]))
      bad == NodeWith("bad", [links |-> <<>>], <<>>, tab)
      inner == IF d.data = <<>> THEN {NodeWith("none", d, <<>>, tab)}
               ELSE IF d.data[1] = <<>> THEN {NodeWith("empty", d, <<>>, tab)}
               ELSE CASE f.st = "bad" -> {NodeWith("raw", d, <<>>, tab)}
                      [] f.st = "ok" -> {NodeWith("fs", d, f.fs, tab)}
                      [] f.st = "odd" -> {NodeWith("raw", d, <<>>, tab), NodeWith("fs", d, f.fs, tab)}
                      [] OTHER -> {WildNode}
  IN CASE d.st = "bad" -> {bad}
       [] d.st = "wild" -> {WildNode}
       [] d.st = "odd" -> {bad} \cup inner
       [] OTHER -> inner

(* --- the helpers of dagpb -------------------------------------------------------------- *)
NotPb == Er("*")
Allowed(st, values, errs) ==
  CASE st = "bad" -> errs [] st = "ok" -> values [] st = "odd" -> values \cup {Er("*")} [] OTHER -> {[k |-> "any"]}
NodeDataResults(d) == Allowed(d.st, {[k |-> "ok", d |-> d.data]}, {NotPb})
WrapResults(d, block) == Allowed(d.st, {[k |-> "ok", d |-> Opt(d.data, <<>>), inner |-> block]}, {NotPb})
(* FlatUnixFs: f is DecodeFs of the data *)
FlatResults(d, f) ==
  IF d.st \in {"bad", "wild"} THEN Allowed(d.st, {}, {Er("InvalidDagPb")})
  ELSE LET inner == IF Opt(d.data, <<>>) = <<>> THEN {Er("NoData")}
                    ELSE Allowed(f.st, {[k |-> "ok", fs |-> f.fs, links |-> d.links]}, {Er("InvalidUnixFs")})
       IN IF d.st = "odd" THEN inner \cup {Er("*")} ELSE inner
(* PBNode and UnixFs on their own                                                           *)
NodeResults(d) == Allowed(d.st, {[k |-> "ok", d |-> d.data, links |-> d.links]}, {NotPb})
UnixFsResults(f) == Allowed(f.st, {[k |-> "ok", fs |-> f.fs]}, {NotPb})
(* what values of these types are written as                                                *)
Written(what, v) ==
  CASE what = "link" -> EncLink(v)
    [] what = "node" -> EncLinks(v.links) \o OptBytes(10, v.d)
    [] what = "fs" -> EncFs(v.fs)
    [] what = "flat" -> EncNode(v.fs, v.links)
WriteResults(what, v) == LET w == TLCEval(Written(what, v)) IN {[k |-> "ok", size |-> Len(w), b |-> w]}
ReadBackResults(v) == {[k |-> "ok"] @@ v}
=============================================================================
