------------------------------ MODULE MC_Cache ------------------------------
(* Several file visits and sharded lookups taking turns with shared caches.   *)
(* Next to the specification's state of every run (FileSem, ResolveSem: they  *)
(* do not know of caches) goes the work list as the implementation has it: a  *)
(* vector or a queue taken out of the cache when a run starts, whatever is in *)
(* it, and put back at the end. Always the same has to be pending.            *)
EXTENDS ResolveSem, Json

CONSTANTS RUNS,    \* number of runs
          SAME,    \* all of them of the same kind
          MODES,   \* subset of 0..3: shared caches, none, fresh ones, fresh ones shared from then on
          CLEARED, \* what is put back is cleared (FALSE breaks SameInv)
          MaxSteps, EMIT

VARIABLES runs,    \* run -> [w, st, imp, o]
          cache,   \* [visit, dir]: options of sequences
          hist
vars == <<runs, cache, hist>>

(* --- the worlds ---------------------------------------------------------------------- *)
N0 == [k |-> "fs", t |-> <<FILE>>, d |-> <<>>, sz |-> <<>>, bs |-> <<>>, ht |-> <<>>, fo |-> <<>>,
       mode |-> <<>>, mt |-> <<>>, l |-> <<>>]
Lk(to, name) == [to |-> to, n |-> <<name>>, ts |-> <<>>]
Leaf(b) == [N0 EXCEPT !.d = <<b>>, !.sz = << U(Len(b)) >>]
Links(tos, sizes) == [N0 EXCEPT !.l = [i \in DOMAIN tos |-> Lk(tos[i], <<>>)],
                                !.bs = [i \in DOMAIN sizes |-> U(sizes[i])],
                                !.sz = << USum([i \in DOMAIN sizes |-> U(sizes[i])]) >>]
File(nodes, range) == [kind |-> "file", nodes |-> nodes, root |-> Len(nodes), range |-> range]
R(lo, hi) == << <<U(lo), U(hi)>> >>
FileWorlds ==
  << File(<< Leaf(<<1, 2>>) >>, <<>>),
     File(<< Leaf(<<1, 2>>), Leaf(<<3>>), Links(<<1, 2>>, <<2, 1>>) >>, <<>>),
     File(<< Leaf(<<1>>), Leaf(<<2>>), Links(<<1, 2>>, <<1, 1>>), Leaf(<<4>>), Links(<<3, 4, 1>>, <<2, 1, 1>>) >>, <<>>),
     (* fails at the second leaf, others still pending *)
     File(<< Leaf(<<1>>), [Leaf(<<2>>) EXCEPT !.t = <<DIR>>], Links(<<1, 2, 1>>, <<1, 1, 1>>) >>, <<>>),
     (* fails at the second link, after the first *)
     File(<< Leaf(<<1>>), Links(<<1, -3>>, <<1, 1>>) >>, <<>>),
     File(<< Leaf(<<1>>), Links(<<1, 1>>, <<1, 1>>), Links(<<2, 1, -3>>, <<2, 1, 1>>) >>, R(0, 2)),
     (* nothing selected; only some *)
     File(<< Leaf(<<1, 2>>), Leaf(<<3>>), Links(<<1, 2>>, <<2, 1>>) >>, R(5, 9)),
     File(<< Leaf(<<1, 2>>), Leaf(<<3, 4>>), Links(<<1, 2>>, <<2, 2>>), Leaf(<<5>>), Links(<<3, 4>>, <<4, 1>>) >>, R(3, 4)) >>
Shard(ls) == [N0 EXCEPT !.t = <<HAMT>>, !.ht = << U(34) >>, !.fo = << U(256) >>, !.l = ls]
AA == <<65, 65>>  BB == <<66, 66>>
Ent(to, c) == Lk(to, AA \o <<c>>)
Look(nodes) == [kind |-> "res", nodes |-> nodes, root |-> Len(nodes), needle |-> <<120>>]
LookWorlds ==
  << Look(<< Shard(<< Ent(101, 120) >>) >>),
     Look(<< Shard(<< Ent(101, 121) >>) >>),
     (* found in the root, with buckets pending *)
     Look(<< Shard(<<>>), Shard(<< Lk(1, AA), Ent(102, 120), Lk(1, BB) >>) >>),
     (* found in the first of two buckets; in the bucket of a bucket; nowhere *)
     Look(<< Shard(<< Ent(103, 120) >>), Shard(<<>>), Shard(<< Lk(1, AA), Lk(2, BB) >>) >>),
     Look(<< Shard(<< Ent(104, 120) >>), Shard(<< Lk(1, AA) >>), Shard(<< Lk(2, AA), Lk(2, BB) >>) >>),
     Look(<< Shard(<< Ent(105, 121) >>), Shard(<< Lk(1, AA), Lk(1, BB) >>) >>),
     (* failing: two matches after a bucket; not a shard; unreadable *)
     Look(<< Shard(<<>>), Shard(<< Lk(1, AA), Ent(106, 120), Ent(107, 120) >>) >>),
     Look(<< Leaf(<<1>>), Shard(<<>>), Shard(<< Lk(1, AA), Lk(2, BB) >>) >>),
     Look(<< [N0 EXCEPT !.k = "bad"], Shard(<<>>), Shard(<< Lk(1, AA), Lk(2, BB) >>) >>) >>
Worlds == FileWorlds \o LookWorlds
IsLook(w) == Worlds[w].kind = "res"

(* --- the work lists, as implemented ------------------------------------------------------ *)
Taken(c) == Opt(c, <<>>)
Clear(s) == IF CLEARED THEN <<>> ELSE s
Selection(wd, n, off) ==
  LET rs == LinkRanges(n, off) IN PendingOf(n, rs, Selected(rs, wd.range, CodePolicy))
ToOf2(s) == TLCEval([i \in DOMAIN s |-> s[i].to])
(* [imp, c, more]: the list, the cache afterwards, whether the visit continues          *)
FileImp(wd, run, n, ok, c) ==
  LET first == run.st.st = "idle"
      old   == IF first THEN <<>> ELSE SubSeq(run.imp, 1, Len(run.imp) - 1)
      off   == IF first THEN Zero ELSE Head(run.st.pend).lo
  IN IF n.l = <<>>
     THEN IF ~ok THEN [imp |-> <<>>, c |-> c, more |-> FALSE]
          ELSE IF first THEN [imp |-> <<>>, c |-> c, more |-> FALSE]
          ELSE IF old # <<>> THEN [imp |-> old, c |-> c, more |-> TRUE]
          ELSE [imp |-> old, c |-> << Clear(old) >>, more |-> FALSE]
     ELSE LET errs == BlockErrs(n, off, ~first) # {}
              c1   == IF first /\ ~errs THEN <<>> ELSE c
              sel  == Reverse(ToOf2(Selection(wd, n, off)))
              all  == IF first THEN sel \o Reverse(Taken(c)) ELSE old \o sel
          IN IF ~ok THEN [imp |-> <<>>, c |-> c1, more |-> FALSE]
             ELSE IF all = <<>> THEN [imp |-> all, c |-> << Clear(all) >>, more |-> FALSE]
             ELSE [imp |-> all, c |-> c1, more |-> TRUE]
LookImp(wd, run, n, c) ==
  LET first == run.st.st = "idle"
      q0    == IF first THEN Taken(c) ELSE Tail(run.imp)
      M     == ShardMatches(n, wd.needle)
      q     == q0 \o BucketsOf(n)
      shard == n.k = "fs" /\ TypeOf(n) = HAMT /\ ShardErrs(n) = {}
      c1    == IF first THEN <<>> ELSE c
  IN IF ~shard THEN [imp |-> <<>>, more |-> FALSE, c |-> IF ~first /\ n.k # "fs" THEN << Clear(q0) >> ELSE c]
     ELSE IF Cardinality(M) > 1 THEN [imp |-> <<>>, more |-> FALSE, c |-> c1]
     ELSE IF M # {} \/ q = <<>> THEN [imp |-> <<>>, more |-> FALSE, c |-> << Clear(q) >>]
     ELSE [imp |-> q, more |-> TRUE, c |-> c1]

(* --- steps -------------------------------------------------------------------------------- *)
Over(run) == run.st.st \notin {"idle", "active", "more"}
NodeOf(wd, run) ==
  wd.nodes[CASE run.st.st = "idle" -> wd.root
             [] run.st.st = "active" -> Head(run.st.pend).to
             [] OTHER -> Head(run.st.queue)]
Step(k, mode) ==
  LET run == runs[k]
      wd  == Worlds[run.w]
      n   == NodeOf(wd, run)
      cs  == IF mode = 0 THEN cache
             ELSE IF mode = 1 THEN [visit |-> <<>>, dir |-> <<>>] ELSE [visit |-> << <<>> >>, dir |-> << <<>> >>]
      x   == CHOOSE y \in (IF IsLook(run.w)
                           THEN (IF run.st.st = "idle" THEN ResolveResults(run.st, n, wd.needle)
                                 ELSE ContLookupResults(run.st, n, wd.needle))
                           ELSE (IF run.st.st = "idle" THEN StartResults(run.st, n, wd.range)
                                 ELSE ContResults(run.st, n, wd.range))) : TRUE
      y   == IF IsLook(run.w) THEN LookImp(wd, run, n, cs.dir)
             ELSE FileImp(wd, run, n, x.o.k = "ok", cs.visit)
      after == IF IsLook(run.w) THEN [cs EXCEPT !.dir = y.c] ELSE [cs EXCEPT !.visit = y.c]
  IN /\ ~Over(run)
     /\ runs' = [runs EXCEPT ![k] = [w |-> run.w, st |-> x.v, imp |-> y.imp, more |-> y.more]]
     /\ cache' = IF mode \in {0, 3} THEN after ELSE cache
     /\ hist' = IF EMIT THEN Append(hist, <<k - 1, mode>>) ELSE hist

Init == /\ \E f \in [1..RUNS -> 1..Len(Worlds)] :
             /\ SAME => \A i, j \in 1..RUNS : IsLook(f[i]) = IsLook(f[j])
             /\ runs = [k \in 1..RUNS |-> [w |-> f[k], st |-> IF IsLook(f[k]) THEN NewLookup ELSE IdleVisit(CodePolicy),
                                           imp |-> <<>>, more |-> FALSE]]
        /\ cache = [visit |-> << <<>> >>, dir |-> << <<>> >>]
        /\ hist = <<>>
Emit == /\ Len(hist) > 0 /\ (Len(hist) = MaxSteps \/ \A k \in 1..RUNS : Over(runs[k]))
        /\ PrintT("@" \o ToJson([kind |-> "hist", runs |-> [k \in 1..RUNS |-> Worlds[runs[k].w]], sched |-> hist]))
        /\ hist' = Append(hist, <<0, 9>>) /\ UNCHANGED <<runs, cache>>
Emitted == hist # <<>> /\ hist[Len(hist)][2] = 9
Next == \/ /\ ~EMIT \/ (~Emitted /\ Len(hist) < MaxSteps)
           /\ \E k \in 1..RUNS, m \in MODES : Step(k, m)
        \/ EMIT /\ ~Emitted /\ Emit
Spec == Init /\ [][Next]_vars

(* --- invariants ----------------------------------------------------------------------------- *)
SameInv ==
  \A k \in 1..RUNS :
    LET r == runs[k] IN
    /\ (r.st.st \in {"active", "more"}) = r.more
    /\ IF r.st.st = "active" THEN Reverse(r.imp) = ToOf2(r.st.pend)
       ELSE IF r.st.st = "more" THEN r.imp = r.st.queue ELSE r.imp = <<>>
EmptyInv == Opt(cache.visit, <<>>) = <<>> /\ Opt(cache.dir, <<>>) = <<>>
=============================================================================
