------------------------------ MODULE LinHash ------------------------------
(* Design of the index: a linear hash table growing by one bucket per quota *)
(* of inserts, whose full buckets overflow into the append-only data file.  *)
(* One step of the model per insert, and per insert of a commit; structure  *)
(* as in basic_store::commit (split, load, maybe_spill, insert).            *)
EXTENDS Index, KV

CONSTANTS K,        \* keys are 1..K
          CAP,      \* entries per bucket
          HMAX,     \* hashes are 0..HMAX
          THRESH,   \* split when the fraction reaches it; every insert adds UNIT
          UNIT,
          NFLUSH,   \* number of commits and reopens explored
          BUG       \* "none", or a deliberate mistake in the design

VARIABLES ix,      \* the index with the data file: record as described in Index
          kv,      \* abstract store
          H,       \* hash of each key
          frac, cnt, nb0,
          todo,    \* keys being committed, with their record already written
          fl       \* commits so far
vars == <<ix, kv, H, frac, cnt, nb0, todo, fl>>

EmptyB == [n |-> 0, x |-> 0, e |-> <<>>]
BS == 8 + 18 * CAP

IX0 == [nb |-> 1, cap |-> CAP, bs |-> BS, recs |-> <<>>, spl |-> <<>>, bk |-> <<EmptyB>>,
        ktail |-> 0, dtail |-> FALSE, pad |-> TRUE, ksz |-> 2 * BS]

(* ---- bucket operations ------------------------------------------------ *)
InsEnt(b, t) ==
  LET lo == SelectSeq(b.e, LAMBDA u : HLess(u, t))
      hi == SelectSeq(b.e, LAMBDA u : ~ HLess(u, t))
  IN [b EXCEPT !.n = @ + 1, !.e = lo \o <<t>> \o hi]

(* <<bucket, spills>>: a full bucket is appended to the data file *)
MaybeSpill(b, spl) ==
  IF b.n >= (IF BUG = "late" THEN CAP + 1 ELSE CAP)
  THEN <<[EmptyB EXCEPT !.x = Len(spl) + 1], Append(spl, b)>>
  ELSE <<b, spl>>

(* state of a split: [b1, b2, spl] *)
RECURSIVE Distribute(_, _, _, _)
Distribute(st, es, nb, n2) ==
  IF es = <<>> THEN st
  ELSE LET t == Head(es)
           two == BucketOf(t[4], nb) = n2
           ms == MaybeSpill(IF two THEN st.b2 ELSE st.b1, st.spl)
           nbk == InsEnt(ms[1], t)
           st2 == IF two THEN [st EXCEPT !.b2 = nbk, !.spl = ms[2]]
                  ELSE [st EXCEPT !.b1 = nbk, !.spl = ms[2]]
       IN Distribute(st2, Tail(es), nb, n2)

RECURSIVE DistributeChain(_, _, _, _)
DistributeChain(st, x, nb, n2) ==
  IF x = 0 THEN st
  ELSE DistributeChain(Distribute(st, st.spl[x].e, nb, n2), st.spl[x].x, nb, n2)

Split(i) ==
  LET nb == i.nb + 1
      m == Modulus(nb)
      n1 == i.nb - m \div 2
      n2 == i.nb
      b == i.bk[n1 + 1]
      st0 == [b1 |-> [b EXCEPT !.n = 0, !.e = <<>>, !.x = IF BUG = "keepchain" THEN @ ELSE 0], b2 |-> EmptyB, spl |-> i.spl]
      st1 == Distribute(st0, b.e, nb, n2)
      st2 == IF BUG = "nochain" THEN [st1 EXCEPT !.b1.x = b.x] ELSE DistributeChain(st1, b.x, nb, n2)
  IN [i EXCEPT !.nb = nb, !.bk = Append([@ EXCEPT ![n1 + 1] = st2.b1], st2.b2), !.spl = st2.spl, !.ksz = (nb + 1) * BS]

Max1(n) == IF n > 1 THEN n - 1 ELSE 1
Place(i, r) ==
  LET t == <<r, i.recs[r][3], i.recs[r][4], i.recs[r][5]>>
      b == (IF BUG = "oldmod" THEN BucketOf(t[4], Max1(i.nb)) ELSE BucketOf(t[4], i.nb)) + 1
      ms == MaybeSpill(i.bk[b], i.spl)
  IN [i EXCEPT !.bk[b] = InsEnt(ms[1], t), !.spl = ms[2]]

(* ---- lookup, as fetch does it ----------------------------------------- *)
RECURSIVE FindIn(_, _, _)
FindIn(i, es, k) ==
  IF es = <<>> THEN 0
  ELSE IF Head(es)[4] = H[k] /\ i.recs[Head(es)[1]][1] = k THEN Head(es)[1] ELSE FindIn(i, Tail(es), k)
RECURSIVE Walk(_, _, _)
Walk(i, b, k) ==
  LET r == FindIn(i, b.e, k) IN IF r > 0 THEN r ELSE IF b.x = 0 THEN 0 ELSE Walk(i, i.spl[b.x], k)
Lookup(i, k) == Walk(i, i.bk[BucketOf(H[k], i.nb) + 1], k)

(* ---- actions ---------------------------------------------------------- *)
Init ==
  /\ ix = IX0
  /\ kv = [KVInit EXCEPT !.made = TRUE, !.open = TRUE]
  /\ H \in [1..K -> 0..HMAX]
  /\ frac = THRESH \div 2 /\ cnt = 0 /\ nb0 = 1 /\ todo = <<>> /\ fl = 0

Insert(k) ==
  /\ todo = <<>>
  /\ ~ Contains(kv, k)
  /\ kv' \in SuccInsert(kv, k, k + 10, "ok")
  /\ cnt' = cnt + 1
  /\ UNCHANGED <<ix, H, frac, nb0, todo, fl>>

RECURSIVE SetToSeqN(_)
SetToSeqN(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetToSeqN(S \ {x})

(* the data records are appended in key order, then indexed one by one *)
BeginCommit ==
  /\ todo = <<>> /\ kv.mem # EmptyMap /\ fl < NFLUSH
  /\ LET ks == SetToSeqN(DOMAIN kv.mem)
         base == Len(ix.recs)
     IN /\ ix' = [ix EXCEPT !.recs = @ \o [q \in 1..Len(ks) |-> <<ks[q], kv.mem[ks[q]], 1, 0, H[ks[q]], 0>>]]
        /\ todo' = [q \in 1..Len(ks) |-> base + q]
  /\ fl' = fl + 1
  /\ UNCHANGED <<kv, H, frac, cnt, nb0>>

IndexOne ==
  /\ todo # <<>>
  /\ LET grow == frac + UNIT >= THRESH
         i1 == IF grow THEN Split(ix) ELSE ix
     IN /\ ix' = Place(i1, Head(todo))
        /\ frac' = IF grow THEN (IF BUG = "fracreset" THEN 0 ELSE frac + UNIT - THRESH) ELSE frac + UNIT
  /\ todo' = Tail(todo)
  /\ kv' = IF Len(todo) = 1 THEN Committed(kv) ELSE kv
  /\ UNCHANGED <<H, cnt, nb0, fl>>

Reopen ==
  /\ todo = <<>> /\ kv.mem = EmptyMap /\ cnt > 0 /\ fl < NFLUSH
  /\ nb0' = ix.nb /\ cnt' = 0 /\ frac' = THRESH \div 2 /\ fl' = fl + 1
  /\ UNCHANGED <<ix, kv, H, todo>>

Next == (\E k \in 1..K : Insert(k)) \/ BeginCommit \/ IndexOne \/ Reopen
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------- *)
Quiet == todo = <<>>
Sound == Quiet => IndexOK(ix)
Exact == Quiet => \A k \in 1..K :
            LET r == Lookup(ix, k) IN
            IF Has(kv.disk, k) THEN r > 0 /\ ix.recs[r][2] = kv.disk[k] ELSE r = 0
MapAgrees == Quiet => DataMap(ix) = {<<k, kv.disk[k]>> : k \in DOMAIN kv.disk}
(* growth is exact, whatever the division into commits *)
Pending == Cardinality(DOMAIN kv.mem)
Growth == Quiet => ix.nb - nb0 = ((cnt - Pending) * UNIT + THRESH \div 2) \div THRESH
(* committed records are never touched; spills are only appended *)
AppendOnly == [][/\ Len(ix'.recs) >= Len(ix.recs) /\ SubSeq(ix'.recs, 1, Len(ix.recs)) = ix.recs
                 /\ Len(ix'.spl) >= Len(ix.spl) /\ SubSeq(ix'.spl, 1, Len(ix.spl)) = ix.spl]_vars
OneAtATime == [][ix'.nb - ix.nb \in {0, 1}]_vars
(* reachability witnesses, to be violated (checked in the thorough tier) *)
NoChain2 == ~ \E b \in 1..ix.nb : Len(Chain(ix, b)) >= 2
=============================================================================
