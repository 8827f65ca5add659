------------------------------- MODULE Commit -------------------------------
(* Design of the on-disk protocol: commit, recovery and rekey over three    *)
(* files on a device that may lose, keep or tear every write that was not   *)
(* synced.  The process may stop between any two file operations (a kill,   *)
(* or an operation that failed: what was written stays in the system's      *)
(* cache and is still not durable) or the power may fail.  Recovery itself  *)
(* may be stopped in the same ways, any number of times up to STOPS.        *)
(*                                                                          *)
(* Device model: key and data file - every subset of the operations since   *)
(* the last sync persists, each write whole or torn; log file - a prefix,   *)
(* the last write whole or torn.  Creating and erasing files is durable.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NCOMMIT,   \* commits (and rekeys) explored
          PER,       \* values per commit
          CAP,       \* entries per bucket
          STOPS,     \* kills and power failures explored
          REKEY,     \* explore rekeys
          BUG        \* "none", or a deliberate mistake in the protocol

VARIABLES D, K, L,   \* files
          pc,        \* next step of whoever is running
          w,         \* what this process remembers
          stops, ops,
          next,      \* next value to insert
          ack,       \* values whose commit was reported complete
          fly,       \* values of the interrupted commit
          rk         \* a rekey is under way or was interrupted
vars == <<D, K, L, pc, w, stops, ops, next, ack, fly, rk>>

(* ------------------------------------------------------------- device --- *)
Torn == [t |-> "torn"]
EmptyB == [t |-> "bkt", e |-> {}, x |-> 0]
Hole == [t |-> "hole"]

Pad(c, n) == [j \in 1..n |-> IF j <= Len(c) THEN c[j] ELSE Hole]
Apply(c, op) ==
  IF op[1] = "w" THEN [Pad(c, IF op[2] > Len(c) THEN op[2] ELSE Len(c)) EXCEPT ![op[2]] = op[3]]
  ELSE IF op[2] <= Len(c) THEN SubSeq(c, 1, op[2]) ELSE Pad(c, op[2])
(* a torn write leaves a mixture of the old and the new bytes                *)
Tear(c, op) == IF op[2] <= Len(c) /\ (c[op[2]] = op[3] \/ (c[op[2]] = Hole /\ op[3] = EmptyB)) THEN op ELSE <<"w", op[2], Torn>>

RECURSIVE AnySubset(_, _)
AnySubset(c, q) ==
  IF q = <<>> THEN {c}
  ELSE UNION {AnySubset(x, Tail(q)) :
                x \in {c, Apply(c, Head(q))} \cup (IF Head(q)[1] = "w" THEN {Apply(c, Tear(c, Head(q)))} ELSE {})}
RECURSIVE AnyPrefix(_, _)
AnyPrefix(c, q) ==
  IF q = <<>> THEN {c}
  ELSE {c} \cup (IF Head(q)[1] = "w" THEN {Apply(c, Tear(c, Head(q)))} ELSE {}) \cup AnyPrefix(Apply(c, Head(q)), Tail(q))

NoFile == [ex |-> FALSE, cur |-> <<>>, dur |-> <<>>, q |-> <<>>]
NewFile == [NoFile EXCEPT !.ex = TRUE]
Do(f, op) == [f EXCEPT !.cur = Apply(@, op), !.q = Append(@, op)]
Write(f, pos, x) == Do(f, <<"w", pos, x>>)
Trunc(f, n) == Do(f, <<"t", n>>)
Sync(f) == [f EXCEPT !.dur = f.cur, !.q = <<>>]
Left(f, c) == [f EXCEPT !.cur = c, !.dur = c, !.q = <<>>]

(* -------------------------------------------------------------- index --- *)
(* data file: values and overflow records; key file: header, then buckets   *)
Val(n) == [t |-> "val", id |-> n]
Spl(b) == [t |-> "spl", b |-> b]
Short == [t |-> "short"]     \* the header alone, shorter than a block
Full == [t |-> "full"]

RECURSIVE Pow2(_, _)
Pow2(n, m) == IF m >= n THEN m ELSE Pow2(n, 2 * m)
BucketOf(id, nb) == LET m == Pow2(nb, 1) b == id % m IN IF b >= nb THEN b - m \div 2 ELSE b

Bk(k, b) == IF k[b + 2].t = "hole" THEN EmptyB ELSE k[b + 2]
NB(k) == Len(k) - 1

RECURSIVE ChainE(_, _)     \* set of <<position of the bucket, entry>>
ChainE(d, x) == IF x = 0 \/ x > Len(d) THEN {} ELSE IF d[x].t # "spl" THEN {<<0, 0>>}
                ELSE {<<x, p>> : p \in d[x].b.e} \cup ChainE(d, d[x].b.x)
Entries(d, k, b) == {<<0, p>> : p \in Bk(k, b).e} \cup ChainE(d, Bk(k, b).x)
RECURSIVE ChainOK(_, _)
ChainOK(d, x) == x = 0 \/ (x <= Len(d) /\ d[x].t = "spl" /\ d[x].b.x < x /\ ChainOK(d, d[x].b.x))

(* the index finds exactly the values of the data file, each once *)
Exact(d, k) ==
  /\ Len(k) >= 2 /\ k[1] = Full
  /\ \A j \in 2..Len(k) : k[j].t \in {"bkt", "hole"}
  /\ \A j \in 1..Len(d) : d[j].t \in {"val", "spl"}
  /\ \A b \in 0..NB(k) - 1 : ChainOK(d, Bk(k, b).x)
  /\ \A b \in 0..NB(k) - 1 : \A u \in Entries(d, k, b) :
        u[2] <= Len(d) /\ d[u[2]].t = "val" /\ BucketOf(d[u[2]].id, NB(k)) = b
  /\ \A j \in 1..Len(d) : d[j].t = "val" =>
        Cardinality({u \in UNION {{<<b, y>> : y \in Entries(d, k, b)} : b \in 0..NB(k) - 1} : u[2][2] = j}) = 1
Ids(d) == {d[j].id : j \in {j \in 1..Len(d) : d[j].t = "val"}}

(* -------------------------------------------------- building an index --- *)
(* st: [d: data file with appended records, b: bucket -> content, nb]        *)
Put(st, b, p) ==
  LET o == st.b[b] IN
  IF Cardinality(o.e) < CAP THEN [st EXCEPT !.b[b].e = @ \cup {p}]
  ELSE [st EXCEPT !.d = Append(@, Spl(o)), !.b[b] = [EmptyB EXCEPT !.e = {p}, !.x = Len(st.d) + 1]]

RECURSIVE PutAll(_, _)
PutAll(st, ps) == IF ps = <<>> THEN st
                  ELSE PutAll(Put(st, BucketOf(st.d[Head(ps)].id, st.nb), Head(ps)), Tail(ps))
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SeqOf(s \ {m})

(* one bucket more: the entries of its sibling are distributed again *)
SplitOne(st) ==
  LET m == Pow2(st.nb + 1, 1)
      b == st.nb - m \div 2
      old == {u[2] : u \in {<<0, p>> : p \in st.b[b].e} \cup ChainE(st.d, st.b[b].x)}
      s2 == [st EXCEPT !.nb = @ + 1, !.b = [j \in 0..st.nb |-> IF j \in {b, st.nb} THEN EmptyB ELSE st.b[j]]]
  IN PutAll(s2, SeqOf(old))

Plan(d, k, ids, split) ==
  LET d2 == d \o [j \in 1..Len(ids) |-> Val(ids[j])]
      s0 == [d |-> d2, nb |-> NB(k), b |-> [b \in 0..NB(k) - 1 |-> Bk(k, b)]]
      s1 == IF split THEN SplitOne(s0) ELSE s0
      s2 == PutAll(s1, [j \in 1..Len(ids) |-> Len(d) + j])
      ch == {b \in 0..s2.nb - 1 : b >= NB(k) \/ s2.b[b] # Bk(k, b)}
  IN [app |-> SubSeq(s2.d, Len(d) + 1, Len(s2.d)),
      new |-> [b \in ch |-> s2.b[b]],
      old |-> {b \in ch : b < NB(k)}]

Rebuild(d, nb) ==
  LET s0 == [d |-> d, nb |-> nb, b |-> [b \in 0..nb - 1 |-> EmptyB]]
      s == PutAll(s0, SeqOf({j \in 1..Len(d) : d[j].t = "val"}))
  IN [app |-> SubSeq(s.d, Len(d) + 1, Len(s.d)), new |-> s.b, nb |-> nb]

(* -------------------------------------------------------------- steps --- *)
None == [t |-> "none"]
Init ==
  /\ D = NewFile
  /\ LET k == <<Full, EmptyB>> IN K = [ex |-> TRUE, cur |-> k, dur |-> k, q |-> <<>>]
  /\ L = NoFile
  /\ pc = "r" /\ w = None /\ stops = 0 /\ ops = 0 /\ next = 1 /\ ack = {} /\ fly = {} /\ rk = FALSE

Go(p) == pc' = p
Keep(v) == UNCHANGED v
S(b) == BUG = b          \* the mistake b is made

(* Each action is at most one file operation.                               *)
Commit ==
  \/ /\ pc = "open" /\ ops < NCOMMIT
     /\ \E split \in BOOLEAN :
          LET ids == [j \in 1..PER |-> next + j - 1] IN
          w' = [Plan(D.cur, K.cur, ids, split) EXCEPT !.app = @] @@ [t |-> "commit", ks |-> Len(K.cur), ds |-> Len(D.cur), k0 |-> K.cur]
     /\ next' = next + PER /\ fly' = {next + j - 1 : j \in 1..PER} /\ ops' = ops + 1
     /\ Go("c-hdr") /\ UNCHANGED <<D, K, L, stops, ack, rk>>
  \/ /\ pc = "c-hdr" /\ L' = Write(L, 1, [t |-> "hdr", ks |-> w.ks, ds |-> IF S("wrongsize") THEN w.ds + 1 ELSE w.ds])
     /\ Go(IF S("nosync1") THEN "c-dat" ELSE "c-sync1") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-sync1" /\ L' = Sync(L) /\ Go("c-dat") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-dat"
     /\ LET n == Len(D.cur) - w.ds IN
        IF n < Len(w.app) THEN D' = Write(D, Len(D.cur) + 1, w.app[n + 1]) /\ UNCHANGED <<pc, w>>
        ELSE /\ Go(IF S("keyfirst") THEN "c-key" ELSE "c-log") /\ w' = w @@ [todo |-> IF S("keyfirst") THEN DOMAIN w.new ELSE w.old]
             /\ UNCHANGED D
     /\ UNCHANGED <<K, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-log"
     /\ IF w.todo # {}
        THEN \E b \in w.todo :
               /\ L' = IF S("skipempty") /\ Bk(w.k0, b) = EmptyB THEN L
                       ELSE Write(L, Len(L.cur) + 1, [t |-> "rec", b |-> b, c |-> IF S("lognew") THEN w.new[b] ELSE Bk(w.k0, b)])
               /\ w' = [w EXCEPT !.todo = @ \ {b}] /\ UNCHANGED pc
        ELSE /\ Go(IF S("nosync2") THEN "c-key" ELSE "c-sync2") /\ w' = [w EXCEPT !.todo = DOMAIN w.new] /\ UNCHANGED L
     /\ UNCHANGED <<D, K, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-sync2" /\ L' = Sync(L) /\ Go(IF S("keyfirst") THEN "c-syncd" ELSE "c-key")
     /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-key"
     /\ IF w.todo # {}
        THEN \E b \in w.todo : /\ K' = Write(K, b + 2, w.new[b]) /\ w' = [w EXCEPT !.todo = @ \ {b}] /\ UNCHANGED pc
        ELSE /\ Go(IF S("keyfirst") THEN "c-log" ELSE IF S("nodsync") THEN "c-synck" ELSE IF S("truncfirst") THEN "c-trunc" ELSE "c-syncd")
             /\ w' = [w EXCEPT !.todo = IF S("keyfirst") THEN w.old ELSE {}] /\ UNCHANGED K
     /\ UNCHANGED <<D, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-syncd" /\ D' = Sync(D) /\ Go(IF S("noksync") THEN "c-trunc" ELSE "c-synck")
     /\ UNCHANGED <<K, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-synck" /\ K' = Sync(K) /\ Go(IF S("truncfirst") THEN "c-ack" ELSE "c-trunc")
     /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-trunc" /\ L' = Trunc(L, 0) /\ Go(IF S("nosync3") THEN "c-ack" ELSE "c-sync3")
     /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-sync3" /\ L' = Sync(L) /\ Go(IF S("truncfirst") THEN "c-syncd" ELSE "c-ack")
     /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "c-ack" /\ ack' = ack \cup fly /\ fly' = {} /\ w' = None /\ Go("open")
     /\ UNCHANGED <<D, K, L, stops, ops, next, rk>>

Close ==   \* nothing pending: the log is empty and is erased
  /\ pc = "open" /\ L' = NoFile /\ Go("closed") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
Open == pc = "closed" /\ Go("r") /\ UNCHANGED <<D, K, L, w, stops, ops, next, ack, fly, rk>>

(* ---- rekey: the key file was erased by its user ------------------------ *)
Rekey ==
  \/ /\ REKEY /\ pc = "closed" /\ ops < NCOMMIT /\ Ids(D.cur) # {}
     /\ K' = NoFile /\ Go("nokey") /\ ops' = ops + 1 /\ UNCHANGED <<D, L, w, stops, next, ack, fly, rk>>
  \/ /\ pc = "nokey" /\ ~ L.ex
     /\ \E nb \in 1..2 : w' = [t |-> "rekey", ds |-> Len(D.cur), todo |-> {}] @@ Rebuild(D.cur, nb)
     /\ K' = NewFile /\ rk' = TRUE /\ Go("k-short") /\ UNCHANGED <<D, L, stops, ops, next, ack, fly>>
  \/ /\ pc = "k-short" /\ K' = Write(K, 1, Short) /\ Go("k-sync0") /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-sync0" /\ K' = Sync(K) /\ Go("k-log") /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-log" /\ L' = NewFile /\ Go("k-hdr") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-hdr" /\ L' = Write(L, 1, [t |-> "hdr", ks |-> 0, ds |-> w.ds])
     /\ Go(IF S("rknolog") THEN "k-full" ELSE "k-sync1") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-sync1" /\ L' = Sync(L) /\ Go("k-full") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-full" /\ K' = Write(K, 1, Full) /\ Go("k-pre") /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-pre" /\ K' = Write(K, w.nb + 1, Hole) /\ Go("k-sync2") /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-sync2" /\ K' = Sync(K) /\ Go("k-dat") /\ w' = [w EXCEPT !.todo = DOMAIN w.new]
     /\ UNCHANGED <<D, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-dat"        \* overflow records and buckets, in any order
     /\ \/ /\ Len(D.cur) - w.ds < Len(w.app)
           /\ D' = Write(D, Len(D.cur) + 1, w.app[Len(D.cur) - w.ds + 1]) /\ UNCHANGED <<K, w, pc>>
        \/ \E b \in w.todo : K' = Write(K, b + 2, w.new[b]) /\ w' = [w EXCEPT !.todo = @ \ {b}] /\ UNCHANGED <<D, pc>>
        \/ /\ w.todo = {} /\ Len(D.cur) - w.ds = Len(w.app) /\ Go(IF S("rknodsync") THEN "k-synck" ELSE "k-syncd") /\ UNCHANGED <<D, K, w>>
     /\ UNCHANGED <<L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-syncd" /\ D' = Sync(D) /\ Go(IF S("rknoksync") THEN "k-erase" ELSE "k-synck")
     /\ UNCHANGED <<K, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-synck" /\ K' = Sync(K) /\ Go("k-erase") /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "k-erase" /\ L' = NoFile /\ rk' = FALSE /\ w' = None /\ Go("closed")
     /\ UNCHANGED <<D, K, stops, ops, next, ack, fly>>

(* ---- recovery ---------------------------------------------------------- *)
Logged == L.ex /\ L.cur # <<>> /\ L.cur[1].t = "hdr"
RECURSIVE Whole(_, _)
Whole(l, j) == IF j > Len(l) THEN <<>> ELSE IF l[j].t # "rec" THEN <<>> ELSE <<l[j]>> \o Whole(l, j + 1)

NoBuckets == IF K.cur = <<>> THEN TRUE ELSE Len(K.cur) = 1 /\ K.cur[1] \in {Short, Torn}
Recover ==
  \/ /\ pc = "r" /\ ~ K.ex /\ Go("nokey") /\ w' = None /\ UNCHANGED <<D, K, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r" /\ K.ex /\ NoBuckets
     \* what is seen of the key file may not have reached the disk yet
     /\ K' = (IF S("shortnosync") THEN K ELSE Sync(K)) /\ Go("r-k0") /\ w' = None
     /\ UNCHANGED <<D, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-k0" /\ L' = NoFile /\ Go("r-k1")
     /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-k1" /\ K' = NoFile /\ UNCHANGED L /\ rk' = FALSE /\ Go("nokey")
     /\ UNCHANGED <<D, w, stops, ops, next, ack, fly>>
  \/ /\ pc = "r" /\ K.ex /\ ~ NoBuckets
     /\ IF ~ L.ex THEN Go("r-end") /\ w' = None
        ELSE IF ~ Logged THEN Go("r-clr") /\ w' = [t |-> "rec", h |-> [ks |-> 1, ds |-> 0], todo |-> <<>>]
        ELSE LET h == L.cur[1] IN
             /\ w' = [t |-> "rec", h |-> h, todo |-> IF h.ks = 0 THEN <<>> ELSE Whole(L.cur, 2)]
             /\ Go(IF h.ks = 0 THEN "r-dat" ELSE IF S("rectruncfirst") THEN "r-clr0" ELSE "r-key")
     /\ UNCHANGED <<D, K, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-clr0" /\ L' = Sync(Trunc(L, 0)) /\ Go("r-key") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-key"
     /\ IF w.todo = <<>> THEN Go("r-dat") /\ UNCHANGED <<K, w>>
        ELSE LET u == Head(w.todo) IN
             K' = Write(K, u.b + 2, u.c) /\ w' = [w EXCEPT !.todo = Tail(@)] /\ UNCHANGED pc
     /\ UNCHANGED <<D, L, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-dat" /\ D' = Trunc(D, w.h.ds) /\ Go(IF S("recnodsync") THEN "r-kt" ELSE "r-ds") /\ UNCHANGED <<K, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-ds" /\ D' = Sync(D) /\ Go("r-kt") /\ UNCHANGED <<K, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-kt" /\ K' = (IF S("reckeep") THEN K ELSE Trunc(K, w.h.ks)) /\ Go(IF S("recnoksync") THEN "r-clr" ELSE "r-ks")
     /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-ks" /\ K' = Sync(K) /\ Go("r-clr") /\ UNCHANGED <<D, L, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-clr" /\ L' = Trunc(L, 0) /\ Go("r-ls") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-ls" /\ L' = Sync(L) /\ Go("r-er") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-er" /\ L' = NoFile /\ Go(IF w.h.ks = 0 THEN "r-k1" ELSE "r-end") /\ UNCHANGED <<D, K, w, stops, ops, next, ack, fly, rk>>
  \/ /\ pc = "r-end" /\ Go("r-new") /\ rk' = FALSE
     /\ ack' = Ids(D.cur) /\ fly' = {} /\ w' = [t |-> "found", before |-> ack, flying |-> fly]
     /\ UNCHANGED <<D, K, L, stops, ops, next>>
  \/ /\ pc = "r-new" /\ L' = NewFile /\ Go("open") /\ w' = None
     /\ UNCHANGED <<D, K, stops, ops, next, ack, fly, rk>>

(* ---- kills, failed operations and power failures ----------------------- *)
Stop ==
  /\ stops < STOPS /\ stops' = stops + 1 /\ pc \notin {"nokey"}
  /\ \/ UNCHANGED <<D, K, L>>
     \/ \E d \in AnySubset(D.dur, D.q), k \in AnySubset(K.dur, K.q), l \in AnyPrefix(L.dur, L.q) :
          D' = Left(D, d) /\ K' = Left(K, k) /\ L' = Left(L, l)
  /\ Go("r") /\ w' = None
  /\ UNCHANGED <<ops, next, ack, fly, rk>>

Next == Commit \/ Close \/ Open \/ Rekey \/ Recover \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Commit \/ Rekey \/ Recover)

(* --------------------------------------------------------- properties --- *)
(* C04: what recovery leaves is the completed commits, with the interrupted *)
(* one completely or not at all                                             *)
Atomic ==
  (pc = "r-new") => /\ Exact(D.cur, K.cur)
                    /\ Ids(D.cur) \in {w.before, w.before \cup w.flying}
(* C12: without a key file the data file is as it was                       *)
Undone == (pc = "nokey") => Ids(D.cur) = ack /\ \A j \in 1..Len(D.cur) : D.cur[j].t \in {"val", "spl"}
(* C11, C12: a finished rekey is complete                                   *)
Finished == (pc = "closed") => /\ Exact(D.cur, K.cur) /\ Ids(D.cur) = ack
                               /\ D.q = <<>> /\ K.q = <<>>
(* C22: an idle store is durable                                            *)
Idle == (pc = "open") => /\ Exact(D.cur, K.cur) /\ Ids(D.cur) = ack /\ D.q = <<>> /\ K.q = <<>> /\ L.cur = <<>> /\ L.q = <<>>
(* C07: bytes of completed commits are never written again                  *)
AckedD == {j \in 1..Len(D.cur) : D.cur[j].t = "val" /\ D.cur[j].id \in ack}
Stable == [][pc' # "r" => \A j \in AckedD : j <= Len(D'.cur) /\ D'.cur[j] = D.cur[j]]_vars
(* C05: recovery always ends                                                *)
Ends == [](pc \in {"r"} => <>(pc \in {"open", "nokey", "closed"} \/ ENABLED Stop))
=============================================================================
