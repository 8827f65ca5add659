------------------------------ MODULE TraceKV ------------------------------
(* Accepts or rejects recorded sequential histories of the real store.      *)
(* The file named by environment variable TRACES has one history per line.  *)
(* Aspects selects what is enforced:                                        *)
(*   map   results of fetch and insert                                      *)
(*   api   results of create, open, close                                   *)
(*   data  the data file is append only                                     *)
(*   idx   the index invariant after every commit                           *)
(*   grow  growth of the bucket count                                       *)
(*   cost  file accesses of a fetch                                         *)
(*   ver   verify results                                                   *)
(*   vis   visit results                                                    *)
(*   rk    rekey results                                                    *)
(*   cor   verify on altered files                                            *)
(*   fin   state of the files after close                                   *)
EXTENDS KV, Index, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects == {IOEnv.A1, IOEnv.A2, IOEnv.A3, IOEnv.A4}
On(a) == a \in Aspects

VARIABLES t, i, S
vars == <<t, i, S>>

Field(e, f) == f \in DOMAIN e

Init0(tr) ==
  [kv |-> KVInit, csz |-> 0, nb0 |-> 0, nb |-> 0, cnt |-> 0, lf |-> 0, cap |-> IF Field(tr, "cap") THEN tr.cap ELSE 0, bs |-> IF Field(tr, "bs") THEN tr.bs ELSE 0,
   sn |-> <<>>, dsz |-> -1, ksz |-> -1, clean |-> FALSE, ver |-> <<>>]

(* ---- aspects ---------------------------------------------------------- *)

(* committed bytes are never touched: lo is the lowest offset of the data   *)
(* file written or cut since the previous event, keep whether the bytes     *)
(* committed before are still the same                                      *)
DataOK(s, e) ==
  On("data") /\ Field(e, "lo") =>
    /\ e.keep
    /\ e.lo = -1 \/ e.lo >= s.csz
    /\ Field(e, "dsz") => e.dsz >= s.csz

SnapOK(s, e, kv) ==
  On("idx") /\ Field(e, "snap") =>
    /\ IndexOK(e.snap)
    /\ DataMap(e.snap) = {<<k, kv.disk[k]>> : k \in DOMAIN kv.disk}

Max(a, b) == IF a > b THEN a ELSE b
(* buckets after n inserts in one session *)
Thresh(s) == Max(65536, s.lf * s.cap)
Grown(s, n) == (n * 65536 + Thresh(s) \div 2) \div Thresh(s)
GrowOK(s, e, n) ==
  On("grow") /\ Field(e, "ksz") =>
    /\ e.ksz % s.bs = 0
    /\ LET nb == e.ksz \div s.bs - 1 IN
       /\ nb >= s.nb
       /\ nb - s.nb0 - Grown(s, n) \in {-1, 0, 1}

CostOK(s, e) ==
  On("cost") =>
    IF Has(s.kv.mem, e.k) THEN e.rd = <<>>
    ELSE LET b == BucketOf2(e.hh, e.hl, s.sn.nb) + 1
             ch == ChainOf(s.sn, b - 1)
         IN /\ \A x \in 1..Len(e.rd) :
                 LET q == e.rd[x] IN
                 /\ ~ q[3]
                 /\ CASE q[1] = 1 -> q[2] = b
                      [] q[1] = 2 -> \E y \in 1..Len(ch) : ch[y] = q[2]
                      [] q[1] = 3 -> s.sn.recs[q[2]][4] = e.hh /\ s.sn.recs[q[2]][5] = e.hl
                      [] OTHER -> FALSE

SpillBytes(sn) == LET f == [x \in 1..Len(sn.spl) |-> 16 + 18 * sn.spl[x].n] IN f
VerifyOK(s, e) ==
  On("ver") =>
    LET sn == s.sn
        used == Spilled(sn)
        sct == Len(sn.spl)
        sb == SumSet(SpillBytes(sn), used)
        sbt == SumSeq([x \in 1..sct |-> 8 + sn.splz[x]], 1)
        n == Len(sn.recs)
        vb == SumSeq([x \in 1..n |-> sn.recs[x][3]], 1)
    IN /\ e.r = "ok"
       /\ e.same /\ e.idok
       /\ e.alg \in {0, 1}
       /\ e.buf = 0 => e.alg = 0
       /\ e.ver = 2 /\ e.ks = sn.ks /\ e.bs = sn.bs /\ e.cap = sn.cap /\ e.nb = sn.nb /\ e.bsz = 8 + 18 * sn.cap
       /\ e.lf = sn.lf
       /\ e.ksz = sn.ksz /\ e.dsz = sn.dsz
       /\ e.kc = n /\ e.vc = n /\ e.vb = vb
       /\ e.sc = Cardinality(used) /\ e.sct = sct /\ e.sb = sb /\ e.sbt = sbt
       /\ e.hist = SpillHist(sn)
       (* derived figures, in ten thousandths, compared by cross multiplication *)
       /\ LET near(x, num, den) == LET q == (num * 10000) \div den IN x >= q - 3 /\ x <= q + 3 IN
          /\ (n < 10000 /\ sn.cap * sn.nb < 200000) => near(e.load, n, sn.cap * sn.nb)
          /\ (sbt - sb < 200000 /\ sn.dsz < Most) => near(e.waste, sbt - sb, sn.dsz)
       /\ n = 0 => e.avg = 0 /\ e.over = 0
       /\ n > 0 => e.avg >= 10000
       (* both algorithms report the same figures on the same files *)
       /\ \A x \in 1..Len(s.ver) :
            LET p == s.ver[x] IN p.avg = e.avg /\ p.waste = e.waste /\ p.over = e.over /\ p.load = e.load

(* record boundaries of a (small) data file *)
Bounds(sn) ==
  {92} \cup {sn.recs[x][6] + 6 + sn.ks + sn.recs[x][3] : x \in 1..Len(sn.recs)}
       \cup {sn.spo[x] + sn.splz[x] : x \in 1..Len(sn.spl)}

VisitOK(s, e) ==
  On("vis") =>
    LET sn == s.sn
        n == Len(sn.recs)
        full == [x \in 1..n |-> <<sn.recs[x][1], sn.recs[x][2], sn.recs[x][3]>>]
        (* records that end at or before the cut *)
        fit == IF e.cut = -1 THEN n
               ELSE Cardinality({x \in 1..n : sn.recs[x][6] + 6 + sn.ks + sn.recs[x][3] <= e.cut})
        lim == IF e.stop > 0 /\ e.stop < fit THEN e.stop ELSE fit
        stopped == e.stop > 0 /\ e.stop <= fit
        (* the cut falls on a record boundary *)
        clean == IF e.cut = -1 THEN TRUE ELSE e.cut \in Bounds(sn)
    IN /\ e.ksok /\ e.mono
       /\ e.m = SubSeq(full, 1, lim)
       /\ IF stopped THEN e.r = "too_many_buckets"
          ELSE IF clean THEN e.r = "ok" ELSE e.r \notin {"ok", "too_many_buckets"}

Thrown(r) == Len(r) >= 9 /\ SubSeq(r, 1, 9) = "exception"

RekeyOK(s, e) ==
  On("rk") =>
    /\ e.r = "ok"
    /\ e.idok /\ e.kf /\ ~ e.logleft /\ e.mono
    /\ e.snap.bs = e.bs
    /\ LET x == ((e.lf \div 10) * 4096) \div 6250   \* 65536 * lf / 10^6
       IN e.hlf >= x - 8 /\ e.hlf <= x + 8 /\ e.hlf >= 1
    /\ IndexOK(e.snap)
    /\ DataMap(e.snap) = {<<k, s.kv.disk[k]>> : k \in DOMAIN s.kv.disk}
    /\ e.snap.nb >= 1
    (* data records untouched, only spill records appended *)
    /\ Len(e.snap.recs) = Len(s.sn.recs)
    /\ \A x \in 1..Len(e.snap.recs) : e.snap.recs[x][6] = s.sn.recs[x][6] /\ e.snap.recs[x][2] = s.sn.recs[x][2]
    /\ e.keep /\ (e.lo = -1 \/ e.lo >= s.csz)

FinOK(s, e) ==
  On("fin") =>
    /\ ~ e.dirty
    /\ e.lsz = -1
    /\ e.hdr
    /\ e.hlf = s.lf
    /\ (s.clean /\ DOMAIN s.kv.mem = {}) => (e.dsz = s.dsz /\ e.ksz = s.ksz /\ e.lo = -1 /\ e.keep /\ e.ksame)

(* ---- steps ------------------------------------------------------------ *)


Remember(s, e) ==
  LET a == IF Field(e, "snap") THEN [s EXCEPT !.sn = e.snap, !.ver = <<>>] ELSE s
      b == IF Field(e, "dsz") THEN [a EXCEPT !.dsz = e.dsz, !.ksz = e.ksz] ELSE a
  IN b

Step(s, e) ==
  CASE e.o = "create" ->
         {[Remember(s, e) EXCEPT !.kv = k, !.csz = e.dsz] :
             k \in IF On("api") \/ e.r = "ok" THEN SuccCreate(s.kv, e.r) ELSE {}}
    [] e.o = "open" ->
         IF DataOK(s, e) /\ SnapOK(s, e, s.kv) /\ (On("api") /\ e.r = "ok" => e.paths)
            /\ (On("fin") /\ e.r = "ok" => e.bs = s.bs)
         THEN {[Remember(s, e) EXCEPT !.kv = k, !.nb0 = e.ksz \div s.bs - 1, !.nb = e.ksz \div s.bs - 1,
                                      !.cnt = 0, !.clean = TRUE] : k \in SuccOpen(s.kv, e.r)}
         ELSE {}
    [] e.o = "ins" ->
         IF ~ DataOK(s, e) THEN {}
         ELSE LET ks == IF On("map") THEN SuccInsert(s.kv, e.k, e.v, e.r)
                        ELSE IF e.r = "ok" THEN {[s.kv EXCEPT !.mem = Put(@, e.k, e.v)]} ELSE {s.kv}
              IN {[s EXCEPT !.kv = k, !.cnt = IF e.r = "ok" THEN @ + 1 ELSE @, !.clean = FALSE] : k \in ks}
    [] e.o = "get" ->
         IF ~ CostOK(s, e) THEN {}
         ELSE IF On("map") THEN {[s EXCEPT !.kv = k] : k \in SuccFetch(s.kv, e.k, e.r, e.v)} ELSE {s}
    [] e.o \in {"flush", "close", "destroy"} ->
         LET ks == IF e.o = "flush" THEN SuccFlush(s.kv)
                   ELSE SuccClose(s.kv, IF e.o = "destroy" THEN "ok" ELSE e.r)
         IN {[Remember(s, e) EXCEPT !.kv = k, !.csz = e.dsz, !.nb = e.ksz \div s.bs - 1] :
               k \in {x \in ks : /\ DataOK(s, e) /\ SnapOK(s, e, x) /\ GrowOK(s, e, s.cnt)
                                 /\ (e.o \in {"close", "destroy"} => FinOK(s, e))
                                 /\ (e.o = "close" /\ On("api") => ~ e.isopen)}}
    [] e.o = "power" -> {s}
    (* records that were put into the data file; the index has to be made by rekey *)
    [] e.o = "preset" ->
         {[s EXCEPT !.kv.disk = [k \in DOMAIN @ \cup {e.m[x] : x \in 1..Len(e.m)} |-> IF k \in DOMAIN @ THEN @[k] ELSE -2],
                    !.csz = e.dsz, !.dsz = e.dsz]}
    [] e.o = "snap" -> IF SnapOK(s, e, s.kv) THEN {Remember(s, e)} ELSE {}
    [] e.o = "verify" -> IF VerifyOK(s, e) THEN {[s EXCEPT !.ver = IF e.r = "ok" THEN Append(@, e) ELSE @]} ELSE {}
    [] e.o = "corrupt" ->
         IF On("cor") => \A x \in 1..Len(e.res) : /\ ~ Thrown(e.res[x])
                                                  /\ Broken(e.snap) => e.res[x] # "ok"
         THEN {s} ELSE {}
    [] e.o = "visit" -> IF VisitOK(s, e) THEN {s} ELSE {}
    [] e.o = "rekey" ->
         IF RekeyOK(s, e)
         THEN {[Remember(s, e) EXCEPT !.csz = IF e.r = "ok" THEN e.dsz ELSE @, !.bs = IF e.r = "ok" THEN e.bs ELSE @,
                   !.cap = IF e.r = "ok" THEN (e.bs - 8) \div 18 ELSE @, !.lf = IF e.r = "ok" THEN e.hlf ELSE @]}
         ELSE {}
    [] OTHER -> {}

(* the load factor is a parameter of the database, known from its creation *)
StepLf(s, e) == {[x EXCEPT !.lf = IF e.o = "create" /\ Field(e, "hlf") THEN e.hlf ELSE @] : x \in Step(s, e)}

Init == t \in 1..Len(Traces) /\ i = 1 /\ S = {Init0(Traces[t])}

Crashed == Field(Traces[t], "crash")

Next ==
  IF i = 1 /\ Crashed
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ S' = {} /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         R == UNION {StepLf(s, e) : s \in S}
     IN IF R = {} THEN PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1 /\ S' = {}
        ELSE i' = i + 1 /\ S' = R
  /\ t' = t

Spec == Init /\ [][Next]_vars
=============================================================================
