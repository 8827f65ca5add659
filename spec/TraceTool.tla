----------------------------- MODULE TraceTool -----------------------------
(* The command line tool: histories of TraceKV with runs of the tool on the *)
(* files of the database, after clean closes and after kills in the middle  *)
(* of a commit or of a rekey.                                                *)
EXTENDS TraceKV

(* alt: the contents the database may have after recovery; pend: what was   *)
(* interrupted ("" nothing); kf: there is a key file; kcut: nothing of it  *)
(* is left but (a part of) its header; cut: bytes missing at the end of the *)
(* data file                                                                *)
TInit0(tr) == Init0(tr) @@ [alt |-> {}, pend |-> "", kf |-> FALSE, kcut |-> FALSE, cut |-> 0, lk |-> -1, ld |-> -1]

Recs(sn) == Len(sn.recs)
Close(a, b, tol) == a >= b - tol /\ a <= b + tol

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
SizeHist(sn, last) == [x \in 1..last |-> Cardinality({r \in 1..Recs(sn) : Log2(sn.recs[r][3]) = x - 1})]

ToolVerifyOK(s, e) ==
  LET sn == s.sn
      used == Spilled(sn)
      sct == Len(sn.spl)
      sb == SumSet(SpillBytes(sn), used)
      sbt == SumSeq([x \in 1..sct |-> 8 + sn.splz[x]], 1)
      n == Recs(sn)
      vb == SumSeq([x \in 1..n |-> sn.recs[x][3]], 1)
      h == SpillHist(sn)
      near(x, num, den, tol) == Close(x, (num * 10000) \div den, tol)
  IN /\ e.alg \in {0, 1} /\ e.idok
     /\ e.no = 0 => e.alg = 0
     /\ e.ver = 2 /\ e.ks = sn.ks /\ e.bs = sn.bs /\ e.cap = sn.cap /\ e.nb = sn.nb /\ e.bsz = 8 + 18 * sn.cap
     /\ e.kfs = sn.ksz /\ e.dfs = sn.dsz
     /\ e.kc = n /\ e.vc = n /\ e.vb = vb
     /\ e.sc = Cardinality(used) /\ e.sct = sct /\ e.sb = sb /\ e.sbt = sbt
     (* printed without the zeroes at the end *)
     /\ Len(e.hist) \in 1..Len(h)
     /\ \A x \in 1..Len(h) : h[x] = IF x <= Len(e.hist) THEN e.hist[x] ELSE 0
     /\ Len(e.hist) > 1 => e.hist[Len(e.hist)] # 0
     /\ (n < 10000 /\ sn.cap * sn.nb < 200000) => near(e.load, n, sn.cap * sn.nb, 51)
     /\ (sbt - sb < 200000) => near(e.waste, sbt - sb, sn.dsz, 3)
     /\ Close(e.lfp, (sn.lf * 625) \div 4096, 51)       \* whole percent; lf in 65536ths
     /\ n = 0 => e.avg = 0 /\ e.over = 0
     /\ n > 0 => e.avg >= 10000
     /\ \A x \in 1..Len(s.ver) :
          LET p == s.ver[x] IN Close(p.avg, e.avg, 6) /\ Close(p.over, e.over, 6 + (p.over \div 100000)) /\ Close(p.waste, e.waste, 3)

ToolVisitOK(s, e) ==
  LET n == Recs(s.sn)
  IN /\ e.hok /\ e.fs = s.sn.dsz
     /\ e.vn = n
     /\ Len(e.hist) >= 1
     /\ e.hist = SizeHist(s.sn, Len(e.hist))
     /\ \A x \in 1..n : Log2(s.sn.recs[x][3]) < Len(e.hist)
     /\ Len(e.hist) > 1 => e.hist[Len(e.hist)] # 0

(* info describes each file that can be described, in the order given       *)
ToolInfoOK(s, e) ==
  LET want == SubSeq(<<"d", "k", "l">>, 1, e.nf)
      sz(c) == IF c = "d" THEN e.dsz ELSE IF c = "k" THEN e.ksz ELSE e.lsz
      min(c) == IF c = "d" THEN 92 ELSE IF c = "k" THEN 104 ELSE 62
  IN /\ Len(e.blk) = e.nf
     /\ \A x \in 1..e.nf :
          LET b == e.blk[x]
              c == want[x] IN
          IF sz(c) < min(c) THEN b.t = "x"
          ELSE /\ b.t = c /\ b.fs = sz(c) /\ b.ok
               /\ c = "l" /\ s.pend = "commit" => b.ksz = s.lk /\ b.dsz = s.ld
               /\ c = "l" /\ s.pend = "rekey" => b.ksz = 0 /\ b.dsz = s.ld

Good(s, e) == e.rc = 0
Bad(e) == e.rc \notin {0} /\ e.rc < 120 /\ e.err

ToolStep(s, e) ==
  CASE e.miss -> IF e.same /\ (IF e.cmd = "info" THEN e.rc = 0 /\ \E x \in 1..Len(e.blk) : e.blk[x].t = "x"
                              ELSE e.rc \in 1..119) THEN {s} ELSE {}
    [] e.cmd = "help" -> IF e.rc = 0 /\ e.same THEN {s} ELSE {}
    [] e.cmd = "info" ->
         IF e.same /\ (IF e.nf = 0 THEN Bad(e) ELSE e.rc = 0 /\ ToolInfoOK(s, e)) THEN {s} ELSE {}
    [] e.cmd = "verify" ->
         IF /\ e.same
            /\ IF e.nf < 2 \/ ~ s.kf \/ s.kcut \/ s.cut > 0 THEN Bad(e)
               ELSE e.rc = 0 /\ ToolVerifyOK(s, e)
         THEN {s} ELSE {}
    [] e.cmd = "visit" ->
         IF /\ e.same
            /\ IF e.nf < 1 THEN Bad(e)
               ELSE IF s.cut > 0
               (* cut short: success only if nothing but whole records is left *)
               THEN IF e.dsz < 92 THEN e.rc # 0 /\ e.rc < 120
                    ELSE LET sn == s.sn
                             fit == {x \in 1..Recs(sn) : sn.recs[x][6] + 6 + sn.ks + sn.recs[x][3] <= e.dsz}
                         IN IF e.dsz \in Bounds(sn) THEN e.rc = 0 /\ e.vn = Cardinality(fit)
                            ELSE Bad(e) /\ e.vn = -2
               ELSE e.rc = 0 /\ ToolVisitOK(s, e)
         THEN {s} ELSE {}
    [] e.cmd = "rekey" ->
         (* it needs three files, a count and a buffer size, no key file and no log *)
         IF e.nf < 3 \/ e.no < 2 THEN (IF Bad(e) /\ e.same THEN {s} ELSE {})
         ELSE IF s.kf \/ e.haslog \/ s.cut > 0 THEN (IF Bad(e) /\ (s.cut = 0 => e.same) THEN {s} ELSE {})
         ELSE IF e.rc = 0 /\ RekeyOK(s, e)
              THEN {[Remember(s, e) EXCEPT !.kf = TRUE, !.csz = e.dsz, !.bs = 4096, !.cap = (4096 - 8) \div 18, !.lf = e.hlf]}
              ELSE {}
    [] e.cmd = "recover" ->
         IF e.nf < 3 THEN (IF Bad(e) /\ e.same THEN {s} ELSE {})
         (* the library's recover, and the truth about how it ended *)
         ELSE IF ~ e.leq \/ (e.rc = 0) # e.lok \/ (~ e.lok /\ ~ Bad(e)) THEN {}
         (* a key file that has not been begun is removed and reported *)
         ELSE IF s.kcut THEN (IF Bad(e) /\ e.dsame /\ ~ e.kf /\ ~ e.logleft THEN {[s EXCEPT !.kcut = FALSE, !.kf = FALSE]} ELSE {})
         ELSE IF s.pend = "" THEN
              (* nothing to do; a missing key file is an error *)
              (IF e.same /\ (IF s.kf THEN e.rc = 0 ELSE Bad(e)) THEN {s} ELSE {})
         ELSE IF e.rc = 0 /\ e.kf THEN
              (IF /\ ~ e.logleft /\ e.kf /\ IndexOK(e.snap)
                  /\ \E m \in s.alt : DataMap(e.snap) = {<<k, m[k]>> : k \in DOMAIN m}
               THEN {[Remember(s, e) EXCEPT !.kv = [open |-> FALSE, made |-> TRUE, mem |-> EmptyMap,
                                                   disk |-> CHOOSE m \in s.alt : DataMap(e.snap) = {<<k, m[k]>> : k \in DOMAIN m}],
                                            !.csz = e.dsz, !.pend = "", !.kf = TRUE, !.bs = e.snap.bs, !.cap = e.snap.cap, !.lf = e.snap.lf]}
               ELSE {})
         (* an interrupted rekey is undone; a key file that has not been begun is reported *)
         ELSE IF s.pend = "rekey" /\ (e.rc = 0 \/ Bad(e)) /\ ~ e.kf /\ ~ e.logleft /\ e.dsz = s.ld
              THEN {[s EXCEPT !.pend = "", !.kf = FALSE]} ELSE {}
    [] OTHER -> IF Bad(e) /\ e.same THEN {s} ELSE {}

TStep(s, e) ==
  CASE e.o = "tool" -> ToolStep(s, e)
    [] e.o = "kill" ->
         LET full == s.kv.mem @@ s.kv.disk
         IN {[s EXCEPT !.kv.open = FALSE, !.kv.mem = EmptyMap, !.pend = e.what, !.lk = s.ksz, !.ld = s.dsz,
                       !.alt = IF e.what = "rekey" THEN {s.kv.disk} ELSE IF e.hit THEN {s.kv.disk, full} ELSE {full}]}
    [] e.o = "rmkey" -> {[s EXCEPT !.kf = FALSE, !.kcut = FALSE]}
    [] e.o = "cutkey" -> {[s EXCEPT !.kcut = TRUE]}
    [] e.o = "cut" -> {[s EXCEPT !.cut = e.n]}
    [] e.o = "create" -> {[x EXCEPT !.kf = (e.r = "ok"), !.lf = IF Field(e, "hlf") THEN e.hlf ELSE @] : x \in Step(s, e)}
    [] OTHER -> Step(s, e)

TInit == t \in 1..Len(Traces) /\ i = 1 /\ S = {TInit0(Traces[t])}
TNext ==
  IF i = 1 /\ Crashed
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ S' = {} /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         R == UNION {TStep(s, e) : s \in S}
     IN IF R = {} THEN PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1 /\ S' = {}
        ELSE i' = i + 1 /\ S' = R
  /\ t' = t
TSpec == TInit /\ [][TNext]_vars
=============================================================================
