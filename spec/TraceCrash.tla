----------------------------- MODULE TraceCrash -----------------------------
(* Crash and fault histories of the real store. The driver records calls    *)
(* (begin/end, or call when faults are injected) and, wherever a crash may  *)
(* strike, the outcome of recovering what the crash left (img). An outcome  *)
(* has to be one the specification allows at that point.                    *)
(* Aspects:                                                                 *)
(*   map    contents after recovery (atomicity, durability)                 *)
(*   idx    index invariant after recovery                                  *)
(*   nest   interrupted recoveries end like undisturbed ones; idempotence   *)
(*   err    results of calls under faults                                   *)
(*   data   committed bytes of the data file                                *)
(*   rk     outcomes of interrupted rekeys                                  *)
(*   mk     create under faults                                             *)
EXTENDS KV, Index, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects == {IOEnv.A1, IOEnv.A2, IOEnv.A3, IOEnv.A4}
On(a) == a \in Aspects

VARIABLES t, i, S
Field(e, f) == f \in DOMAIN e
ToMap(m) == {<<k, m[k]>> : k \in DOMAIN m}
Range(q) == {q[x] : x \in 1..Len(q)}
Snapped(e) == Field(e, "snap")
FromSnap(sn) == LET D == DataMap(sn) IN [k \in {p[1] : p \in D} |-> (CHOOSE p \in D : p[1] = k)[2]]

Init0 == [kv |-> KVInit, busy |-> "", csz |-> -1, key |-> FALSE, poison |-> FALSE, rk |-> FALSE, dat |-> FALSE,
          alt |-> {}]   \* contents a later power failure may still turn up: those around a commit that failed

IsErr(r) == r \notin {"ok", "nf", "exists", "-"}

(* ---- outcomes of recovery --------------------------------------------- *)
NoKey(e) == ~ e.kf /\ (e.r \in {"ok", "no_key_file", "enoent"})
Db(e) == e.r = "ok" /\ e.kf /\ Snapped(e) /\ e.open = "ok"

(* kl: the process was killed and the power failed while its files were recovered *)
Full(e) == On("map") \/ (On("nest") /\ Field(e, "kl"))

(* a database holding exactly m *)
Holds(e, m) ==
  /\ Db(e)
  /\ Full(e) => {<<p[1], p[2]>> : p \in Range(e.f)} = ToMap(m) /\ e.use /\ ~ e.lg
  /\ Full(e) \/ On("rk") \/ On("mk") => DataMap(e.snap) = ToMap(m)
  /\ On("idx") \/ On("rk") => IndexOK(e.snap)

(* what an interrupted rekey may leave without a key file *)
Undone(s, e) ==
  /\ NoKey(e)
  /\ On("rk") => /\ e.keep /\ e.dsz = s.csz /\ ~ e.lg
                 /\ e.again = "ok" /\ ~ e.lg2
                 /\ IndexOK(e.snap) /\ DataMap(e.snap) = ToMap(s.kv.disk)

Committing(s) == s.busy \in {"f", "c", "D"}
Together(s) == s.kv.mem @@ s.kv.disk

ImgOK(s, e) ==
  /\ ~ Field(e, "anomaly")
  /\ On("data") => e.keep
  /\ CASE ~ s.dat -> TRUE
       [] s.busy = "R" \/ s.rk ->
            Undone(s, e) \/ (s.key /\ Holds(e, s.kv.disk)) \/ Holds(e, s.kv.disk)
       [] ~ s.key -> TRUE
       [] Committing(s) /\ s.kv.mem # EmptyMap ->
            \/ Holds(e, s.kv.disk) /\ (On("data") => e.dsz = s.csz)
            \/ Holds(e, Together(s)) /\ (On("data") => e.dsz > s.csz)
       [] OTHER -> Holds(e, s.kv.disk) /\ (On("data") /\ s.csz >= 0 => e.dsz = s.csz)

(* an interrupted or failed recovery that is repeated ends the same way     *)
SameAs(e, n) ==
  IF e.kf /\ e.r = "ok"
  THEN /\ n.r = "ok" /\ n.kf /\ Snapped(n) /\ n.open = "ok" /\ n.use
       /\ DataMap(n.snap) = DataMap(e.snap) /\ n.f = e.f /\ n.dsz = e.dsz /\ n.keep = e.keep
       /\ IndexOK(n.snap) = IndexOK(e.snap)
       /\ n.idem
  ELSE IF NoKey(e)
  THEN NoKey(n) /\ n.dsz = e.dsz /\ n.keep = e.keep /\ (Field(e, "again") => n.again = e.again)
  ELSE n.r = e.r

NestOK(s, e) ==
  /\ On("nest") =>
       /\ \A x \in 1..Len(e.nest) : SameAs(e, e.nest[x]) /\ ImgOK(s, e.nest[x])
       /\ e.bad = <<>>
       /\ Field(e, "idem") => e.idem
  /\ On("rk") /\ s.busy = "R" => \A x \in 1..Len(e.nest) : ImgOK(s, e.nest[x])
  /\ On("data") => \A x \in 1..Len(e.nest) : e.nest[x].keep /\ e.nest[x].dsz = e.dsz

(* ---- calls without faults --------------------------------------------- *)
EndOf(s, e) ==
  LET kv == s.kv IN
  CASE e.op = "o" -> {[s EXCEPT !.busy = "", !.kv = k] : k \in SuccOpen(kv, e.r)}
    [] e.op = "i" -> {}
    [] e.op = "f" -> {[s EXCEPT !.busy = "", !.kv = k, !.csz = e.dsz] : k \in SuccFlush(kv)}
    [] e.op = "c" -> {[s EXCEPT !.busy = "", !.kv = k, !.csz = e.dsz] : k \in SuccClose(kv, e.r)}
    [] e.op = "D" -> {[s EXCEPT !.busy = "", !.kv = k, !.csz = e.dsz] : k \in SuccClose(kv, "ok")}
    [] e.op = "E" -> {[s EXCEPT !.busy = "", !.key = FALSE]}
    [] e.op = "R" -> IF e.r = "ok" THEN {[s EXCEPT !.busy = "", !.key = TRUE, !.csz = e.dsz]} ELSE {}
    [] e.op = "C" -> IF e.r = "ok" THEN {[s EXCEPT !.busy = "", !.key = TRUE, !.dat = TRUE, !.csz = e.dsz, !.kv = k] : k \in SuccCreate(kv, "ok")} ELSE {}
    [] e.op = "Q" -> IF e.r = "ok" \/ ~ s.key THEN {[s EXCEPT !.busy = ""]} ELSE {}
    [] OTHER -> {}

(* ---- calls with faults: e.fl tells whether a file operation failed during it ---- *)
Call(s, e) ==
  LET kv == s.kv
      E == On("err")
      both == {kv.disk, Together(s)}
      lost == {[s EXCEPT !.kv.disk = d, !.kv.mem = EmptyMap, !.alt = both] : d \in both}
  IN
  CASE e.op = "g" ->
         IF ~ E THEN {s}
         ELSE IF s.poison \/ e.fl THEN (IF IsErr(e.r) THEN {s} ELSE {})
         ELSE {[s EXCEPT !.kv = k] : k \in SuccFetch(kv, e.k, e.r, e.v)}
    [] e.op = "i" ->
         IF ~ E /\ e.r # "ok" THEN {s}
         ELSE IF E /\ (s.poison \/ e.fl) THEN (IF IsErr(e.r) THEN {s} ELSE {})
         ELSE {[s EXCEPT !.kv = k] : k \in SuccInsert(kv, e.k, e.v, e.r)}
    [] e.op = "f" ->
         IF s.poison THEN {s}
         ELSE IF e.fl THEN {[x EXCEPT !.poison = TRUE] : x \in lost}
         ELSE {[s EXCEPT !.kv = k] : k \in SuccFlush(kv)}
    [] e.op \in {"c", "D"} ->
         IF s.poison \/ e.fl
         THEN IF E /\ e.op = "c" /\ ~ IsErr(e.r) THEN {}
              ELSE {[x EXCEPT !.kv.open = FALSE, !.poison = FALSE] : x \in IF s.poison THEN {s} ELSE lost}
         ELSE {[s EXCEPT !.kv = k] : k \in SuccClose(kv, IF e.op = "D" \/ ~ E THEN "ok" ELSE e.r)}
    [] e.op = "o" ->
         IF e.fl THEN (IF IsErr(e.r) THEN {s} ELSE IF E THEN {} ELSE {[s EXCEPT !.kv.open = TRUE]})
         ELSE IF s.key /\ ~ s.rk THEN (IF E \/ e.r = "ok" THEN {[s EXCEPT !.kv = [k EXCEPT !.mem = EmptyMap], !.alt = {}] : k \in SuccOpen(kv, e.r)} ELSE {s})
         ELSE IF IsErr(e.r) THEN {s} ELSE {[s EXCEPT !.kv.open = TRUE]}
    [] e.op = "E" -> {[s EXCEPT !.key = FALSE]}
    [] e.op = "R" ->
         IF e.fl THEN (IF IsErr(e.r) \/ ~ On("rk") THEN {[s EXCEPT !.rk = TRUE]} ELSE {})
         ELSE IF e.r = "ok" THEN {[s EXCEPT !.key = TRUE]} ELSE (IF On("rk") THEN {} ELSE {[s EXCEPT !.rk = TRUE]})
    [] e.op = "C" ->
         IF e.fl THEN (IF ~ On("mk") THEN {s} ELSE IF IsErr(e.r) /\ e.files = "" THEN {s} ELSE {})
         ELSE IF e.r = "ok" THEN {[s EXCEPT !.key = TRUE, !.dat = TRUE, !.kv = k] : k \in SuccCreate(kv, "ok")} ELSE {}
    [] e.op = "Q" -> IF e.fl THEN (IF IsErr(e.r) \/ ~ E THEN {s} ELSE {}) ELSE IF e.r = "ok" \/ ~ s.key \/ s.rk THEN {s} ELSE {}
    [] OTHER -> {}

Step(s, e) ==
  IF Field(e, "anomaly") \/ e.o = "anomaly" THEN {}
  ELSE CASE e.o = "init" ->
         {[s EXCEPT !.csz = e.dsz, !.dat = Snapped(e), !.key = e.kf,
                    !.kv = [KVInit EXCEPT !.made = Snapped(e), !.disk = IF Snapped(e) THEN FromSnap(e.snap) ELSE EmptyMap]]}
    [] e.o = "begin" ->
         IF e.op = "i" THEN {[s EXCEPT !.busy = "i", !.kv = k] : k \in SuccInsert(s.kv, e.k, e.v, "ok")}
         ELSE {[s EXCEPT !.busy = e.op]}
    [] e.o = "end" -> IF e.op = "i" THEN (IF e.r = "ok" THEN {[s EXCEPT !.busy = ""]} ELSE {}) ELSE EndOf(s, e)
    [] e.o = "call" -> Call(s, e)
    [] e.o = "img" ->
         LET s1 == IF Field(e, "n") THEN s ELSE [s EXCEPT !.csz = -1]   \* sizes are known in crash runs only
         IN IF s.rk
            THEN (IF (NoKey(e) /\ (On("rk") => e.keep /\ e.again = "ok" /\ ~ e.lg2 /\ IndexOK(e.snap) /\ DataMap(e.snap) = ToMap(s.kv.disk) /\ e.dsz = s.csz))
                     \/ Holds(e, s.kv.disk) THEN {s} ELSE {})
            ELSE IF Field(e, "pl") THEN (IF \E m \in s.alt \cup {s.kv.disk} : ImgOK([s1 EXCEPT !.kv.disk = m], e) THEN {s} ELSE {})
            ELSE IF ImgOK(s1, e) /\ NestOK(s1, e) THEN {s} ELSE {}
    [] OTHER -> {}

Init == t \in 1..Len(Traces) /\ i = 1 /\ S = {Init0}

Next ==
  IF i = 1 /\ Field(Traces[t], "crash")
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ S' = {} /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         R == UNION {Step(s, e) : s \in S}
     IN IF R = {} THEN PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1 /\ S' = {}
        ELSE i' = i + 1 /\ S' = R
  /\ t' = t

Spec == Init /\ [][Next]_<<t, i, S>>
=============================================================================
