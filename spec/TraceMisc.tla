------------------------------ MODULE TraceMisc ------------------------------
(* Decisions of the library on parameters and on files that may not belong  *)
(* together: which results are allowed and what may have changed.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Field(e, f) == f \in DOMAIN e
When(c, x) == IF c THEN {x} ELSE {}

(* ---- create ------------------------------------------------------------ *)
MinBlock == 104          \* the key file header
Capacity(bs) == (bs - 8) \div 18
BadParams(e) ==
  When(e.ks < 1 \/ e.ks > 65535, "invalid_key_size") \cup
  When(e.bs < MinBlock \/ e.bs > 65535, "invalid_block_size") \cup
  When(e.lfc # "in", "invalid_load_factor")

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
HeaderLf(m) == Max(1, Min(65535, (m * 2048) \div 31250))    \* 65536 * m / 10^6

CreateOK(e) ==
  LET bad == BadParams(e) IN
  /\ e.anomaly = "" /\ e.handles = 0
  /\ e.same                                       \* existing files are untouched
  /\ IF bad # {} THEN e.r \in bad /\ e.after = e.pre
     ELSE IF e.fl THEN e.r \notin {"ok", "exception"} /\ (~ e.ef => e.after = e.pre)
     ELSE IF e.pre # "" THEN e.r = "eexist" /\ e.after = e.pre
     ELSE /\ e.r = "ok" /\ e.after = "dkl"
          /\ ~ e.dirty                            \* durable
          /\ e.hdr /\ e.zero
          /\ e.dsz = 92 /\ e.ksz = 2 * e.bs
          /\ e.hlf - HeaderLf(e.lfm) \in {-1, 0, 1}
          /\ e.use = "ok"

(* ---- headers ----------------------------------------------------------- *)
DErr(d) ==
  IF ~ d.ex THEN {"enoent"}
  ELSE IF ~ d.full THEN {"short_read"}
  ELSE When(~ d.type, "not_data_file") \cup When(d.ver # 2, "different_version") \cup When(d.ks < 1, "invalid_key_size")

KErr(k) ==
  IF ~ k.ex THEN {"enoent"}
  ELSE IF ~ k.full THEN {"short_read"}
  ELSE When(~ k.type, "not_key_file") \cup When(k.ver # 2, "different_version") \cup When(k.ks < 1, "invalid_key_size")
       \cup When(~ k.pepok, "hash_mismatch") \cup When(k.lf < 1, "invalid_load_factor")
       \cup When(k.cap < 1, "invalid_capacity") \cup When(k.nb < 1, "invalid_bucket_count")

Same(a, b) ==
  When(a.uid # b.uid, "uid_mismatch") \cup When(a.app # b.app, "appnum_mismatch") \cup When(a.ks # b.ks, "key_size_mismatch")

LErr(l) ==
  When(~ l.type, "not_log_file") \cup When(l.ver # 2, "different_version") \cup When(l.ks < 1, "invalid_key_size")
  \cup When(~ l.pepok, "hash_mismatch")

KL(k, l) ==
  Same(k, l) \cup When(k.salt # l.salt, "salt_mismatch") \cup When(k.pep # l.pep, "pepper_mismatch")
  \cup When(k.bs # l.bs, "block_size_mismatch")

Both(d, k) == IF d.ex /\ d.full /\ k.ex /\ k.full THEN Same(d, k) ELSE {}
LogErrors == {"invalid_log_index", "invalid_log_spill", "invalid_bucket_size", "invalid_log_record"}

Untouched(e) == e.dsame /\ e.ksame

(* recover, and the recovery open begins with *)
HasLog(e) == e.l.ex /\ e.l.full
RecoverErr(e) ==
  IF ~ HasLog(e) THEN {}
  ELSE LErr(e.l) \cup (IF e.l.rekey THEN Same(e.d, e.l) ELSE KErr(e.k) \cup Both(e.d, e.k) \cup KL(e.k, e.l))

Stub(e) == e.k.ex /\ e.k.sz <= 104       \* the remains of an interrupted rekey

RecoverOK(e, open) ==
  LET D == DErr(e.d)
      R == RecoverErr(e)
      K == KErr(e.k) \cup Both(e.d, e.k)
  IN
  IF D # {} \/ ~ e.k.ex THEN e.r \in (D \cup R \cup KErr(e.k)) /\ Untouched(e)
  ELSE IF Stub(e) THEN e.r = "no_key_file" /\ e.dsame /\ ~ e.kex /\ ~ e.lex
  ELSE IF R # {} THEN e.r \in R \cup (IF open THEN K ELSE {}) /\ Untouched(e)
  ELSE IF HasLog(e) /\ e.l.rekey THEN (e.foreign \/ e.dA) /\ ~ e.kex /\ ~ e.lex /\ e.r = (IF open THEN "enoent" ELSE "ok")
  ELSE IF HasLog(e) /\ e.badlog THEN e.r \in LogErrors /\ e.dsame
  ELSE IF HasLog(e) THEN (e.foreign \/ (e.dA /\ e.kA /\ ~ e.lex /\ e.r = "ok"))
  ELSE IF K # {} THEN Untouched(e) /\ (IF open THEN e.r \in K ELSE e.r \in K \cup {"ok"})
  ELSE e.r = "ok" /\ Untouched(e) /\ ~ e.lex

TryOK(e) ==
  /\ e.anomaly = "" /\ e.handles = 0 /\ e.r # "exception" /\ (e.foreign \/ e.got)
  /\ CASE e.op = "open" -> RecoverOK(e, TRUE)
       [] e.op = "recover" -> RecoverOK(e, FALSE)
       [] e.op = "verify" ->
            LET C == DErr(e.d) \cup KErr(e.k) \cup Both(e.d, e.k) IN
            IF C # {} THEN e.r \in C ELSE IF e.k.tail # 0 THEN e.r # "ok" ELSE (e.log = "none" => (e.foreign \/ e.r = "ok"))
       [] e.op = "visit" -> IF DErr(e.d) # {} THEN e.r \in DErr(e.d) ELSE e.r = "ok"
       [] e.op = "rekey" ->
            LET C == DErr(e.d) \cup When(e.l.ex, "log_file_exists") \cup When(e.k.ex, "eexist") IN
            IF C # {} THEN e.r \in C /\ Untouched(e) /\ (e.l.ex <=> e.lex) ELSE e.foreign \/ (e.r = "ok" /\ ~ e.lex /\ e.kex)
       [] OTHER -> FALSE

Accept(e) == CASE e.o = "create" -> CreateOK(e) [] e.o = "try" -> TryOK(e) [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ i = 1
Next ==
  IF i = 1 /\ Field(Traces[t], "crash")
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ IF Accept(Traces[t].ev[i]) THEN i' = i + 1 ELSE PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
