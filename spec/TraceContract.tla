--------------------------- MODULE TraceContract ---------------------------
(* What a user supplies - File, Hasher, Progress, callbacks - is used only  *)
(* as its documentation allows.  H is what the specification knows of the   *)
(* File objects: H[id] = [m, p] for those which are open.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, S
vars == <<t, i, S>>
Field(e, f) == f \in DOMAIN e

NoFiles == [x \in {} |-> 0]
Init0 == [f |-> "", H |-> NoFiles, pos |-> NoFiles]

Drop(H, id) == [x \in DOMAIN H \ {id} |-> H[x]]
Put(H, id, v) == [x \in DOMAIN H \cup {id} |-> IF x = id THEN v ELSE H[x]]
Paths == {"d", "k", "l"}
OpenAt(H, p) == {x \in DOMAIN H : H[x].p = p}

(* the functions which leave no file open, whatever becomes of them (close: *)
(* if it succeeds)                                                          *)
Leaves == {"create", "close", "recover", "rekey", "verify", "visit"}
(* the ones which may change a file                                         *)
Changes == {"create", "open", "insert", "flush", "close", "recover", "rekey"}

FileOp(s, e) ==
  IF e.h \notin DOMAIN s.H THEN e.c = "close"
  ELSE LET m == s.H[e.h].m IN
       CASE e.c \in {"write", "trunc"} ->
              /\ m \in {"a", "w"} /\ s.f \in Changes
              /\ (e.c = "write" /\ m = "a" => e.off = e.sz)
         [] e.c = "read" -> m = "s" => e.off >= s.pos[e.h]
         [] OTHER -> TRUE

(* amounts of work done: from nothing, never less, never more than all, and *)
(* all stays the same                                                       *)
Work(e) ==
  LET n == Len(e.pr) IN
  /\ e.mono
  /\ n > 0 => e.pr[1][1] = 0
  /\ \A k \in 1..n : /\ e.pr[k][1] >= 0 /\ e.pr[k][1] <= e.pr[k][2]
                     /\ (k > 1 => /\ e.pr[k][2] = e.pr[1][2] /\ e.pr[k][1] >= e.pr[k - 1][1])
  /\ (e.f \in {"rekey", "verify", "visit"} /\ e.r = "ok" => n > 0)
  /\ (e.f = "visit" /\ e.r = "ok" /\ e.cb > 0 => e.pr[n][1] = e.pr[n][2])

Callback(e) ==
  /\ e.cbok
  /\ CASE e.f = "fetch" -> e.cb = (IF e.r = "ok" THEN 1 ELSE 0)
       [] e.f = "visit" /\ e.want >= 0 ->
            /\ e.cb <= e.want
            /\ (e.cb = e.want) = (e.r = "too_many_buckets")
       [] e.f = "visit" -> TRUE
       [] OTHER -> e.cb = 0

Step(s, e) ==
  CASE e.o = "call" -> {[s EXCEPT !.f = e.f]}
    [] e.o = "new" -> IF e.args /\ e.h \notin DOMAIN s.H THEN {s} ELSE {}
    [] e.o = "open" ->
         IF e.h \notin DOMAIN s.H /\ e.p \in Paths /\ s.f \notin {"fetch", "insert"}
         THEN {IF e.ok THEN [s EXCEPT !.H = Put(@, e.h, [m |-> e.m, p |-> e.p]), !.pos = Put(@, e.h, 0)] ELSE s}
         ELSE {}
    [] e.o = "erase" ->
         IF /\ e.p \in Paths /\ OpenAt(s.H, e.p) = {}
            /\ CASE e.p = "d" -> s.f = "create"
                 [] e.p = "k" -> s.f \in {"create", "open", "recover", "rekey"}
                 [] OTHER -> s.f \in Changes
         THEN {s} ELSE {}
    [] e.o = "F" ->
         IF ~ FileOp(s, e) THEN {}
         ELSE IF e.c \in {"close", "del"} THEN {[s EXCEPT !.H = Drop(@, e.h), !.pos = Drop(@, e.h)]}
         ELSE IF e.c = "read" THEN {[s EXCEPT !.pos[e.h] = e.off + e.n]}
         ELSE {s}
    [] e.o = "ret" ->
         IF /\ e.anomaly = "" /\ e.hs /\ e.hl /\ e.hd
            /\ Work(e) /\ Callback(e)
            /\ (e.f \in Leaves /\ ~ (e.f = "close" /\ e.r # "ok") => DOMAIN s.H = {})
            /\ (e.f = "open" => IF e.r = "ok" THEN \A p \in Paths : Cardinality(OpenAt(s.H, p)) = 1 ELSE DOMAIN s.H = {})
         THEN {[s EXCEPT !.f = ""]} ELSE {}
    [] e.o = "kill" -> {Init0}
    [] OTHER -> {}

Init == t \in 1..Len(Traces) /\ i = 1 /\ S = {Init0}
Next ==
  IF i = 1 /\ Field(Traces[t], "crash")
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ S' = {} /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         R == UNION {Step(s, e) : s \in S}
     IN IF R = {} THEN PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1 /\ S' = {}
        ELSE i' = i + 1 /\ S' = R
  /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
