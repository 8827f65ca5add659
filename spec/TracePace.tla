----------------------------- MODULE TracePace -----------------------------
(* Writers are slowed down only when they outrun the disk, and the memory a *)
(* store uses follows what is pending.  Times in ms, rates in bytes per ms. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, S
vars == <<t, i, S>>
Field(e, f) == f \in DOMAIN e
INF == 2000000000
Max(a, b) == IF a > b THEN a ELSE b

(* pend, n: bytes and number of the values inserted since the last commit   *)
(* when: the time the measuring of their rate began                         *)
(* rate: what commits are known to achieve: <<>> unknown, or <<low, high>>  *)
(* held, most: memory the pending values account for, and its maximum       *)
(* base, before: memory after open, before open                             *)
Init0 == [open |-> FALSE, burst |-> 4194304, pend |-> 0, n |-> 0, when |-> 0, rate |-> << >>,
          held |-> 0, most |-> 0, base |-> 0, before |-> 0, ks |-> 1, bs |-> 104]

(* the work pending: each key costs three blocks                            *)
Work(s) == s.pend + 3 * s.n * s.bs

Slack(s) == 8192 + 4 * s.bs
MemOK(s, live) == live <= s.base + Slack(s) + s.held + (IF s.n > 0 THEN s.most ELSE 0)

(* how long the work took a writer, against what a commit needs for it      *)
Over(r, s, el) ==
  LET w == Work(s)
      a == IF el = 0 THEN INF ELSE w \div el           \* a <= rate < a + 1
      b == IF el = 0 THEN INF ELSE a + 1
      m(x) == x \div 64 + 2
  IN IF r = << >> \/ w <= s.burst THEN {FALSE}
     ELSE IF b <= r[1] - m(r[1]) THEN {FALSE}
     ELSE IF a > r[2] + m(r[2]) THEN {TRUE}
     ELSE {FALSE, TRUE}

(* the commit of what is pending, from t0 to t1                             *)
Rates(s, el) ==
  LET lo == s.pend + 3 * s.bs
      hi == s.pend + 7 * s.n * s.bs
      new == IF el = 0 THEN <<INF, INF>> ELSE <<lo \div el, hi \div el + 1>>
  IN IF s.n = 0 \/ hi <= s.burst THEN {s.rate}
     ELSE IF lo > s.burst THEN {new}
     ELSE {s.rate, new}

Cell(s, n) == 2 * (s.ks + n) + 512         \* what one pending value may occupy

Step(s, e) ==
  CASE e.o = "open" ->
         IF e.r = "ok" /\ e.live <= e.before + 65536 + 4 * e.bs
         THEN {[Init0 EXCEPT !.open = TRUE, !.when = e.t, !.base = e.live, !.before = e.before, !.bs = e.bs, !.ks = e.ks]} ELSE {}
    [] e.o = "burst" -> {[s EXCEPT !.burst = e.n]}
    [] e.o = "insert" ->
         LET u == [s EXCEPT !.pend = @ + e.n, !.n = @ + 1, !.held = @ + Cell(s, e.n), !.most = Max(@, s.held + Cell(s, e.n))]
             late == Over(u.rate, u, e.t - s.when)
         IN IF /\ e.r = "ok" /\ e.calls
               /\ IF e.sl = 0 THEN FALSE \in late ELSE TRUE \in late /\ e.sl <= 1000
               /\ (~ e.mid => MemOK(u, e.live))
            THEN {u} ELSE {}
    [] e.o = "again" -> IF e.r = "exists" /\ e.sl = 0 /\ MemOK(s, e.live) THEN {s} ELSE {}
    [] e.o = "fetch" -> IF e.ok /\ e.sl = 0 /\ MemOK(s, e.live) THEN {s} ELSE {}
    [] e.o = "flush" ->
         LET u == [s EXCEPT !.pend = 0, !.n = 0, !.held = 0] IN
         IF e.sl # 0 \/ ~ MemOK(u, e.live) THEN {}
         ELSE {[u EXCEPT !.when = e.t0, !.rate = r] : r \in Rates(s, e.t - e.t0)}
              (* nothing was pending: the measurement may go on *)
              \cup (IF s.n = 0 THEN {s} ELSE {})
    [] e.o = "close" -> IF e.r = "ok" /\ e.live <= s.before + 256 THEN {Init0} ELSE {}
    [] OTHER -> {}

Init == t \in 1..Len(Traces) /\ i = 1 /\ S = {Init0}
Next ==
  IF i = 1 /\ Field(Traces[t], "crash")
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ S' = {} /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i]
         R == UNION {Step(s, e) : s \in S}
     IN IF R = {} THEN PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1 /\ S' = {}
        ELSE i' = i + 1 /\ S' = R
  /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
