--------------------------------- MODULE Lin ---------------------------------
(* Atomic insert-once cells under concurrent calls.  A configuration of a    *)
(* cell is its value (0: nothing there yet) and, for each thread with a call *)
(* in progress, the call and its result (NotYet before it takes effect).     *)
EXTENDS Integers, FiniteSets, TLC
NotYet == -2
Cell(v) == [v |-> v, p |-> << >>]
Invoke(c, t, op, v) == [c EXCEPT !.p = @ @@ (t :> [op |-> op, v |-> v, r |-> NotYet])]
\* the instant at which the call of thread t takes effect
Effect(c, t) ==
  LET o == c.p[t] IN
  IF o.op = "get" THEN [c EXCEPT !.p[t].r = c.v]
  ELSE IF c.v = 0 THEN [v |-> o.v, p |-> [c.p EXCEPT ![t].r = 1]]
  ELSE [c EXCEPT !.p[t].r = 2]
RECURSIVE Reach(_)
Reach(C) ==
  LET N == C \cup UNION {{Effect(c, t) : t \in {u \in DOMAIN c.p : c.p[u].r = NotYet}} : c \in C}
  IN IF N = C THEN C ELSE Reach(N)
Drop(c, t) == [c EXCEPT !.p = [u \in DOMAIN c.p \ {t} |-> c.p[u]]]
\* the configurations left after the call of t returned r
Return(C, t, r) == {Drop(c, t) : c \in {d \in Reach(C) : d.p[t].r = r}}
\* the configurations left after the call of t failed: it had no effect
Failing(C, t) == {Drop(c, t) : c \in {d \in Reach(C) : d.p[t].r = NotYet}}
=============================================================================
