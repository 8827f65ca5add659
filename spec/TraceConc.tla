------------------------------ MODULE TraceConc ------------------------------
(* Recorded executions of several threads on stores and a context, against   *)
(* the atomic cells of Lin and the rules of the context: one flusher at a    *)
(* time, nobody on a closed store, nobody after a stop, everything committed *)
(* within three periods, no waiting for commit I/O, no deadlock, no race.    *)
EXTENDS Lin, Sequences, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
Aspects == {IOEnv.A1, IOEnv.A2, IOEnv.A3, IOEnv.A4}
VARIABLES t, i, cell, call, cx

Field(e, f) == f \in DOMAIN e
Stores(tr) == 0..(tr.nst - 1)
None == -1000

CellAt(tr, f, s, k) == IF <<s, k>> \in DOMAIN f THEN f[<<s, k>>]
                       ELSE {Cell(IF k >= 100 /\ k < 100 + tr.pre THEN k ELSE 0)}
Put(f, x, y) == (x :> y) @@ f

Init ==
  /\ t \in 1..Len(Traces) /\ i = 1
  /\ cell = << >> /\ call = << >>
  /\ cx = [started |-> FALSE, runs |-> 0, stopping |-> FALSE, stopped |-> FALSE, flushers |-> 0,
           w |-> [s \in Stores(Traces[t]) |-> None],
           acked |-> [s \in Stores(Traces[t]) |-> {}],
           flushed |-> [s \in Stores(Traces[t]) |-> {}],
           due |-> << >>,
           own |-> {},                                 \* threads whose call met a failing file operation
           bad |-> {}, sure |-> {},                    \* stores a commit of which has failed; and has returned
           com |-> [s \in Stores(Traces[t]) |-> {}],   \* keys known to be committed
           before |-> << >>,                           \* keys that were stored before a key was
           pres |-> {}, abs |-> {}]
Running == (cx.started \/ cx.runs > 0) /\ ~ cx.stopping

On(a) == a \in Aspects
IsOp(c) == c \in {"ins", "get"}
\* an event is acceptable
Ok(tr, e) ==
  CASE e.o = "inv" -> TRUE
    [] e.o = "ret" ->
         LET o == call[e.t] IN
         IF IsOp(o.c)
         THEN IF e.r = -1 /\ On("flt")
              THEN /\ e.t \in cx.own \/ o.s \in cx.bad
                   /\ Failing(CellAt(tr, cell, o.s, o.k), e.t) # {}
              ELSE /\ e.t \notin cx.own /\ ~ o.must
                   /\ "lin" \notin Aspects \/ Return(CellAt(tr, cell, o.s, o.k), e.t, e.r) # {}
         ELSE /\ e.r = (IF (o.c = "close" /\ o.s \in cx.bad) \/ (o.c = "open" /\ e.t \in cx.own) THEN -1 ELSE 0)
              /\ (o.c = "idle" /\ "ctx" \in Aspects) => cx.due[e.t] \subseteq {e.keys[j] : j \in 1..Len(e.keys)}
    [] e.o = "io" ->
         "ctx" \in Aspects =>
           /\ e.k # "late"
           /\ cx.w[e.s] \in {None, e.t}
           /\ e.t < 0 => ~ cx.stopped
    [] e.o = "fin" ->
         "lin" \in Aspects =>
           /\ \E c \in CellAt(tr, cell, e.s, e.k) : c.v = e.v
           /\ e.n = (IF e.v = 0 THEN 0 ELSE 1)
           \* a commit takes everything stored before any of it
           /\ e.v # 0 /\ <<e.s, e.k>> \in DOMAIN cx.before => {<<e.s, x>> : x \in cx.before[<<e.s, e.k>>]} \cap cx.abs = {}
           /\ e.v = 0 => \A p \in cx.pres : p[1] = e.s /\ p \in DOMAIN cx.before => e.k \notin cx.before[p]
    [] e.o \in {"hold", "fault", "com"} -> TRUE
    [] e.o = "stuck" ->
         "prog" \in Aspects =>
           /\ Len(e.in) = 0
           /\ (e.h = "k" /\ e.x) => e.dw > 0 /\ e.lw > 0
    [] OTHER -> FALSE        \* dead, race, anomaly

Cells(tr, e) ==
  IF e.o = "inv" /\ IsOp(e.c) THEN Put(cell, <<e.s, e.k>>, {Invoke(c, e.t, e.c, e.v) : c \in CellAt(tr, cell, e.s, e.k)})
  ELSE IF e.o = "ret" /\ IsOp(call[e.t].c)
  THEN LET o == call[e.t] IN
       Put(cell, <<o.s, o.k>>, IF e.r = -1 THEN Failing(CellAt(tr, cell, o.s, o.k), e.t) ELSE Return(CellAt(tr, cell, o.s, o.k), e.t, e.r))
  \* what a failed commit had not finished may be gone
  ELSE IF e.o = "ret" /\ call[e.t].c = "close" /\ call[e.t].s \in cx.bad
  THEN [x \in DOMAIN cell |-> IF x[1] = call[e.t].s /\ x[2] \notin cx.com[x[1]] /\ x[2] < 100
                              THEN cell[x] \cup {[c EXCEPT !.v = 0] : c \in cell[x]} ELSE cell[x]]
  ELSE cell
Calls(e) == IF e.o = "inv" THEN Put(call, e.t, [c |-> e.c, s |-> e.s, k |-> e.k, v |-> e.v, snap |-> cx.acked, must |-> e.s \in cx.sure, solo |-> cx.flushers = 0]) ELSE call

Context(tr, e) ==
  CASE e.o = "inv" ->
       (CASE e.c = "start" -> [cx EXCEPT !.stopped = FALSE]
          [] e.c = "run" -> [cx EXCEPT !.stopped = FALSE, !.runs = @ + 1]
          [] e.c = "stop" -> [cx EXCEPT !.stopping = TRUE, !.due = [u \in DOMAIN @ |-> {}]]
          [] e.c = "flush" -> [cx EXCEPT !.flushers = @ + 1]
          [] e.c = "idle" -> [cx EXCEPT !.due = Put(@, e.t, IF e.v >= 3000 /\ Running THEN cx.acked[e.s] ELSE cx.flushed[e.s])]
          [] OTHER -> cx)
    [] e.o = "ret" ->
       (LET o == call[e.t] IN
        CASE o.c = "start" -> [cx EXCEPT !.started = TRUE]
          [] o.c = "stop" -> [cx EXCEPT !.started = FALSE, !.runs = 0, !.stopping = FALSE, !.stopped = TRUE]
          [] o.c = "ins" /\ e.r = 1 -> [cx EXCEPT !.acked[o.s] = @ \cup {o.k}, !.before = Put(@, <<o.s, o.k>>, o.snap[o.s])]
          [] IsOp(o.c) -> [cx EXCEPT !.own = @ \ {e.t}]
          [] o.c = "open" -> [cx EXCEPT !.own = @ \ {e.t}, !.bad = @ \ {o.s}, !.sure = @ \ {o.s}]
          [] o.c = "close" /\ o.s \in cx.bad -> [cx EXCEPT !.acked[o.s] = cx.com[o.s], !.flushed[o.s] = cx.com[o.s]]
          [] o.c = "flush" -> [cx EXCEPT !.flushers = @ - 1, !.sure = IF cx.flushers = 1 /\ ~ Running THEN cx.bad ELSE @,
                                 !.flushed = IF o.solo /\ cx.flushers = 1 /\ ~ Running /\ ~ cx.stopping THEN o.snap ELSE @]
          [] o.c = "close" -> [cx EXCEPT !.flushed[o.s] = cx.acked[o.s]]
          [] OTHER -> cx)
    [] e.o = "fault" -> IF e.t \in DOMAIN call /\ call[e.t].c \in {"ins", "get", "open"}
                        THEN [cx EXCEPT !.own = @ \cup {e.t}] ELSE [cx EXCEPT !.bad = @ \cup {e.s}]
    [] e.o = "com" -> [cx EXCEPT !.com[e.s] = {e.keys[j] : j \in 1..Len(e.keys)}]
    [] e.o = "fin" -> IF e.v = 0 THEN [cx EXCEPT !.abs = @ \cup {<<e.s, e.k>>}] ELSE [cx EXCEPT !.pres = @ \cup {<<e.s, e.k>>}]
    [] e.o = "io" -> IF e.k = "late" THEN cx ELSE [cx EXCEPT !.w[e.s] = IF e.k = "end" THEN None ELSE e.t]
    [] OTHER -> cx

Next ==
  LET tr == Traces[t] IN
  IF i = 1 /\ Field(tr, "crash")
  THEN PrintT(<<"REJECT", tr.id, 0>>) /\ i' = -1 /\ UNCHANGED <<t, cell, call, cx>>
  ELSE
  /\ i > 0 /\ i <= Len(tr.ev)
  /\ LET e == tr.ev[i] IN
     IF Ok(tr, e)
     THEN i' = i + 1 /\ cell' = Cells(tr, e) /\ call' = Calls(e) /\ cx' = Context(tr, e) /\ t' = t
     ELSE PrintT(<<"REJECT", tr.id, i>>) /\ i' = -1 /\ UNCHANGED <<t, cell, call, cx>>
Spec == Init /\ [][Next]_<<t, i, cell, call, cx>>
=============================================================================
