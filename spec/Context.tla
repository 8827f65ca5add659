------------------------------- MODULE Context -------------------------------
(* Design of the context: the lists of stores waiting and being flushed, a   *)
(* timer thread, further threads that entered run(), and clients that insert *)
(* into, close and reopen stores, flush by hand and stop everything.  One    *)
(* step of the model per section of code that holds the context's mutex.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS STORES,
          RUNNERS,        \* threads that enter run() besides the timer thread
          CLIENTS,        \* each owns the stores given by OWNER
          OPS,            \* operations of each client
          STOPPER,        \* TRUE: a thread stops (and starts again) everything once
          PATIENT,        \* ticks come slowly (needed for what must end; without it for the invariants)
          BUG             \* "none", or a deliberate mistake

VARIABLES
  waiting, flushing,      \* lists of stores
  st,                     \* store -> "none" | "waiting" | "flushing" | "inter"
  open, dirty,            \* what the client sees; values not yet committed
  stop, num,              \* of the context
  first,                  \* the threads that found no other in run(): they tick once a second
  pc,                     \* thread -> program counter
  arg,                    \* thread -> the store it works on
  left,                   \* client -> operations left
  sleepW,                 \* threads sleeping on the condition "a store changed its state / a thread ended"
  sleepF,                 \* threads sleeping on the condition "there is something to flush"
  stopped                 \* stop_all was called, and how it ends
vars == <<waiting, flushing, st, open, dirty, stop, num, first, pc, arg, left, sleepW, sleepF, stopped>>

T == "timer"
Workers == {T} \cup RUNNERS
Threads == Workers \cup CLIENTS \cup {"stopper"}
OWNER == [s \in STORES |-> CHOOSE c \in CLIENTS : TRUE]
NoStore == "-"
Has(l, s) == \E j \in 1..Len(l) : l[j] = s
Without(l, s) == SelectSeq(l, LAMBDA x : x # s)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Init ==
  /\ waiting = SeqOf(STORES) /\ flushing = <<>>
  /\ st = [s \in STORES |-> "waiting"] /\ open = [s \in STORES |-> TRUE] /\ dirty = [s \in STORES |-> FALSE]
  /\ stop = FALSE /\ num = 0 /\ first = {}
  /\ pc = [t \in Threads |-> IF t \in Workers THEN "enter" ELSE "idle"]
  /\ arg = [t \in Threads |-> NoStore]
  /\ left = [c \in CLIENTS |-> OPS]
  /\ sleepW = {} /\ sleepF = {}
  /\ stopped = "no"

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Splice(l) == [s \in STORES |-> IF Has(waiting, s) /\ BUG # "oldstate" THEN "flushing" ELSE st[s]]

(* ----------------------------------------------------- threads in run() --- *)
Enter(t) ==
  /\ pc[t] = "enter"
  /\ num' = num + 1
  /\ first' = (IF num = 0 \/ (BUG = "twofirst" /\ t = T) THEN first \cup {t} ELSE IF BUG = "nofirst" /\ t # T THEN first \cup {t} ELSE first)
  /\ Go(t, "loop")
  /\ UNCHANGED <<waiting, flushing, st, open, dirty, stop, arg, left, sleepW, sleepF, stopped>>
Loop(t) ==
  /\ pc[t] = "loop"
  /\ IF stop THEN Go(t, "exit") /\ UNCHANGED sleepF
     ELSE IF t \notin first /\ flushing # <<>> THEN Go(t, "take") /\ UNCHANGED sleepF
     ELSE Go(t, "wait") /\ sleepF' = sleepF \cup {t}
  /\ UNCHANGED <<first, waiting, flushing, st, open, dirty, stop, num, arg, left, sleepW, stopped>>
\* The ticking thread's wait ends by itself, both end by notification.  A tick
\* takes a second: it does not come while a woken thread has not yet run.
WakeF(t) ==
  /\ pc[t] = "wait" /\ (t \notin sleepF \/ t \in first)
  /\ IF t \notin first
     THEN IF stop THEN Go(t, "exit") /\ UNCHANGED <<waiting, flushing, st, sleepF>>
          ELSE IF flushing # <<>> THEN Go(t, "take") /\ UNCHANGED <<waiting, flushing, st, sleepF>>
          ELSE sleepF' = sleepF \cup {t} /\ UNCHANGED <<pc, waiting, flushing, st>>
     ELSE IF stop THEN Go(t, "exit") /\ sleepF' = sleepF \ {t} /\ UNCHANGED <<waiting, flushing, st>>
     ELSE LET f == flushing \o waiting IN
          /\ PATIENT => \A c \in CLIENTS : pc[c] = "asleep" => c \in sleepW
          /\ st' = Splice(waiting)
          /\ flushing' = f /\ waiting' = <<>>
          /\ IF f = <<>> THEN Go(t, "loop") /\ sleepF' = sleepF \ {t}
             ELSE IF num > 1 THEN Go(t, "loop") /\ sleepF' = (IF BUG = "nokick" THEN sleepF \ {t} ELSE {})
             ELSE Go(t, "take") /\ sleepF' = sleepF \ {t}
  /\ UNCHANGED <<first, open, dirty, stop, num, arg, left, sleepW, stopped>>
Take(t) ==
  /\ pc[t] = "take"
  /\ IF flushing = <<>> THEN Go(t, IF t \in Workers THEN "loop" ELSE "idle") /\ UNCHANGED <<flushing, st, arg>>
     ELSE LET s == Head(flushing) IN
          /\ st' = (IF BUG = "noinner" THEN st ELSE [st EXCEPT ![s] = "inter"])
          /\ flushing' = (IF BUG = "keep" THEN flushing ELSE Tail(flushing))
          /\ arg' = [arg EXCEPT ![t] = s]
          /\ Go(t, "commit")
  /\ UNCHANGED <<first, waiting, open, dirty, stop, num, left, sleepW, sleepF, stopped>>
CommitIt(t) ==
  /\ pc[t] = "commit"
  /\ dirty' = [dirty EXCEPT ![arg[t]] = FALSE]
  /\ Go(t, "back")
  /\ UNCHANGED <<first, waiting, flushing, st, open, stop, num, arg, left, sleepW, sleepF, stopped>>
Back(t) ==
  /\ pc[t] = "back"
  /\ st' = [st EXCEPT ![arg[t]] = "waiting"]
  /\ waiting' = Append(waiting, arg[t])
  /\ sleepW' = (IF BUG = "noback" THEN sleepW ELSE {})
  /\ arg' = [arg EXCEPT ![t] = NoStore]
  /\ Go(t, "take")
  /\ UNCHANGED <<first, flushing, open, dirty, stop, num, left, sleepF, stopped>>
Exit(t) ==
  /\ pc[t] = "exit"
  /\ num' = num - 1
  /\ first' = first \ {t}
  /\ sleepW' = (IF BUG = "noexit" THEN sleepW ELSE {})
  /\ Go(t, "end")
  /\ UNCHANGED <<waiting, flushing, st, open, dirty, stop, arg, left, sleepF, stopped>>
Worker(t) == Enter(t) \/ Loop(t) \/ WakeF(t) \/ Take(t) \/ CommitIt(t) \/ Back(t) \/ Exit(t)

(* -------------------------------------------------------------- clients --- *)
Insert(c) ==
  /\ pc[c] = "idle" /\ left[c] > 0
  /\ \E s \in STORES : OWNER[s] = c /\ open[s] /\ dirty' = [dirty EXCEPT ![s] = TRUE]
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED <<first, waiting, flushing, st, open, stop, num, pc, arg, sleepW, sleepF, stopped>>
\* open: the store enters the list of those waiting
Reopen(c) ==
  /\ pc[c] = "idle" /\ left[c] > 0
  /\ \E s \in STORES : OWNER[s] = c /\ ~ open[s]
       /\ open' = [open EXCEPT ![s] = TRUE]
       /\ st' = [st EXCEPT ![s] = "waiting"] /\ waiting' = Append(waiting, s)
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ sleepW' = {}
  /\ UNCHANGED <<first, flushing, dirty, stop, num, pc, arg, sleepF, stopped>>
Close(c) ==
  /\ pc[c] = "idle" /\ left[c] > 0
  /\ \E s \in STORES : OWNER[s] = c /\ open[s]
       /\ open' = [open EXCEPT ![s] = FALSE] /\ arg' = [arg EXCEPT ![c] = s]
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ Go(c, "erase")
  /\ UNCHANGED <<first, waiting, flushing, st, dirty, stop, num, sleepW, sleepF, stopped>>
\* erase: out of whichever list it is in; while a thread has it, wait
Unlink(c, s) ==
  CASE st[s] = "waiting" -> waiting' = Without(waiting, s) /\ flushing' = flushing /\ sleepW' = {}
    [] st[s] = "flushing" -> waiting' = waiting /\ flushing' = Without(flushing, s) /\ UNCHANGED sleepW
    [] OTHER -> UNCHANGED <<waiting, flushing, sleepW>>
Erase(c) ==
  /\ pc[c] = "erase"
  /\ LET s == arg[c] IN
     IF st[s] = "inter" /\ BUG # "nowait"
     THEN sleepW' = sleepW \cup {c} /\ Go(c, "asleep") /\ UNCHANGED <<waiting, flushing, st>>
     ELSE Unlink(c, s) /\ st' = [st EXCEPT ![s] = "none"] /\ Go(c, "last")
  /\ UNCHANGED <<first, open, dirty, stop, num, arg, left, sleepF, stopped>>
EraseAwake(c) ==
  /\ pc[c] = "asleep" /\ c \notin sleepW
  /\ LET s == arg[c] IN
     IF st[s] = "inter"
     THEN sleepW' = sleepW \cup {c} /\ UNCHANGED <<pc, waiting, flushing, st>>
     ELSE IF BUG = "noflushing" /\ st[s] = "flushing"
     THEN st' = [st EXCEPT ![s] = "none"] /\ Go(c, "last") /\ UNCHANGED <<waiting, flushing, sleepW>>
     ELSE Unlink(c, s) /\ st' = [st EXCEPT ![s] = "none"] /\ Go(c, "last")
  /\ UNCHANGED <<first, open, dirty, stop, num, arg, left, sleepF, stopped>>
\* what is left is committed by the client itself
Last(c) ==
  /\ pc[c] = "last"
  /\ dirty' = [dirty EXCEPT ![arg[c]] = FALSE]
  /\ arg' = [arg EXCEPT ![c] = NoStore]
  /\ Go(c, "idle")
  /\ UNCHANGED <<first, waiting, flushing, st, open, stop, num, left, sleepW, sleepF, stopped>>
\* flush by hand: only when no thread runs
Flush(c) ==
  /\ pc[c] = "idle" /\ left[c] > 0
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ IF stop \/ num > 0 THEN UNCHANGED <<waiting, flushing, st, pc>>
     ELSE st' = Splice(waiting) /\ flushing' = flushing \o waiting /\ waiting' = <<>> /\ Go(c, "take")
  /\ UNCHANGED <<first, open, dirty, stop, num, arg, sleepW, sleepF, stopped>>
Client(c) == Insert(c) \/ Reopen(c) \/ Close(c) \/ Erase(c) \/ EraseAwake(c) \/ Last(c) \/ Flush(c) \/ Take(c) \/ CommitIt(c) \/ Back(c)
\* what a client must finish once begun
Finishing(c) == Erase(c) \/ EraseAwake(c) \/ Last(c) \/ Take(c) \/ CommitIt(c) \/ Back(c)

(* ---------------------------------------------------------------- stop ---- *)
StopBegin ==
  /\ STOPPER /\ stopped = "no" /\ ~ \E t \in RUNNERS : pc[t] = "enter"
  /\ stop' = TRUE /\ sleepF' = (IF BUG = "nostopkick" THEN sleepF ELSE {})
  /\ stopped' = "begun"
  /\ sleepW' = {}
  /\ UNCHANGED <<first, waiting, flushing, st, open, dirty, num, pc, arg, left>>
StopSleep ==
  /\ stopped = "begun" /\ num > 0 /\ "stopper" \notin sleepW /\ BUG # "noquiesce"
  /\ sleepW' = sleepW \cup {"stopper"}
  /\ UNCHANGED <<first, waiting, flushing, st, open, dirty, stop, num, pc, arg, left, sleepF, stopped>>
\* nobody is left: the timer thread, should it not even have begun, is waited for
StopJoin ==
  /\ stopped = "begun" /\ (num = 0 \/ BUG = "noquiesce") /\ "stopper" \notin sleepW
  /\ stopped' = "join"
  /\ stop' = (IF BUG = "earlyoff" THEN FALSE ELSE stop)
  /\ UNCHANGED <<first, waiting, flushing, st, open, dirty, num, pc, arg, left, sleepW, sleepF>>
StopEnd ==
  /\ stopped = "join" /\ pc[T] = "end"
  /\ stop' = (IF BUG = "staysoff" THEN stop ELSE FALSE)
  /\ stopped' = "done"
  /\ UNCHANGED <<first, waiting, flushing, st, open, dirty, num, pc, arg, left, sleepW, sleepF>>
\* everything is started again
Restart ==
  /\ stopped = "done"
  /\ stopped' = "again"
  /\ pc' = [t \in Threads |-> IF t \in Workers THEN "enter" ELSE pc[t]]
  /\ UNCHANGED <<first, waiting, flushing, st, open, dirty, stop, num, arg, left, sleepW, sleepF>>
Stopper == StopBegin \/ StopSleep \/ StopJoin \/ StopEnd \/ Restart

Next == (\E t \in Workers : Worker(t)) \/ (\E c \in CLIENTS : Client(c)) \/ Stopper
Fair == /\ \A t \in Workers : WF_vars(Worker(t))
        /\ \A c \in CLIENTS : WF_vars(Finishing(c))
        /\ WF_vars(StopSleep \/ StopJoin \/ StopEnd \/ Restart)
Spec == Init /\ [][Next]_vars /\ Fair

(* ---------------------------------------------------------- properties ---- *)
Users(s) == {t \in Threads : arg[t] = s /\ pc[t] \in {"commit", "back", "last"}}
OneUser == \A s \in STORES : Cardinality(Users(s)) <= 1
Closed(s) == ~ open[s] /\ ~ \E c \in CLIENTS : arg[c] = s
Quiet == \A s \in STORES : Closed(s) => Users(s) = {} /\ ~ Has(waiting, s) /\ ~ Has(flushing, s) /\ ~ dirty[s]
Lists == \A s \in STORES :
  /\ Cardinality({j \in 1..Len(waiting) : waiting[j] = s}) = (IF st[s] = "waiting" THEN 1 ELSE 0)
  /\ Cardinality({j \in 1..Len(flushing) : flushing[j] = s}) = (IF st[s] = "flushing" THEN 1 ELSE 0)
  /\ (st[s] = "inter") <=> \E t \in Threads : arg[t] = s /\ pc[t] \in {"commit", "back"}
StopQuiet == stopped = "done" => \A t \in Workers : pc[t] = "end"
\* whatever is inserted is committed in the end
Commits == \A s \in STORES : dirty[s] ~> ~ dirty[s]
CloseEnds == \A c \in CLIENTS : (pc[c] \in {"erase", "asleep", "last"}) ~> (pc[c] = "idle")
StopEnds == (stopped = "begun") ~> (stopped = "done")
=============================================================================
