-------------------------------- MODULE Conc --------------------------------
(* Design of the concurrency of one store, at the granularity of its locks:  *)
(* m (shared by readers, exclusive for swaps and publication), u (serializes *)
(* inserts) and the generation lock that keeps a commit from rewriting the   *)
(* key file while readers of the previous generation may still read it.      *)
(*                                                                           *)
(* Every call is checked against an abstract set of stored keys (an insert   *)
(* takes effect when the key enters the pending set): a fetch that misses a  *)
(* key stored before the call began, an insert that accepts a stored key or  *)
(* refuses a new one, and a read of a bucket while it is rewritten are       *)
(* errors.  Calls never wait for the file operations of a commit.            *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS KEYS, HASHES,    \* the number of different hashes
          READERS, WRITERS,\* threads that fetch, and that insert; each makes CALLS calls
          CALLS, NB0, COMMITS,
          BUG              \* "none", or a deliberate mistake

VARIABLES
  p1, p0,        \* keys pending, and keys being committed
  kf,            \* key file: bucket -> keys found through it
  c1,            \* published buckets of the commit in progress
  nb, nbf,       \* buckets as readers count them; in the key file
  wr,            \* the bucket of the key file that is being rewritten, or -1
  m,             \* holders of m: a set of readers, or {"C"} or {writer} exclusively
  mx,            \* m is held exclusively
  u,             \* holder of u, or "-"
  gen, cur, prev,
  th,            \* thread -> what it does
  cm,            \* the committer
  stored,        \* abstract state
  bad            \* errors seen
vars == <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, th, cm, stored, bad>>

Threads == READERS \cup WRITERS
None == [x \in {} |-> {}]
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)
Home(k, n) == LET q == Pow2(n) b == (k % HASHES) % q IN IF b >= n THEN b - q \div 2 ELSE b

Idle == [pc |-> "idle", k |-> 0, was |-> FALSE, n |-> 0, g |-> 0, left |-> CALLS, hit |-> FALSE]

Init ==
  /\ p1 = {} /\ p0 = {} /\ c1 = None /\ nb = NB0 /\ nbf = NB0 /\ wr = -1
  /\ kf = [b \in 0..NB0 - 1 |-> {}]
  /\ m = {} /\ mx = FALSE /\ u = "-" /\ gen = 0 /\ cur = 0 /\ prev = 0
  /\ th = [t \in Threads |-> Idle]
  /\ cm = [pc |-> "idle", left |-> COMMITS, todo |-> {}, new |-> None, nb |-> NB0]
  /\ stored = {} /\ bad = {}

CanShare == ~ mx
CanExcl == m = {}
UnlockM(t) == m' = m \ {t} /\ mx' = FALSE

(* ------------------------------------------------------------- clients --- *)
\* begin a call: fetch or insert of some key
Begin(t) ==
  /\ th[t].pc = "idle" /\ th[t].left > 0
  /\ \E k \in KEYS :
       th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = IF t \in WRITERS THEN "lock-u" ELSE "look", !.k = k, !.was = k \in stored, !.left = @ - 1]]
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, cm, stored, bad>>
LockU(t) ==
  /\ th[t].pc = "lock-u"
  /\ BUG = "nou" \/ u = "-"
  /\ u' = (IF BUG = "nou" THEN u ELSE t)
  /\ th' = [th EXCEPT ![t].pc = "look"]
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, gen, cur, prev, cm, stored, bad>>

\* a result: fetches are judged here, inserts proceed
Done(t, hit, note) ==
  IF t \in READERS
  THEN /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "idle"]]
       /\ bad' = bad \cup note \cup (IF th[t].was /\ ~ hit THEN {"missed"} ELSE {}) \cup (IF hit /\ th[t].k \notin stored THEN {"invented"} ELSE {})
       /\ u' = u
  ELSE IF hit
  THEN /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "idle"]]
       /\ bad' = bad \cup note \cup (IF th[t].k \notin stored THEN {"refused"} ELSE {})
       /\ u' = "-"
  ELSE /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "put"]]
       /\ bad' = bad \cup note
       /\ u' = u

\* under the shared lock: pending keys, published buckets; otherwise the key file, under the generation lock
Look(t) ==
  /\ th[t].pc = "look" /\ CanShare
  /\ LET k == th[t].k n == Home(k, nb) IN
     IF k \in p1 \/ (k \in p0 /\ BUG # "nop0")
     THEN Done(t, TRUE, {}) /\ UNCHANGED <<m, mx, gen, cur, prev>>
     ELSE IF n \in DOMAIN c1 /\ BUG # "noc1"
     THEN Done(t, k \in c1[n], {}) /\ UNCHANGED <<m, mx, gen, cur, prev>>
     ELSE /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = IF BUG = "lategen" THEN "gen" ELSE "read", !.n = n, !.g = gen]]
          /\ cur' = (IF BUG = "lategen" THEN cur ELSE cur + 1)
          /\ UNCHANGED <<m, mx, u, gen, prev, bad>>
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, cm, stored>>
\* (mistake: the generation is taken after m was released)
TakeGen(t) ==
  /\ th[t].pc = "gen"
  /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "read", !.g = gen]]
  /\ cur' = cur + 1
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, prev, cm, stored, bad>>
\* reading the bucket takes time: it must not be rewritten before or while it is read
Read(t) ==
  /\ th[t].pc = "read"
  /\ th' = [th EXCEPT ![t].pc = "reading", ![t].hit = th[t].n < nbf /\ th[t].k \in kf[th[t].n]]
  /\ bad' = bad \cup (IF wr = th[t].n THEN {"torn"} ELSE {}) \cup (IF th[t].n >= nbf THEN {"beyond"} ELSE {})
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, cm, stored>>
ReadEnd(t) ==
  /\ th[t].pc = "reading"
  /\ Done(t, th[t].hit, IF wr = th[t].n THEN {"torn"} ELSE {})
  /\ IF th[t].g = gen THEN cur' = cur - 1 /\ prev' = prev ELSE prev' = prev - 1 /\ cur' = cur
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, gen, cm, stored>>
\* the insertion, under the exclusive lock
PutKey(t) ==
  /\ th[t].pc = "put" /\ CanExcl /\ ~ mx
  /\ p1' = p1 \cup {th[t].k} /\ stored' = stored \cup {th[t].k}
  /\ bad' = bad \cup (IF th[t].k \in stored THEN {"twice"} ELSE {})
  /\ th' = [th EXCEPT ![t].pc = "idle"]
  /\ u' = "-"
  /\ UNCHANGED <<p0, kf, c1, nb, nbf, wr, m, mx, gen, cur, prev, cm>>
Client(t) == Begin(t) \/ LockU(t) \/ Look(t) \/ TakeGen(t) \/ Read(t) \/ ReadEnd(t) \/ PutKey(t)

(* ----------------------------------------------------------- committer --- *)
C(pc) == cm' = [cm EXCEPT !.pc = pc]
Swap ==
  /\ cm.pc = "idle" /\ cm.left > 0 /\ p1 # {} /\ m = {}
  /\ p0' = p1 /\ p1' = {}
  /\ cm' = [cm EXCEPT !.pc = "build", !.left = @ - 1]
  /\ UNCHANGED <<kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, th, stored, bad>>
\* file operations of the commit: data file appended, buckets computed; one bucket more for each commit
Build ==
  /\ cm.pc = "build"
  /\ LET n2 == nb + 1
         all(b) == {k \in (UNION {kf[x] : x \in DOMAIN kf}) \cup p0 : Home(k, n2) = b}
         ch == {b \in 0..n2 - 1 : b >= nb \/ all(b) # kf[b]}
     IN cm' = [cm EXCEPT !.pc = "publish", !.new = [b \in ch \cup {Home(k, n2) : k \in p0} |-> all(b)], !.nb = n2]
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, th, stored, bad>>
Publish ==
  /\ cm.pc = "publish" /\ m = {}
  /\ c1' = cm.new /\ nb' = cm.nb
  /\ p0' = {}
  /\ IF BUG = "nostart" THEN UNCHANGED <<gen, cur, prev>>
     ELSE gen' = gen + 1 /\ prev' = prev + cur /\ cur' = 0
  /\ C("log")
  /\ UNCHANGED <<p1, kf, nbf, wr, m, mx, u, th, stored, bad>>
\* (mistake: the pending keys are dropped before the buckets are published)
PublishEarly ==
  /\ BUG = "p0first" /\ cm.pc = "publish" /\ p0 # {} /\ m = {}
  /\ p0' = {}
  /\ UNCHANGED <<p1, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, th, cm, stored, bad>>
WriteLog ==
  /\ cm.pc = "log"
  /\ C("finish")
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, th, stored, bad>>
Finish ==
  /\ cm.pc = "finish" /\ (prev = 0 \/ BUG = "nofinish")
  /\ cm' = [cm EXCEPT !.pc = "write", !.todo = DOMAIN c1]
  /\ c1' = (IF BUG = "clearfirst" THEN None ELSE c1)
  /\ UNCHANGED <<p1, p0, kf, nb, nbf, wr, m, mx, u, gen, cur, prev, th, stored, bad>>
WriteBegin ==
  /\ cm.pc = "write" /\ cm.todo # {}
  /\ \E b \in cm.todo : wr' = b /\ cm' = [cm EXCEPT !.pc = "writing", !.todo = @ \ {b}]
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, m, mx, u, gen, cur, prev, th, stored, bad>>
WriteEnd ==
  /\ cm.pc = "writing"
  /\ kf' = [b \in (DOMAIN kf) \cup {wr} |-> IF b = wr THEN cm.new[b] ELSE kf[b]]
  /\ nbf' = (IF wr >= nbf THEN wr + 1 ELSE nbf)
  /\ wr' = -1 /\ C("write")
  /\ UNCHANGED <<p1, p0, c1, nb, m, mx, u, gen, cur, prev, th, stored, bad>>
Sync ==
  /\ cm.pc = "write" /\ cm.todo = {}
  /\ C("clear")
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, m, mx, u, gen, cur, prev, th, stored, bad>>
Clear ==
  /\ cm.pc = "clear" /\ m = {}
  /\ c1' = None
  /\ C("idle")
  /\ UNCHANGED <<p1, p0, kf, nb, nbf, wr, m, mx, u, gen, cur, prev, th, stored, bad>>
\* (mistake: m is held while the log is written)
HoldM ==
  /\ BUG = "holdm" /\ cm.pc = "log" /\ ~ mx /\ m = {}
  /\ m' = {"C"} /\ mx' = TRUE
  /\ UNCHANGED <<p1, p0, kf, c1, nb, nbf, wr, u, gen, cur, prev, th, cm, stored, bad>>
Committer == Swap \/ Build \/ Publish \/ PublishEarly \/ WriteLog \/ Finish \/ WriteBegin \/ WriteEnd \/ Sync \/ Clear \/ HoldM

Next == Committer \/ \E t \in Threads : Client(t)
\* clients make progress; the committer may be stuck in any of its file operations for ever
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Client(t))

Linearizable == bad = {}
Generations == cur >= 0 /\ prev >= 0
\* each published view and the key file together hold exactly what was committed
Complete == stored = p1 \cup p0 \cup (UNION {IF b \in DOMAIN c1 THEN c1[b] ELSE kf[b] : b \in (DOMAIN kf) \cup (DOMAIN c1)})
NoWaiting == \A t \in Threads : (th[t].pc # "idle") ~> (th[t].pc = "idle")
=============================================================================
