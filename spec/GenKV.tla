------------------------------- MODULE GenKV -------------------------------
(* The sequential design: every history of the abstract store up to Len     *)
(* calls over a few keys. TLC checks the design's own properties and prints *)
(* each history; the histories are replayed against the real store.         *)
EXTENDS KV, IOUtils, Json

N == atoi(IOEnv.GENLEN)
NK == atoi(IOEnv.GENKEYS)

VARIABLES s, h, used, last
vars == <<s, h, used, last>>

Init ==
  /\ s = [KVInit EXCEPT !.made = TRUE, !.open = TRUE]
  /\ h = <<>> /\ used = 0 /\ last = "o"

Fresh(k) == k <= used + 1
Use(k) == used' = IF k > used THEN k ELSE used

Ins(k) ==
  /\ Fresh(k) /\ Use(k)
  /\ LET v == Len(h) + 1
         r == IF Contains(s, k) THEN "exists" ELSE "ok"
     IN /\ s' \in SuccInsert(s, k, v, r)
        /\ h' = Append(h, <<"i", k, v>>)
  /\ last' = "i"

Get(k) ==
  /\ Fresh(k) /\ Use(k)
  /\ LET r == IF Contains(s, k) THEN "ok" ELSE "nf"
         v == IF Contains(s, k) THEN ValueOf(s, k) ELSE 0
     IN s' \in SuccFetch(s, k, r, v)
  /\ h' = Append(h, <<"g", k, 0>>)
  /\ last' = "g"

Flush ==
  /\ last # "f"
  /\ s' \in SuccFlush(s)
  /\ h' = Append(h, <<"f", 0, 0>>) /\ last' = "f" /\ UNCHANGED used

Reopen ==
  /\ last # "o"
  /\ \E x \in SuccClose(s, "ok") : s' \in SuccOpen(x, "ok")
  /\ h' = Append(h, <<"r", 0, 0>>) /\ last' = "o" /\ UNCHANGED used

Next == Len(h) < N /\ (Flush \/ Reopen \/ \E k \in 1..NK : Ins(k) \/ Get(k))
Spec == Init /\ [][Next]_vars

(* design properties *)
Disjoint == DOMAIN s.disk \cap DOMAIN s.mem = {}
NothingLost == [][\A k \in DOMAIN s.disk \cup DOMAIN s.mem :
                     Contains(s', k) /\ ValueOf(s', k) = ValueOf(s, k)]_vars
DurableGrows == [][\A k \in DOMAIN s.disk : k \in DOMAIN s'.disk /\ s'.disk[k] = s.disk[k]]_vars

Emit == Len(h) = N => PrintT("PROG " \o ToJson(h))
=============================================================================
