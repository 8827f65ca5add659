-------------------------------- MODULE KV --------------------------------
(* The abstract store: an insert-once map with committed and pending parts. *)
(* Succ*(s, ...) give the set of states an operation may lead to when it    *)
(* returns the given result; the empty set means the result is not allowed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyMap == [x \in {} |-> 0]
Has(m, k) == k \in DOMAIN m
Put(m, k, v) == (k :> v) @@ m

(* open: the store is open; disk: committed; mem: inserted, not committed   *)
KVInit == [open |-> FALSE, made |-> FALSE, disk |-> EmptyMap, mem |-> EmptyMap]

Contains(s, k) == Has(s.disk, k) \/ Has(s.mem, k)
ValueOf(s, k) == IF Has(s.mem, k) THEN s.mem[k] ELSE s.disk[k]

SuccCreate(s, r) ==
  IF r = "ok" THEN {[s EXCEPT !.made = TRUE]} ELSE {}

SuccOpen(s, r) ==
  IF s.made /\ ~ s.open /\ r = "ok" THEN {[s EXCEPT !.open = TRUE]} ELSE {}

SuccInsert(s, k, v, r) ==
  IF ~ s.open THEN {}
  ELSE IF Contains(s, k) THEN (IF r = "exists" THEN {s} ELSE {})
  ELSE IF r = "ok" THEN {[s EXCEPT !.mem = Put(@, k, v)]} ELSE {}

SuccFetch(s, k, r, v) ==
  IF ~ s.open THEN {}
  ELSE IF Contains(s, k) THEN (IF r = "ok" /\ v = ValueOf(s, k) THEN {s} ELSE {})
  ELSE IF r = "nf" THEN {s} ELSE {}

Committed(s) == [s EXCEPT !.disk = s.mem @@ @, !.mem = EmptyMap]

SuccFlush(s) == IF s.open THEN {Committed(s)} ELSE {}

SuccClose(s, r) ==
  IF s.open /\ r = "ok" THEN {[Committed(s) EXCEPT !.open = FALSE]} ELSE {}

=============================================================================
