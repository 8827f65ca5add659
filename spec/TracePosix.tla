----------------------------- MODULE TracePosix -----------------------------
(* Recorded runs of the native file on a virtual kernel.  The system calls   *)
(* drive a model of the kernel's files and descriptors; at the end of every  *)
(* operation its result must be what PosixIO allows: the transfer is exact   *)
(* or the error the system gave is reported, nothing else has changed, and   *)
(* the descriptors in use are exactly those of the open files.  It does not  *)
(* matter which calls are used, or in how many pieces.                       *)
EXTENDS KV, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, F, D, H, cur, kv
vars == <<t, i, F, D, H, cur, kv>>
(* F: path -> <<contents, size>>   D: descriptor -> [p, ap, w]   H: handle -> descriptor *)
Field(e, f) == f \in DOMAIN e
EINTR == 4
EEXIST == 17
ENOENT == 2
Giant == Traces[t].unit > 1

Init ==
  /\ t \in 1..Len(Traces) /\ i = 1
  /\ F = IF ~ Field(Traces[t], "gsz") \/ Traces[t].gsz < 0 THEN EmptyMap ELSE ("/vk/a" :> <<Traces[t].pre, Traces[t].gsz>>)
  /\ D = EmptyMap /\ H = EmptyMap
  /\ cur = [op |-> "none"]
  /\ kv = KVInit

Max(a, b) == IF a > b THEN a ELSE b
Extend(f, len) == [x \in 1..len |-> IF x <= Len(f) THEN f[x] ELSE 0]
Splice(f, at, s) == LET g == IF at + Len(s) > Len(f) /\ Len(s) > 0 THEN Extend(f, at + Len(s)) ELSE f
                    IN [x \in 1..Len(g) |-> IF x > at /\ x <= at + Len(s) THEN s[x - at] ELSE g[x]]

(* ---- an operation begins ---------------------------------------------- *)
Begin(e) == [op |-> e.op, e |-> e, F0 |-> F, err |-> {}, adv |-> {}, intr |-> FALSE, cov |-> {}, synced |-> FALSE, fresh |-> {}, stuck |-> FALSE, fd |-> -1]

(* ---- system calls ------------------------------------------------------ *)
Transfers == {"rd", "wr", "sync", "trunc"}
\* a call the operation has no business making
SysOK(e) ==
  LET o == cur.e IN
  CASE e.c = "open" -> cur.op \in {"create", "open"} /\ e.p = o.p /\ (cur.op = "open" => ~ e.cr) /\ ~ e.tr
    [] e.c = "close" -> e.fd \in DOMAIN D /\ cur.op \in {"close", "move", "end", "open", "create"}
    [] e.c = "unlink" -> cur.op \in {"erase", "create"} /\ e.p = o.p
    [] e.c = "rd" -> cur.op \in {"read"} /\ e.fd \in DOMAIN D /\ o.h \in DOMAIN H /\ H[o.h] = e.fd
                     /\ e.off >= o.off /\ e.n >= 0 /\ e.off + e.n <= o.off + o.n /\ (e.b >= 0 => e.b = e.off - o.off)
    [] e.c = "wr" -> cur.op \in {"write"} /\ e.fd \in DOMAIN D /\ o.h \in DOMAIN H /\ H[o.h] = e.fd
                     /\ (~ D[e.fd].ap => e.off >= o.off /\ e.off + e.n <= o.off + o.n /\ (e.b >= 0 => e.b = e.off - o.off))
                     /\ e.n >= 0
    [] e.c = "sync" -> cur.op = "sync" /\ e.fd \in DOMAIN D /\ o.h \in DOMAIN H /\ H[o.h] = e.fd
    [] e.c = "trunc" -> cur.op = "trunc" /\ e.fd \in DOMAIN D /\ o.h \in DOMAIN H /\ H[o.h] = e.fd /\ e.len = o.len
    [] e.c = "stat" -> TRUE
    [] e.c = "adv" -> e.fd \in DOMAIN D
    [] OTHER -> FALSE

SizeOf(p) == F[p][2]
FilesAfter(e) ==
  IF e.r < 0 THEN F
  ELSE CASE e.c = "open" -> IF e.p \in DOMAIN F THEN F ELSE Put(F, e.p, << << >>, 0>>)
         [] e.c = "unlink" -> [p \in DOMAIN F \ {e.p} |-> F[p]]
         [] e.c = "wr" ->
              LET p == D[e.fd].p
                  at == IF D[e.fd].ap THEN SizeOf(p) ELSE e.off
              IN Put(F, p, <<IF Giant THEN << >> ELSE Splice(F[p][1], at, e.d), IF e.r = 0 THEN SizeOf(p) ELSE Max(SizeOf(p), at + e.r)>>)
         [] e.c = "trunc" -> LET p == D[e.fd].p IN Put(F, p, <<IF Giant THEN << >> ELSE Extend(F[p][1], e.len), e.len>>)
         [] OTHER -> F
FdsAfter(e) ==
  CASE e.c = "open" /\ e.r >= 0 -> Put(D, e.r, [p |-> e.p, ap |-> e.ap, w |-> e.w])
    [] e.c = "close" -> [d \in DOMAIN D \ {e.fd} |-> D[d]]
    [] OTHER -> D
CurAfter(e) ==
  IF e.r < 0
  THEN IF -e.r = EINTR
       THEN IF e.c \in Transfers \cup {"close"} THEN cur ELSE [cur EXCEPT !.intr = TRUE]
       ELSE IF e.c = "close" THEN cur
       ELSE IF e.c = "unlink" /\ cur.op = "create" THEN [cur EXCEPT !.stuck = TRUE]   \* what it made cannot be removed
       ELSE IF e.c = "adv" THEN [cur EXCEPT !.adv = @ \cup {-e.r}]
       ELSE [cur EXCEPT !.err = @ \cup {-e.r}]
  ELSE CASE e.c \in {"rd", "wr"} -> [cur EXCEPT !.cov = IF e.r = 0 THEN @ ELSE @ \cup {<<IF e.c = "wr" /\ D[e.fd].ap THEN SizeOf(D[e.fd].p) ELSE e.off,
                                                                  (IF e.c = "wr" /\ D[e.fd].ap THEN SizeOf(D[e.fd].p) ELSE e.off) + e.r>>}]
         [] e.c = "sync" -> [cur EXCEPT !.synced = TRUE]
         [] e.c = "open" -> [cur EXCEPT !.fd = e.r, !.fresh = IF e.p \in DOMAIN F THEN @ ELSE @ \cup {e.p}]
         [] OTHER -> cur

(* ---- an operation ends ------------------------------------------------- *)
RECURSIVE Reach(_, _, _)
Reach(cov, at, fuel) ==
  LET nx == {c \in cov : c[1] <= at /\ c[2] > at}
  IN IF fuel = 0 \/ nx = {} THEN at ELSE LET c == CHOOSE x \in nx : TRUE IN Reach(cov, c[2], fuel - 1)
Covered(o) == Reach(cur.cov, o.off, Cardinality(cur.cov)) >= o.off + o.n

Reported(r) == \/ r \in cur.err
               \/ cur.err = {} /\ cur.intr /\ r = EINTR
               \/ cur.err = {} /\ r > 0 /\ r \in cur.adv
Clean == cur.err = {}                    \* may have succeeded
HandlesAfter(e) ==
  LET o == cur.e IN
  CASE cur.op \in {"create", "open"} -> IF e.r = 0 THEN Put(H, o.h, cur.fd) ELSE H
    [] cur.op = "close" -> [h \in DOMAIN H \ {o.h} |-> H[h]]
    [] cur.op = "move" -> IF o.h = o.g THEN H
                          ELSE IF o.g \in DOMAIN H THEN [h \in (DOMAIN H \ {o.g}) \cup {o.h} |-> IF h = o.h THEN H[o.g] ELSE H[h]]
                          ELSE [h \in DOMAIN H \ {o.h} |-> H[h]]
    [] cur.op = "end" -> EmptyMap
    [] OTHER -> H
RetOK(e) ==
  LET o == cur.e
      H2 == HandlesAfter(e)
      F0 == cur.F0
  IN
  /\ {e.open[x] : x \in 1..Len(e.open)} = DOMAIN H2
  /\ DOMAIN D = {H2[h] : h \in DOMAIN H2}
  /\ {e.fds[x] : x \in 1..Len(e.fds)} = DOMAIN D
  /\ CASE cur.op = "create" ->
            IF e.r = 0 THEN Clean /\ o.p \notin DOMAIN F0 /\ F = Put(F0, o.p, << << >>, 0>>) /\ cur.fd # -1 /\ D[cur.fd].p = o.p
                            /\ (o.m \in {"a", "w"} => D[cur.fd].w)
            ELSE /\ Reported(e.r) \/ (o.p \in DOMAIN F0 /\ e.r = EEXIST)
                 /\ F = F0 \/ (cur.stuck /\ o.p \notin DOMAIN F0 /\ F = Put(F0, o.p, << << >>, 0>>))
       [] cur.op = "open" ->
            IF e.r = 0 THEN Clean /\ o.p \in DOMAIN F0 /\ F = F0 /\ cur.fd # -1 /\ D[cur.fd].p = o.p /\ (o.m \in {"a", "w"} => D[cur.fd].w)
            ELSE (Reported(e.r) \/ (o.p \notin DOMAIN F0 /\ e.r = ENOENT)) /\ F = F0
       [] cur.op \in {"close", "move", "end"} -> e.r = 0 /\ F = F0
       [] cur.op = "erase" ->
            IF o.p \notin DOMAIN F0 THEN (e.r \in {0, ENOENT} \/ Reported(e.r)) /\ F = F0
            ELSE IF e.r = 0 THEN Clean /\ o.p \notin DOMAIN F ELSE Reported(e.r) /\ F = F0
       [] cur.op = "size" -> IF e.r = 0 THEN Clean /\ F = F0 /\ e.size = SizeOf(D[H[o.h]].p) ELSE Reported(e.r) /\ F = F0
       [] cur.op = "sync" -> IF e.r = 0 THEN Clean /\ cur.synced /\ F = F0 ELSE Reported(e.r) /\ F = F0
       [] cur.op = "trunc" ->
            LET p == D[H[o.h]].p IN
            IF e.r = 0 THEN Clean /\ F = Put(F0, p, <<IF Giant THEN << >> ELSE Extend(F0[p][1], o.len), o.len>>)
            ELSE Reported(e.r)
       [] cur.op = "read" ->
            LET p == D[H[o.h]].p
                sz == SizeOf(p)
            IN /\ F = F0
               /\ IF e.r = 0
                  THEN /\ Clean /\ (o.n = 0 \/ o.off + o.n <= sz)
                       /\ IF Giant THEN Covered(o) ELSE e.d = SubSeq(F0[p][1], o.off + 1, o.off + o.n)
                  ELSE IF e.r = -1 THEN Clean /\ o.n > 0 /\ o.off + o.n > sz ELSE Reported(e.r)
       [] cur.op = "write" ->
            LET p == D[H[o.h]].p IN
            IF e.r = 0
            THEN /\ Clean
                 /\ IF Giant THEN Covered(o) /\ SizeOf(p) = Max(F0[p][2], IF o.n = 0 THEN 0 ELSE o.off + o.n)
                    ELSE F = Put(F0, p, <<Splice(F0[p][1], o.off, o.d), IF o.n = 0 THEN F0[p][2] ELSE Max(F0[p][2], o.off + o.n)>>)
            ELSE /\ Reported(e.r)
                 /\ \A x \in 1..Len(F0[p][1]) : (x <= o.off \/ x > o.off + o.n) => F[p][1][x] = F0[p][1][x]
                 /\ SizeOf(p) <= Max(F0[p][2], o.off + o.n)
       [] OTHER -> FALSE

(* ---- a store on the virtual kernel ------------------------------------- *)
KvSucc(e) ==
  CASE e.c = "create" -> SuccCreate(kv, e.r)
    [] e.c = "open" -> SuccOpen(kv, e.r)
    [] e.c = "ins" -> SuccInsert(kv, e.k, e.v, e.r)
    [] e.c = "get" -> SuccFetch(kv, e.k, e.r, e.v)
    [] e.c = "close" -> SuccClose(kv, e.r)
    [] e.c \in {"rekey", "recover"} -> IF e.r = "ok" /\ ~ kv.open /\ e.fds = 0 THEN {kv} ELSE {}
    [] e.c = "end" -> IF e.fds = 0 THEN {kv} ELSE {}
    [] OTHER -> {}

Stop == PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1 /\ UNCHANGED <<t, F, D, H, cur, kv>>
Next ==
  IF i = 1 /\ Field(Traces[t], "crash")
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ UNCHANGED <<t, F, D, H, cur, kv>>
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i] IN
     CASE e.o = "op" -> i' = i + 1 /\ cur' = Begin(e) /\ UNCHANGED <<t, F, D, H, kv>>
       [] e.o = "sys" -> IF SysOK(e) THEN i' = i + 1 /\ F' = FilesAfter(e) /\ D' = FdsAfter(e) /\ cur' = CurAfter(e) /\ UNCHANGED <<t, H, kv>>
                         ELSE Stop
       [] e.o = "ret" -> IF RetOK(e) THEN i' = i + 1 /\ H' = HandlesAfter(e) /\ cur' = [op |-> "none"] /\ UNCHANGED <<t, F, D, kv>>
                         ELSE Stop
       [] e.o = "kv" -> IF KvSucc(e) # {} THEN i' = i + 1 /\ kv' = (CHOOSE x \in KvSucc(e) : TRUE) /\ UNCHANGED <<t, F, D, H, cur>>
                        ELSE Stop
       [] OTHER -> Stop
Spec == Init /\ [][Next]_vars
=============================================================================
