------------------------------ MODULE PosixIO ------------------------------
(* The native file layer as a machine: one operation on an open file is      *)
(* carried out by system calls, each of which the system may divide,         *)
(* interrupt or refuse.  TLC explores every sequence of answers up to LEN    *)
(* and checks that the operation, as designed, is exact; every complete      *)
(* behaviour is printed and replayed against the real posix_file.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
LEN == atoi(IOEnv.GENLEN)
SIZE == 5                    \* of the file
OPS == {"rd", "wr", "sy", "tr"}
ERR == {5, 28}               \* EIO, ENOSPC
BUG == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE ""

VARIABLES op, off, n,        \* the operation
          file, buf,         \* file contents; the caller's buffer
          pos,               \* units transferred
          ans,               \* the answers given so far
          st                 \* "run", "ok", "short", or an error number as a string
vars == <<op, off, n, file, buf, pos, ans, st>>

Old(x) == 10 + x             \* byte at offset x of the original file
New(x) == 50 + x             \* byte x of the buffer being written
File0 == [x \in 1..SIZE |-> Old(x - 1)]
Min(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ op \in OPS
  /\ off \in (IF op \in {"rd", "wr"} THEN {0, 2, 4, 5, 6} ELSE {0, 3, 7}) \* tr: the length
  /\ n \in (IF op \in {"rd", "wr"} THEN 0..4 ELSE {1})
  /\ op = "sy" => off = 0
  /\ file = File0
  /\ buf = [x \in 1..n |-> 0]
  /\ pos = 0 /\ ans = << >> /\ st = "run"

Extend(f, len) == [x \in 1..len |-> IF x <= Len(f) THEN f[x] ELSE 0]
Splice(f, at, s) == LET g == IF at + Len(s) > Len(f) THEN Extend(f, at + Len(s)) ELSE f
                    IN [x \in 1..Len(g) |-> IF x > at /\ x <= at + Len(s) THEN s[x - at] ELSE g[x]]

Done == op \in {"rd", "wr"} /\ pos = n
\* what the system can transfer
Avail == IF op = "rd" THEN (IF off + pos >= SIZE THEN 0 ELSE Min(n - pos, SIZE - off - pos)) ELSE n - pos

Transfer(k) ==
  /\ IF op = "rd" THEN /\ buf' = [x \in 1..n |-> IF x > pos /\ x <= pos + k THEN file[off + x] ELSE buf[x]]
                       /\ file' = file
     ELSE /\ file' = Splice(file, IF BUG = "nooffset" THEN off ELSE off + pos, [x \in 1..k |-> New((IF BUG = "nobuffer" THEN 0 ELSE pos) + x - 1)])
          /\ buf' = buf
  /\ pos' = IF BUG = "assumefull" THEN n ELSE pos + k

More == Len(ans) < LEN
Full ==
  /\ st = "run" /\ ~ Done
  /\ ans' = Append(ans, "f")
  /\ CASE op \in {"rd", "wr"} ->
            IF op = "rd" /\ Avail = 0 THEN st' = (IF BUG = "eofok" THEN "ok" ELSE "short") /\ UNCHANGED <<file, buf, pos>>
            ELSE Transfer(Avail) /\ st' = st
       [] op = "sy" -> st' = "ok" /\ UNCHANGED <<file, buf, pos>>
       [] op = "tr" -> st' = "ok" /\ file' = Extend(file, off) /\ UNCHANGED <<buf, pos>>
  /\ UNCHANGED <<op, off, n>>
Part(k) ==
  /\ st = "run" /\ ~ Done /\ More /\ op \in {"rd", "wr"} /\ k < Avail
  /\ ans' = Append(ans, "p" \o ToString(k))
  /\ Transfer(k) /\ UNCHANGED <<op, off, n, st>>
Interrupt ==
  /\ st = "run" /\ ~ Done /\ More
  /\ ans' = Append(ans, "i")
  /\ st' = IF BUG = "eintr" THEN "4" ELSE IF BUG = "eintrok" /\ op = "sy" THEN "ok" ELSE st
  /\ UNCHANGED <<op, off, n, file, buf, pos>>
Refuse(e) ==
  /\ st = "run" /\ ~ Done /\ More
  /\ ans' = Append(ans, "e" \o ToString(e))
  /\ st' = IF BUG = "lostandpos" /\ pos > 0 THEN "ok" ELSE ToString(e)
  /\ UNCHANGED <<op, off, n, file, buf, pos>>
Finish ==
  /\ st = "run" /\ Done /\ st' = "ok" /\ UNCHANGED <<op, off, n, file, buf, pos, ans>>
RECURSIVE Join(_, _)
Join(a, x) == IF x > Len(a) THEN "" ELSE a[x] \o (IF x < Len(a) THEN "," ELSE "") \o Join(a, x + 1)
\* the script the harness replays
Emit ==
  /\ st \notin {"run", "out"}
  /\ PrintT("SCRIPT " \o op \o " " \o ToString(off) \o " " \o ToString(n) \o " " \o st \o " " \o
            Join(ans, 1))
  /\ st' = "out" /\ UNCHANGED <<op, off, n, file, buf, pos, ans>>

Next == Full \/ (\E k \in 1..3 : Part(k)) \/ Interrupt \/ (\E e \in ERR : Refuse(e)) \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == st \notin {"run", "out"}
Errors == {x \in 1..Len(ans) : \E e \in ERR : ans[x] = "e" \o ToString(e)}
(* the guarantees *)
Exact ==
  Ended =>
    /\ st = "ok" /\ op = "rd" => (off + n <= SIZE /\ buf = [x \in 1..n |-> Old(off + x - 1)]) \/ n = 0
    /\ st = "ok" /\ op = "wr" /\ n > 0 => file = Splice(File0, off, [x \in 1..n |-> New(x - 1)])
    /\ st = "ok" /\ op = "tr" => file = Extend(File0, off)
    /\ st = "short" => op = "rd" /\ off + n > SIZE
    /\ op \in {"rd", "sy"} => file = File0
    /\ st = "ok" /\ op = "sy" => ans = << >> \/ ans[Len(ans)] # "i"
    /\ Errors # {} => st \in {ToString(e) : e \in ERR}
    /\ st \in {ToString(e) : e \in ERR} => Errors # {}
    /\ st # "4"
Frame == op = "wr" => \A x \in 1..SIZE : (x <= off \/ x > off + n) => file[x] = Old(x - 1)
Terminates == <>(st # "run")
=============================================================================
