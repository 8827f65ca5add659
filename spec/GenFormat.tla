------------------------------ MODULE GenFormat ------------------------------
(* Writes small databases as the documentation describes them: every choice   *)
(* of keys, number of buckets, chain layout, order of the records and left-    *)
(* over spill records, optionally with a log that still has to be rolled back. *)
(* One state is one database; its files are printed.                           *)
EXTENDS Format, Json, IOUtils
P == JsonDeserialize(IOEnv.PARAM)      \* ks, bs, lf, uid, app, salt, pepper, cases: seq of [id, keys, sizes, nb, first, order, junk, log]
VARIABLE n

Key(k) == [j \in 1..P.ks |-> IF j = 1 THEN k % 256 ELSE IF j = 2 THEN k \div 256 ELSE 90]
Value(k, size) == [j \in 1..size |-> (k * 7 + j * 13) % 256]
\* hash mode 1: the first six bytes, least significant first
H48(k) == LET b == Key(k) IN [j \in 1..6 |-> LET q == 7 - j IN IF q <= P.ks THEN b[q] ELSE 0]

RECURSIVE Sorted(_)
Sorted(es) == IF Len(es) <= 1 THEN es
              ELSE LET m == CHOOSE j \in 1..Len(es) : \A q \in 1..Len(es) : LexLE(es[j].hash, es[q].hash)
                   IN <<es[m]>> \o Sorted([q \in 1..(Len(es) - 1) |-> IF q < m THEN es[q] ELSE es[q + 1]])

\* lays the data records out in the given order: [bytes, off: key index -> offset]
Data(c) ==
  LET F[j \in 0..Len(c.keys)] ==
        IF j = 0 THEN [b |-> DatHeader(P.uid, P.app, P.ks) \o (IF c.junk = 1 THEN SpillRecord(<<[off |-> 92, size |-> 1, hash |-> Zeros(6)]>>, 0, Capacity(P.bs)) ELSE << >>), o |-> << >>]
        ELSE LET k == c.keys[c.order[j]]
                 p == F[j - 1] IN
             [b |-> p.b \o DataRecord(Key(k), Value(k, c.sizes[c.order[j]])), o |-> (c.order[j] :> Len(p.b)) @@ p.o]
  IN F[Len(c.keys)]

\* writes the chain of one bucket: the last `first' entries stay in the bucket, the others go to spill records of at most `most' entries
RECURSIVE Spill(_, _, _, _, _)
Spill(b, es, next, most, cap) ==
  IF es = << >> THEN [b |-> b, next |-> next]
  ELSE LET m == IF Len(es) > most THEN most ELSE Len(es)
           r == Sorted(SubSeq(es, 1, m)) IN
       Spill(b \o SpillRecord(r, next, cap), SubSeq(es, m + 1, Len(es)), Len(b) + 8, most, cap)

Files(c) ==
  LET d == Data(c)
      cap == Capacity(P.bs)
      ent(q) == [off |-> d.o[q], size |-> c.sizes[q], hash |-> H48(c.keys[q])]
      Mine(b) == LET S[q \in 0..Len(c.keys)] == IF q = 0 THEN << >>
                       ELSE LET z == S[q - 1] IN IF Home(H48(c.keys[q]), c.nb) = b THEN Append(z, ent(q)) ELSE z IN S[Len(c.keys)]
      F[b \in 0..c.nb] ==
        IF b = 0 THEN [d |-> d.b, k |-> KeyHeader(P.uid, P.app, P.ks, P.salt, P.pepper, P.bs, P.lf)]
        ELSE LET es == Mine(b - 1)
                 p == F[b - 1]
                 keep == IF Len(es) > cap THEN (IF c.first > cap THEN cap ELSE c.first) ELSE IF c.first < Len(es) THEN c.first ELSE Len(es)
                 s == Spill(p.d, SubSeq(es, 1, Len(es) - keep), 0, IF c.junk = 1 /\ cap > 2 THEN 2 ELSE cap, cap)
             IN [d |-> s.b, k |-> p.k \o Padded(Sorted(SubSeq(es, Len(es) - keep + 1, Len(es))), s.next, P.bs)]
  IN F[c.nb]

\* the files as an interrupted commit leaves them: bytes appended to the data file, buckets of the key file
\* overwritten, new buckets appended; the log has the original buckets, in reverse order
Case(c) ==
  LET f == Files(c)
      bks == Buckets(f.k, P.bs)
      over == {b \in 1..c.nb : (b * 3 + c.log) % 2 = 0}
      RECURSIVE Recs(_)
      Recs(b) == IF b = 0 THEN << >> ELSE (IF b \in over THEN LogRecord(b - 1, bks[b].e, bks[b].spill) ELSE << >>) \o Recs(b - 1)
      junk == [j \in 1..(c.log * 11) |-> (j * 31) % 256]
      kbad[b \in 0..c.nb] == IF b = 0 THEN Bytes(f.k, 0, P.bs)
                             ELSE kbad[b - 1] \o (IF b \in over THEN [j \in 1..P.bs |-> (j * 17) % 256] ELSE Bytes(f.k, P.bs * b, P.bs)) IN
  IF c.log = 0 THEN [id |-> c.id, d |-> f.d, k |-> f.k, l |-> << >>]
  ELSE [id |-> c.id, d |-> f.d \o junk, k |-> kbad[c.nb] \o [j \in 1..(P.bs * (c.log % 3)) |-> j % 256],
        l |-> LogHeader(P.uid, P.app, P.ks, P.salt, P.pepper, P.bs, Len(f.k), Len(f.d)) \o Recs(c.nb)
              \o (IF c.log = 2 THEN SubSeq(LogRecord(0, bks[1].e, bks[1].spill), 1, 15) ELSE << >>)]

Full(c) == LET x == Case(c) IN [x EXCEPT !.d = @] @@ [kv |-> [q \in 1..Len(c.keys) |-> [k |-> Key(c.keys[q]), v |-> Value(c.keys[q], c.sizes[q])]]]

Init == n \in 1..Len(P.cases)
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_n
Show == PrintT("FILE " \o ToJson(Full(P.cases[n])))
=============================================================================
