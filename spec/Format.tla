------------------------------- MODULE Format -------------------------------
(* The file formats of version 2, byte for byte, as README.md describes them. *)
(* Files are sequences of bytes.  Numbers that may exceed TLC's integers      *)
(* (64-bit identifiers, hashes) stay byte strings, most significant first.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE BE(_, _)
BE(n, w) == IF w = 0 THEN << >> ELSE Append(BE(n \div 256, w - 1), n % 256)   \* big endian, w bytes
RECURSIVE Val(_)
Val(s) == IF s = << >> THEN 0 ELSE 256 * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
Zeros(n) == [j \in 1..n |-> 0]
Bytes(f, off, n) == SubSeq(f, off + 1, off + n)         \* off counts from 0
In(f, off, n) == off >= 0 /\ off + n <= Len(f)
Small(s) == \A j \in 1..(Len(s) - 3) : s[j] = 0         \* fits in 24 bits
Num(f, off, n) == Val(Bytes(f, off, n))

DatType == <<110, 117, 100, 98, 46, 100, 97, 116>>      \* nudb.dat
KeyType == <<110, 117, 100, 98, 46, 107, 101, 121>>     \* nudb.key
LogType == <<110, 117, 100, 98, 46, 108, 111, 103>>     \* nudb.log
Version == BE(2, 2)

DatHeaderSize == 92
KeyHeaderSize == 104
LogHeaderSize == 62
EntrySize == 18

DatHeader(uid, app, ks) == DatType \o Version \o uid \o app \o BE(ks, 2) \o Zeros(64)
KeyHeader(uid, app, ks, salt, pepper, bs, lf) ==
  KeyType \o Version \o uid \o app \o BE(ks, 2) \o salt \o pepper \o BE(bs, 2) \o BE(lf, 2) \o Zeros(56) \o Zeros(bs - KeyHeaderSize)
LogHeader(uid, app, ks, salt, pepper, bs, ksz, dsz) ==
  LogType \o Version \o uid \o app \o BE(ks, 2) \o salt \o pepper \o BE(bs, 2) \o BE(ksz, 8) \o BE(dsz, 8)

Capacity(bs) == (bs - 8) \div EntrySize

(* ---- writing ---------------------------------------------------------- *)
Concat(ss) == LET C[j \in 0..Len(ss)] == IF j = 0 THEN << >> ELSE C[j - 1] \o ss[j] IN C[Len(ss)]
Entry(off, size, h48) == BE(off, 6) \o BE(size, 6) \o h48
Compact(es, spill) == BE(Len(es), 2) \o BE(spill, 6) \o Concat([j \in 1..Len(es) |-> Entry(es[j].off, es[j].size, es[j].hash)])
Padded(es, spill, bs) == LET c == Compact(es, spill) IN c \o Zeros(bs - Len(c))
DataRecord(key, val) == BE(Len(val), 6) \o key \o val
\* spill records have a fixed length: room for as many entries as a bucket has
SpillRecord(es, spill, cap) == LET c == Compact(es, spill) IN Zeros(6) \o BE(8 + EntrySize * cap, 2) \o c \o Zeros(8 + EntrySize * cap - Len(c))
LogRecord(n, es, spill) == BE(n, 8) \o Compact(es, spill)

(* ---- reading ----------------------------------------------------------- *)
\* a bucket at off, in a region of at most n bytes; bad when it does not fit
BucketAt(f, off, n) ==
  IF n < 8 \/ ~ In(f, off, 8) THEN [ok |-> FALSE]
  ELSE LET cnt == Num(f, off, 2) IN
       IF 8 + EntrySize * cnt > n \/ ~ In(f, off, 8 + EntrySize * cnt) \/ ~ Small(Bytes(f, off + 2, 6)) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, len |-> 8 + EntrySize * cnt, spill |-> Num(f, off + 2, 6),
             e |-> [j \in 1..cnt |-> LET p == off + 8 + EntrySize * (j - 1) IN
                                     [off |-> Num(f, p, 6), size |-> Num(f, p + 6, 6), hash |-> Bytes(f, p + 12, 6),
                                      small |-> Small(Bytes(f, p, 6)) /\ Small(Bytes(f, p + 6, 6))]]]
EntriesSmall(b) == \A j \in 1..Len(b.e) : b.e[j].small
\* stored entries are in order of their hashes
RECURSIVE LexLE(_, _)
LexLE(a, b) == a = << >> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LexLE(Tail(a), Tail(b)))
Ordered(b) == \A j \in 1..(Len(b.e) - 1) : LexLE(b.e[j].hash, b.e[j + 1].hash)

\* the records of a data file, from off on; bad when the file does not end with a record
Records(f, ks) ==
  LET W[off \in Nat] ==
        IF off = Len(f) THEN << >>
        ELSE IF ~ In(f, off, 8) \/ ~ Small(Bytes(f, off, 6)) THEN <<[k |-> "bad", off |-> off]>>
        ELSE LET n == Num(f, off, 6) IN
             IF n # 0
             THEN IF ~ In(f, off, 6 + ks + n) THEN <<[k |-> "bad", off |-> off]>>
                  ELSE <<[k |-> "d", off |-> off, size |-> n, key |-> Bytes(f, off + 6, ks), voff |-> off + 6 + ks]>> \o W[off + 6 + ks + n]
             ELSE LET z == Num(f, off + 6, 2)
                      b == BucketAt(f, off + 8, z) IN
                  IF ~ b.ok THEN <<[k |-> "bad", off |-> off]>>
                  ELSE <<[k |-> "s", off |-> off + 8, z |-> z, b |-> b]>> \o W[off + 8 + z]
  IN W[DatHeaderSize]

\* the buckets of a key file
Buckets(f, bs) ==
  LET nb == (Len(f) - bs) \div bs IN
  [j \in 1..nb |-> LET b == BucketAt(f, bs * j, bs) IN
     IF ~ b.ok THEN b
     ELSE [b EXCEPT !.ok = Bytes(f, bs * j + b.len, bs - b.len) = Zeros(bs - b.len)]]

\* the records of a log
LogRecords(f) ==
  LET W[off \in Nat] ==
        IF off = Len(f) THEN << >>
        ELSE IF ~ In(f, off, 16) \/ ~ Small(Bytes(f, off, 8)) THEN <<[ok |-> FALSE]>>
        ELSE LET b == BucketAt(f, off + 8, Len(f) - off - 8) IN
             IF ~ b.ok THEN <<[ok |-> FALSE]>>
             ELSE <<[ok |-> TRUE, n |-> Num(f, off, 8), b |-> b]>> \o W[off + 8 + b.len]
  IN W[LogHeaderSize]

(* ---- linear hashing: the bucket a hash belongs to ----------------------- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)    \* the smallest power of two that is not below n
Low(h48) == Val(SubSeq(h48, 4, 6))                           \* the low 24 bits
Home(h48, nb) == LET m == Pow2(nb) n == Low(h48) % m IN IF n >= nb THEN n - m \div 2 ELSE n
Truncated(h64) == SubSeq(h64, 1, 6)                          \* the upper 48 of 64 bits

(* ---- what a reader built from the documentation finds ------------------- *)
RECURSIVE Chain(_, _, _)
\* the entries of a bucket and of its spill records; at most fuel of them
Chain(dat, b, fuel) ==
  IF b.spill = 0 \/ fuel = 0 THEN b.e
  ELSE LET c == BucketAt(dat, b.spill, Len(dat) - b.spill) IN
       IF ~ c.ok THEN b.e ELSE b.e \o Chain(dat, c, fuel - 1)
Matches(dat, ks, e, h48, key) == e.hash = h48 /\ e.small /\ In(dat, e.off, 6 + ks + e.size) /\ Bytes(dat, e.off + 6, ks) = key
\* the values found for a key
Found(dat, bks, ks, h48, key) ==
  LET es == Chain(dat, bks[Home(h48, Len(bks)) + 1], 40) IN
  {Bytes(dat, es[j].off + 6 + ks, es[j].size) : j \in {x \in 1..Len(es) : Matches(dat, ks, es[x], h48, key)}}
=============================================================================
