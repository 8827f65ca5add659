------------------------------- MODULE Index -------------------------------
(* The index of a NuDB database: a linear hash table whose buckets overflow *)
(* into chains of spill records in the data file.                           *)
(*                                                                          *)
(* A snapshot sn is the structure of a pair of files as read by a decoder   *)
(* written from the documented format:                                      *)
(*   sn.nb, sn.cap, sn.bs   number of buckets, bucket capacity, block size  *)
(*   sn.recs                sequence of data records, in file order:        *)
(*                          <<key, value, size, hashHi, hashLo, offset>>    *)
(*   sn.spl                 sequence of spill records, in file order        *)
(*   sn.bk                  sequence of buckets, bucket b at position b+1   *)
(* A bucket or spill is [n, x, e]: entry count, next spill record (its      *)
(* position in sn.spl, 0 none, -1 dangling) and entries                     *)
(* <<record, size, hashHi, hashLo>>, record being a position in sn.recs or  *)
(* 0 if no record starts at the offset stored in the entry.                 *)
(* Hashes are 48 bits, split in two 24-bit halves.                          *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE P2(_, _)
P2(n, m) == IF m >= n THEN m ELSE P2(n, 2 * m)
Modulus(nb) == P2(nb, 1)

(* Linear hashing: the bucket of a hash among nb buckets *)
BucketOf(hl, nb) ==
  LET m == Modulus(nb)
      n == hl % m
  IN IF n >= nb THEN n - m \div 2 ELSE n

\* the same with all 48 bits, for up to 2^30 buckets
BucketOf2(hh, hl, nb) ==
  LET m == Modulus(nb)
      n == IF m <= 16777216 THEN hl % m ELSE (hh % (m \div 16777216)) * 16777216 + hl
  IN IF n >= nb THEN n - m \div 2 ELSE n

(* Of a database with very many buckets only those that hold something are  *)
(* listed, their numbers being sn.bi; the others are all zero               *)
Wide(sn) == "bi" \in DOMAIN sn
Num(sn, b) == IF Wide(sn) THEN sn.bi[b] ELSE b - 1
NL(sn) == Len(sn.bk)
AllListed(sn) ==
  IF Wide(sn)
  THEN /\ NL(sn) = Len(sn.bi)
       /\ \A b \in 1..NL(sn) : sn.bi[b] >= 0 /\ sn.bi[b] < sn.nb /\ (b > 1 => sn.bi[b - 1] < sn.bi[b])
  ELSE NL(sn) = sn.nb

(* Positions of the spill records of the chain starting at x; ends in -1 if *)
(* the chain is dangling or cyclic                                          *)
RECURSIVE ChainFrom(_, _, _)
ChainFrom(sn, x, fuel) ==
  IF x = 0 THEN <<>>
  ELSE IF x < 0 \/ fuel = 0 THEN << -1 >>
  ELSE <<x>> \o ChainFrom(sn, sn.spl[x].x, fuel - 1)

Chain(sn, b) == ChainFrom(sn, sn.bk[b].x, Len(sn.spl))
ChainOK(sn, b) == \A i \in DOMAIN Chain(sn, b) : Chain(sn, b)[i] > 0

\* the chain of the bucket with the number n
ChainOf(sn, n) ==
  IF ~ Wide(sn) THEN Chain(sn, n + 1)
  ELSE IF \E b \in 1..NL(sn) : sn.bi[b] = n THEN Chain(sn, CHOOSE b \in 1..NL(sn) : sn.bi[b] = n) ELSE <<>>

(* The bucket followed by its spill records *)
Parts(sn, b) ==
  LET c == Chain(sn, b) IN <<sn.bk[b]>> \o [i \in 1..Len(c) |-> sn.spl[c[i]]]

RECURSIVE SumLen(_, _)
SumLen(ss, i) == IF i > Len(ss) THEN 0 ELSE Len(ss[i]) + SumLen(ss, i + 1)

RECURSIVE SumSeqOf(_, _)
SumSeqOf(f, i) == IF i > Len(f) THEN 0 ELSE f[i] + SumSeqOf(f, i + 1)

HLess(a, b) == a[3] < b[3] \/ (a[3] = b[3] /\ a[4] <= b[4])

(* One bucket or spill record of bucket b (1-based) is sound *)
PartOK(sn, b, p) ==
  /\ p.n = Len(p.e)
  /\ p.n <= sn.cap
  /\ \A i \in 1..(Len(p.e) - 1) : HLess(p.e[i], p.e[i + 1])
  /\ \A i \in 1..Len(p.e) :
       LET t == p.e[i] IN
       /\ t[1] \in DOMAIN sn.recs
       /\ t[2] = sn.recs[t[1]][3]
       /\ t[3] = sn.recs[t[1]][4]
       /\ t[4] = sn.recs[t[1]][5]
       /\ BucketOf2(t[3], t[4], sn.nb) = Num(sn, b)

(* Shape of the files *)
ShapeOK(sn) ==
  /\ ~ sn.dtail
  /\ sn.ktail = 0
  /\ sn.nb >= 1
  /\ AllListed(sn)
  /\ Wide(sn) \/ sn.ksz = (sn.nb + 1) * sn.bs
  /\ sn.pad

(* Completeness, exactness, placement *)
IndexOK(sn) ==
  /\ ShapeOK(sn)
  /\ \A b \in 1..NL(sn) : ChainOK(sn, b)
  /\ \A b \in 1..NL(sn) : LET ps == Parts(sn, b) IN \A i \in 1..Len(ps) : PartOK(sn, b, ps[i])
  /\ LET chains == [b \in 1..NL(sn) |-> Chain(sn, b)]
         used   == UNION {{chains[b][i] : i \in 1..Len(chains[b])} : b \in 1..NL(sn)}
     IN SumLen(chains, 1) = Cardinality(used)
  /\ LET ents == [b \in 1..NL(sn) |->
                    LET ps == Parts(sn, b) IN SumLen([i \in 1..Len(ps) |-> ps[i].e], 1)]
         refs == UNION {UNION {{p.e[i][1] : i \in 1..Len(p.e)} : p \in {Parts(sn, b)[q] : q \in 1..Len(Parts(sn, b))}} : b \in 1..NL(sn)}
         total == LET RECURSIVE S(_) S(b) == IF b > NL(sn) THEN 0 ELSE ents[b] + S(b + 1) IN S(1)
     IN /\ total = Len(sn.recs)
        /\ refs = 1..Len(sn.recs)
  /\ Cardinality({sn.recs[i][1] : i \in 1..Len(sn.recs)}) = Len(sn.recs)

(* The map a lookup through the index sees: set of <<key, value>> *)
IndexMap(sn) == {<<sn.recs[i][1], sn.recs[i][2]>> : i \in 1..Len(sn.recs)}
DataMap(sn) == IndexMap(sn)

(* An index that verify must not accept: a value not found under its place, *)
(* size and hash, an entry that is not that of exactly one value, a value   *)
(* indexed twice, a key stored twice, chains without end, files cut short   *)
EntrySound(sn, b, e) ==
  /\ e[1] \in DOMAIN sn.recs
  /\ e[2] = sn.recs[e[1]][3] /\ e[3] = sn.recs[e[1]][4] /\ e[4] = sn.recs[e[1]][5]
  /\ BucketOf2(e[3], e[4], sn.nb) = Num(sn, b)
Broken(sn) ==
  IF sn.dtail \/ sn.ktail # 0 \/ sn.nb < 1 \/ ~ AllListed(sn) THEN TRUE
  ELSE IF \E b \in 1..NL(sn) : ~ ChainOK(sn, b) THEN TRUE
  ELSE LET parts == [b \in 1..NL(sn) |-> Parts(sn, b)]
           nent == SumSeqOf([b \in 1..NL(sn) |-> SumLen([i \in 1..Len(parts[b]) |-> parts[b][i].e], 1)], 1)
           refs == UNION {UNION {{parts[b][q].e[i][1] : i \in 1..Len(parts[b][q].e)} : q \in 1..Len(parts[b])} : b \in 1..NL(sn)}
       IN \/ \E b \in 1..NL(sn) : \E q \in 1..Len(parts[b]) :
               LET p == parts[b][q] IN
               \/ p.n # Len(p.e) \/ p.n > sn.cap
               \/ \E i \in 1..Len(p.e) : ~ EntrySound(sn, b, p.e[i])
          \/ nent # Len(sn.recs)
          \/ refs # 1..Len(sn.recs)
          \/ Cardinality({sn.recs[i][1] : i \in 1..Len(sn.recs)}) # Len(sn.recs)

(* Statistics, as verify has to report them *)
Spilled(sn) == UNION {{Chain(sn, b)[i] : i \in 1..Len(Chain(sn, b))} : b \in 1..NL(sn)}
SpillHist(sn) ==
  [i \in 1..10 |-> (IF i = 1 THEN sn.nb - NL(sn) ELSE 0) + Cardinality({b \in 1..NL(sn) :
      LET l == Len(Chain(sn, b)) IN IF i < 10 THEN l = i - 1 ELSE l >= 9})]
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
\* figures beyond 31 bits are reported as the largest number
Most == 2147483647
RECURSIVE SumSeq(_, _)
SumSeq(f, i) == IF i > Len(f) THEN 0 ELSE LET r == SumSeq(f, i + 1) IN IF f[i] > Most - r THEN Most ELSE f[i] + r

=============================================================================
