-------------------------------- MODULE XXH64 --------------------------------
(* The hash function of the documented format (README.md: "Hash functions":   *)
(* XXH64 with the salt as seed), on bytes.  A 64-bit word is a sequence of    *)
(* eight bytes, least significant first: TLC's integers have 32 bits.         *)
EXTENDS Integers, Sequences, Bitwise

P1 == <<135, 202, 235, 133, 177, 121, 55, 158>>      \* 0x9E3779B185EBCA87
P2 == <<79, 235, 212, 39, 61, 174, 178, 194>>        \* 0xC2B2AE3D27D4EB4F
P3 == <<249, 121, 55, 158, 177, 103, 86, 22>>        \* 0x165667B19E3779F9
P4 == <<99, 174, 178, 194, 119, 202, 235, 133>>      \* 0x85EBCA77C2B2AE63
P5 == <<197, 103, 86, 22, 47, 235, 212, 39>>         \* 0x27D4EB2F165667C5
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Small64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>

\* explicit tuples: TLC evaluates them once, function constructors at every access
T(F(_)) == <<F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8)>>
\* bytes from sums of columns
Carry(c) == LET r1 == c[1]
                r2 == c[2] + r1 \div 256
                r3 == c[3] + r2 \div 256
                r4 == c[4] + r3 \div 256
                r5 == c[5] + r4 \div 256
                r6 == c[6] + r5 \div 256
                r7 == c[7] + r6 \div 256
                r8 == c[8] + r7 \div 256
            IN <<r1 % 256, r2 % 256, r3 % 256, r4 % 256, r5 % 256, r6 % 256, r7 % 256, r8 % 256>>
Add(a, b) == Carry(T(LAMBDA j : a[j] + b[j]))
Neg(a) == Add(T(LAMBDA j : 255 - a[j]), Small64(1))
XorW(a, b) == T(LAMBDA j : a[j] ^^ b[j])
\* column j of a product: the sum over x + y = j + 1 of a[x] * b[y]
Term(a, b, j, x) == IF x <= j THEN a[x] * b[j + 1 - x] ELSE 0
Col(a, b, j) == Term(a, b, j, 1) + Term(a, b, j, 2) + Term(a, b, j, 3) + Term(a, b, j, 4)
                + Term(a, b, j, 5) + Term(a, b, j, 6) + Term(a, b, j, 7) + Term(a, b, j, 8)
Mul(a, b) == Carry(T(LAMBDA j : Col(a, b, j)))
\* left rotation by r bits; logical right shift by r bits
Rotl(a, r) == LET q == r \div 8
                  p == 2 ^ (r % 8)
                  at(j) == a[((j - 1 - q + 16) % 8) + 1]
              IN T(LAMBDA j : ((at(j) * p) % 256) + ((at(j - 1) * p) \div 256))
Shr(a, r) == LET q == r \div 8
                 p == 2 ^ (r % 8)
                 at(j) == IF j + q > 8 THEN 0 ELSE a[j + q]
             IN T(LAMBDA j : (at(j) \div p) + ((at(j + 1) * (256 \div p)) % 256))

Word8(d, o) == T(LAMBDA j : d[o + j])
Word4(d, o) == <<d[o + 1], d[o + 2], d[o + 3], d[o + 4], 0, 0, 0, 0>>
Round(acc, in) == Mul(Rotl(Add(acc, Mul(in, P2)), 31), P1)
Merge(h, acc) == Add(Mul(XorW(h, Round(Zero, acc)), P1), P4)

Avalanche(h) ==
  LET a == Mul(XorW(h, Shr(h, 33)), P2)
      b == Mul(XorW(a, Shr(a, 29)), P3)
  IN XorW(b, Shr(b, 32))

RECURSIVE Tail64(_, _, _)
Tail64(d, o, h) ==
  LET n == Len(d) - o IN
  IF n >= 8 THEN LET g == Add(Mul(Rotl(XorW(h, Round(Zero, Word8(d, o))), 27), P1), P4) IN Tail64(d, o + 8, g)
  ELSE IF n >= 4 THEN LET g == Add(Mul(Rotl(XorW(h, Mul(Word4(d, o), P1)), 23), P2), P3) IN Tail64(d, o + 4, g)
  ELSE IF n >= 1 THEN LET g == Mul(Rotl(XorW(h, Mul(Small64(d[o + 1]), P5)), 11), P1) IN Tail64(d, o + 1, g)
  ELSE h

RECURSIVE Stripes(_, _, _)
Stripes(d, o, acc) ==
  IF Len(d) - o < 32 THEN acc
  ELSE LET nx == <<Round(acc[1], Word8(d, o)), Round(acc[2], Word8(d, o + 8)), Round(acc[3], Word8(d, o + 16)), Round(acc[4], Word8(d, o + 24))>> IN Stripes(d, o + 32, nx)

Hash64(d, seed) ==
  LET n == Len(d)
      long == n >= 32
      acc == IF long THEN Stripes(d, 0, <<Add(Add(seed, P1), P2), Add(seed, P2), seed, Add(seed, Neg(P1))>>) ELSE << >>
      h0 == IF long
            THEN LET s == Add(Add(Rotl(acc[1], 1), Rotl(acc[2], 7)), Add(Rotl(acc[3], 12), Rotl(acc[4], 18)))
                 IN Merge(Merge(Merge(Merge(s, acc[1]), acc[2]), acc[3]), acc[4])
            ELSE Add(seed, P5)
      h1 == Add(h0, Small64(n))
      h2 == Tail64(d, (n \div 32) * 32, h1)
  IN Avalanche(h2)
\* published: the hash of the empty string with seed 0 is EF46DB3751D8E999; of "a" D24EC4F1A98C6E5B; of "abc" 44BC2CF5AD770999
ASSUME /\ Hash64(<< >>, Zero) = <<153, 233, 216, 81, 55, 219, 70, 239>>
       /\ Hash64(<<97>>, Zero) = <<91, 110, 140, 169, 241, 196, 78, 210>>
       /\ Hash64(<<97, 98, 99>>, Zero) = <<153, 9, 119, 173, 245, 44, 188, 68>>
=============================================================================
