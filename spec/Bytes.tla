------------------------------- MODULE Bytes -------------------------------
(* Little endian numbers in sequences of bytes. 32-bit numbers are pairs of
   16-bit halves <<high, low>>: TLC integers have 32 bits and a sign.        *)
EXTENDS Integers, Sequences

B(f, i) == f[i + 1]                     \* byte at offset i, from 0
U16(f, i) == B(f, i) + 256 * B(f, i + 1)
U32(f, i) == <<U16(f, i + 2), U16(f, i)>>
LE16(v) == <<v % 256, v \div 256>>
LE32(p) == LE16(p[2]) \o LE16(p[1])

Pair(v) == <<v \div 65536, v % 65536>>
\* Value of a pair, -1 when it does not fit in 31 bits
Val(p) == IF p[1] >= 32768 THEN -1 ELSE p[1] * 65536 + p[2]
Small(p) == p[1] < 32768
Zero(p) == p[1] = 0 /\ p[2] = 0

\* a + b modulo 2^32
Add32(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
\* 16 x 16 bits, by bytes
Mul16(a, b) ==
  LET al == a % 256  ah == a \div 256
      l == al * b  h == ah * b                \* each below 2^24
      s == (l \div 256) + h IN                 \* below 2^25
  <<s \div 256, (s % 256) * 256 + (l % 256)>>
\* pair x 16 bits, modulo 2^32
Mul32(p, b) == LET l == Mul16(p[2], b)
                   h == Mul16(p[1], b) IN <<(l[1] + h[2]) % 65536, l[2]>>
\* pair divided by a 16-bit number
Div32(p, b) ==
  LET q1 == p[1] \div b  r1 == p[1] % b        \* r1 < b < 2^16
      \* (r1 * 65536 + p[2]) / b, by bytes: each step below 2^24
      x2 == r1 * 256 + (p[2] \div 256)
      q2 == x2 \div b  r2 == x2 % b
      x3 == r2 * 256 + (p[2] % 256)
      q3 == x3 \div b IN
  <<q1, q2 * 256 + q3>>
=============================================================================
