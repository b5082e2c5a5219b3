-------------------------------- MODULE Bits --------------------------------
(* Bits the fields of a frame take, and those of the pairs of coefficients as
   an encoder counts them (1/2048 of a bit).                                 *)
EXTENDS LC3Params, FiniteSets

SrIndex(sr) == IF HR(sr) THEN 4 + (sr - 5) ELSE sr
HighRate(sr, n) == n > 20 * (1 + SrIndex(sr)) /\ sr < 6
LsbMode(sr, n) == n >= 20 * (3 + SrIndex(sr)) /\ sr < 6

NqBits(dt, sr) == 4 + Cardinality({l \in {32, 64, 128, 256, 512} : Ne(dt, sr) > l})
BwBits(sr) == IF HR(sr) \/ sr = 0 THEN 0 ELSE IF sr = 1 THEN 1 ELSE IF sr <= 3 THEN 2 ELSE 3
LpcWeighting(dt, n) == IF n * 8 < 120 * (1 + dt) THEN 1 ELSE 0

RECURSIVE CoefBits(_, _)
CoefBits(rc, k) == IF k > Len(rc) THEN 0 ELSE TnsCoefBits[k][9 + rc[k]] + CoefBits(rc, k + 1)
FilterBits(rc, w) ==
  LET b == 2048 + (IF Len(rc) = 0 THEN 0 ELSE TnsOrderBits[w + 1][Len(rc)] + CoefBits(rc, 1)) IN
  (b + 2047) \div 2048
RECURSIVE TnsBits(_, _, _)
TnsBits(tns, w, k) == IF k > Len(tns) THEN 0 ELSE FilterBits(tns[k], w) + TnsBits(tns, w, k + 1)

\* The arithmetic coder keeps a margin on the frame
Margin(sr, n) == 3 + (IF HR(sr) THEN 1 ELSE 0) + Min2((n - 1) \div 160, 2)

\* Left for the spectrum
Budget(dt, sr, n, pitchp, tns) ==
  8 * n - NqBits(dt, sr) - Margin(sr, n) - BwBits(sr) - (1 + 10 * pitchp) - 38
        - TnsBits(tns, LpcWeighting(dt, n), 1) - 8 - 3

\* An operator on the value of an expression, evaluated once
Once(x, Op(_)) == CHOOSE y \in {Op(z) : z \in {x}} : TRUE

RECURSIVE Escapes(_, _, _)
Escapes(lut, m, k) == IF m = 0 THEN 0 ELSE SpecBits[lut[Min2(k, 3) + 1] + 1][17] + Escapes(lut, m \div 2, k + 1)
RECURSIVE BitSize(_)
BitSize(m) == IF m = 0 THEN 0 ELSE 1 + BitSize(m \div 2)
RECURSIVE Shr(_, _)
Shr(v, k) == IF k = 0 THEN v ELSE Shr(v \div 2, k - 1)

\* Magnitudes a and b, at i and i + 1, in context st; high: high rate, lsbm:
\* the least significant bits may be discarded
\* -> [s : significant, bits, nl : least significant bits, st : context after]
PairBits(ne, high, lsbm, i, st, a, b) ==
  Once(SpecLookup[(IF high THEN 2 ELSE 0) + (IF i < (ne + 2) \div 2 THEN 0 ELSE 1) + 1][st + 1], LAMBDA lut :
  IF a < 4 /\ b < 4
  THEN [s |-> a > 0 \/ b > 0,
        bits |-> (IF a > 0 THEN 2048 ELSE 0) + (IF b > 0 THEN 2048 ELSE 0) + SpecBits[lut[1] + 1][a + 4 * b + 1],
        nl |-> 0,
        st |-> (st * 16 + 1 + a + b) % 256]
  ELSE
  Once(Max2(a, b) \div 4, LAMBDA m :
  Once(BitSize(m), LAMBDA k :
  Once(Shr(a, k), LAMBDA u :
  Once(Shr(b, k), LAMBDA v :
  LET k3 == Min2(k, 3) IN
  [s |-> TRUE,
   bits |-> (IF a > 0 THEN 2048 ELSE 0) + (IF b > 0 THEN 2048 ELSE 0) + 4096 * k
            + (IF lsbm THEN SpecBits[lut[1] + 1][17] - 4096 + Escapes(lut, m \div 2, 1) ELSE Escapes(lut, m, 0))
            + SpecBits[lut[k3 + 1] + 1][u + 4 * v + 1],
   nl |-> IF lsbm THEN 2 + (IF a = 1 THEN 1 ELSE 0) + (IF b = 1 THEN 1 ELSE 0) ELSE 0,
   st |-> (st * 16 + (IF k > 1 THEN 12 + k3 ELSE 1 + 2 * (u + v))) % 256])))))
=============================================================================
