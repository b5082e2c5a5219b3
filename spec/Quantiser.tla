----------------------------- MODULE Quantiser -----------------------------
(* Quantisation and coding decisions of one encoded frame.

   A record holds what the frame denotes (fields and coefficients found by
   FrameSyntax.tla) and the spectrum of the input in units of the transmitted
   gain, once the transmitted envelopes are undone, as intervals that cover
   the single precision of an encoder:
     lo, hi   magnitude quantised, at least and at most, of each coefficient
     d, t     of each coefficient transmitted: |input| - |transmitted| and the
              tolerance on it, in 1/2^20
     sg       1 when the signs agree
     zl, zh   magnitude of the input at least and at most, in 1/2^12
   The machine goes through the pairs counting bits as an encoder does: it
   decides how many are transmitted, and whether their least significant bits
   have to be sacrificed.                                                    *)
EXTENDS Bits, TLC, Json, IOUtils, SequencesExt

Frames == ndJsonDeserialize(IOEnv.FRAMES)

VARIABLES fr, pc, i, bits, nl, nend, bend, st, why
vars == <<fr, pc, i, bits, nl, nend, bend, st, why>>

R   == Frames[fr]
Hr  == HR(R.sr)
NeF == Ne(R.dt, R.sr)
Lsb == R.lsb = 1
\* Evaluate an operator on the value of an expression, evaluated once
With(x, Op(_)) == CHOOSE y \in {Op(z) : z \in {x}} : TRUE
Abs(x) == IF x < 0 THEN -x ELSE x

One == 1048576
\* The quantiser rounds up from 10/16, or half in high resolution
Off == IF Hr THEN One \div 2 ELSE (6 * One) \div 16

\* An empty spectrum is transmitted as one null pair
Count == IF R.nq = 2 /\ R.q[1] = 0 /\ R.q[2] = 0 THEN 0 ELSE R.nq

(* ---- magnitudes: coefficients are numbered from 0, pairs are (p, p+1) ---- *)

PairOf(k) == k - (k % 2)
Big(p) == R.q[p + 1] >= 4 \/ R.q[p + 2] >= 4

\* In LSB mode, the bits of the pairs that fit are sent after the spectrum
LsbSent(p) == p < R.li - 2 \/ (p < R.li /\ R.ln > 0)
Whole(k) == ~Lsb \/ ~Big(PairOf(k)) \/ LsbSent(PairOf(k))

\* Values an encoder may have had for a transmitted coefficient
Had(k) == LET v == R.q[k + 1] IN
          IF Whole(k) \/ v % 2 = 1 THEN {v}
          ELSE {w \in {v, v + 1} : R.lo[k + 1] <= w /\ w <= R.hi[k + 1]}

\* -1: not known
A(k) == IF k < Count
        THEN IF Cardinality(Had(k)) = 1 THEN CHOOSE v \in Had(k) : TRUE ELSE -1
        ELSE IF R.lo[k + 1] = R.hi[k + 1] THEN R.lo[k + 1] ELSE -1

MagnitudeOk(k) ==
  LET d == R.d[k + 1]
      t == R.t[k + 1]
      up == (One - Off) + (IF Whole(k) \/ R.q[k + 1] % 2 = 1 THEN 0 ELSE One) IN
  /\ d < up + t /\ (d >= -Off - t \/ R.q[k + 1] = 0)
  /\ (R.q[k + 1] # 0 => R.sg[k + 1] = 1)

(* ---- residual bits refine the nonzero coefficients, in order ---- *)

Half(n) == CASE n = 0 -> One [] n = 1 -> 524288 [] n = 2 -> 262144 [] n = 3 -> 131072 [] n = 4 -> 65536 [] OTHER -> 65536 \div (2 ^ Min2(n - 4, 17))

\* Offset the bits of the j-th of nz nonzero coefficients describe, after m
RECURSIVE Refined(_, _, _, _)
Refined(j, nz, neg, m) ==
  IF (m * nz) + j > Len(R.res) THEN [r |-> 0, n |-> m]
  ELSE With(Refined(j, nz, neg, m + 1), LAMBDA x :
       LET up == (R.res[(m * nz) + j] = 1) # neg
           s == IF Hr THEN Half(m + 2) ELSE IF up THEN (5 * One) \div 16 ELSE (3 * One) \div 16 IN
       [r |-> x.r + (IF up THEN s ELSE -s), n |-> x.n])

ResidualOk(j, nz, k) ==
  With(Refined(j, nz, R.neg[k + 1] = 1, 0), LAMBDA x :
  x.n > 0 =>
    Abs(R.d[k + 1] - x.r) <= R.t[k + 1] + 8 +
      (IF Hr THEN Half(x.n + 1) ELSE IF x.r > 0 THEN (5 * One) \div 16 ELSE (3 * One) \div 16))

\* The nonzero coefficients, in order
Nonzero == SelectSeq([k \in 1..R.nq |-> k - 1], LAMBDA k : R.q[k + 1] # 0)

(* ---- bit count ---- *)

Limit == Budget(R.dt, R.sr, R.n, R.pitchp, R.tns) * 2048

CountPair(a, b) ==
  \E x \in {PairBits(NeF, HighRate(R.sr, R.n), LsbMode(R.sr, R.n), i, st, a, b)} :
    /\ bits' = bits + x.bits
    /\ nl' = nl + x.nl
    /\ IF x.s /\ bits + x.bits <= Limit THEN nend' = i + 2 /\ bend' = bits + x.bits
       ELSE UNCHANGED <<nend, bend>>
    /\ st' = x.st
    /\ i' = i + 2

(* ---- noise level: mean magnitude over the runs of zeros ---- *)

BwStop == Ne(R.dt, Min2(R.bw, 4))
W == 1 + (IF R.dt >= 2 THEN 1 ELSE 0) + (IF R.dt >= 3 THEN 1 ELSE 0)

\* Sums of the bounds, and count: r = <<run of zeros, least, most, count>>
NoiseStep(r, k) ==
  LET z == IF k < Min2(Count, BwStop) /\ A(k) # 0 THEN 0 ELSE r[1] + 1 IN
  IF z > 2 * W THEN <<z, r[2] + R.zl[k - W + 1], r[3] + R.zh[k - W + 1], r[4] + 1>>
  ELSE <<z, r[2], r[3], r[4]>>
NoiseSum == FoldLeft(NoiseStep, <<0, 0, 0, 0>>, [j \in 1..(BwStop + W - (6 * (1 + R.dt) - W)) |-> 6 * (1 + R.dt) - W + j - 1])

Level(sum, ns) == Clip(8 - ((sum + 128 * ns) \div (256 * ns)), 0, 7)
NoiseKnown == \A k \in 0..(Min2(Count, BwStop) - 1) : A(k) # -1
NoiseOk == NoiseKnown =>
  With(NoiseSum, LAMBDA x :
    IF x[4] = 0 THEN R.nf = 7
    ELSE R.nf <= Level(x[2], x[4]) /\ R.nf >= Level(x[3], x[4]))

(* ---- the machine ---- *)

Init == /\ fr \in 1..Len(Frames)
        /\ pc = "Magnitudes" /\ why = ""
        /\ i = 0 /\ bits = 0 /\ nl = 0 /\ nend = 0 /\ bend = 0 /\ st = 0

Stay == UNCHANGED <<i, bits, nl, nend, bend, st>>
Bad(w) == pc' = "bad" /\ why' = w /\ Stay

First(S) == CHOOSE k \in S : \A j \in S : k <= j

Magnitudes ==
  /\ pc = "Magnitudes"
  /\ LET S == {k \in 0..(Count - 1) : ~MagnitudeOk(k)} IN
     IF S # {} THEN Bad("the coefficient " \o ToString(First(S)) \o " is not the one of the input")
     ELSE pc' = "Residual" /\ Stay /\ UNCHANGED why
  /\ UNCHANGED fr

Residual ==
  /\ pc = "Residual"
  /\ IF ~With(Nonzero, LAMBDA z : \A j \in 1..Min2(Len(z), Len(R.res)) : ResidualOk(j, Len(z), z[j]))
     THEN Bad("the residual bits do not refine the coefficients")
     ELSE pc' = "Count" /\ Stay /\ UNCHANGED why
  /\ UNCHANGED fr

\* Goes on until the budget is passed, or a magnitude is not known
CountStep ==
  /\ pc = "Count" /\ UNCHANGED <<fr, why>>
  /\ IF i >= NeF \/ bits > Limit THEN pc' = "End" /\ Stay
     ELSE IF A(i) = -1 \/ A(i + 1) = -1 THEN pc' = "EndUnknown" /\ Stay
     ELSE CountPair(A(i), A(i + 1)) /\ pc' = "Count"

Noise == IF NoiseOk THEN pc' = "good" /\ Stay /\ UNCHANGED why
         ELSE Bad("the noise level is not the one of the input")

End ==
  /\ pc = "End" /\ UNCHANGED fr
  /\ IF Count # nend THEN Bad("count of coefficients: " \o ToString(nend) \o " fit in the frame, " \o ToString(Count) \o " are transmitted")
     ELSE IF Lsb # (LsbMode(R.sr, R.n) /\ bend + nl * 2048 > Limit) THEN Bad("least significant bits")
     ELSE Noise

EndUnknown ==
  /\ pc = "EndUnknown" /\ UNCHANGED fr
  /\ IF Count < nend THEN Bad("count of coefficients: at least " \o ToString(nend) \o " fit in the frame, " \o ToString(Count) \o " are transmitted")
     ELSE IF Lsb /\ ~LsbMode(R.sr, R.n) THEN Bad("least significant bits")
     ELSE Noise

Next == Magnitudes \/ Residual \/ CountStep \/ End \/ EndUnknown
Spec == Init /\ [][Next]_vars

\* Prints the frames that are not as an encoder would have made them
Report == pc \in {"bad", "good"} =>
            PrintT(ToJson([fr |-> fr, ok |-> pc = "good", why |-> why, full |-> bits > Limit, seen |-> i, nend |-> nend]))
=============================================================================
