---------------------------- MODULE FrameSyntax ----------------------------
(* The LC3 / LC3plus bitstream as a state machine.

   One behaviour parses one frame: an action per field of the bitstream, in
   bitstream order, each moving the two cursors of the frame.  Plain bits are
   taken from the end of the frame backwards, arithmetic-coded symbols from its
   start forwards; the frame is malformed as soon as the cursors have consumed
   more bits than the frame has, the code value leaves the coding interval, or
   a field has an illegal value.

   A frame record (recorded from the implementation, one JSON line each) is
     [dt, sr : configuration, n : byte count, b : bytes, ret : verdict given]
   ret = 0 good frame, 1 bad frame, -1 not to be compared.                   *)
EXTENDS LC3Params, TLC, Json, IOUtils, SequencesExt

Frames == ndJsonDeserialize(IOEnv.FRAMES)
Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

VARIABLES
  fr,     \* the frame under parsing (index in Frames)
  pc,     \* next field
  ac,     \* arithmetic decoder [low, range, fw: bytes taken forward]
  bw,     \* plain bits taken backward
  fld,    \* side information read so far
  q,      \* quantised coefficients read so far
  cx      \* context of the coefficient coder [st: state, seed: noise seed]

vars == <<fr, pc, ac, bw, fld, q, cx>>

R   == Frames[fr]
Dt  == R.dt
Sr  == R.sr
N   == R.n
NeF == Ne(Dt, Sr)

\* Evaluate an operator on the value of an expression, evaluated once
With(x, Op(_)) == CHOOSE y \in {Op(z) : z \in {x}} : TRUE

(* ------------------------------ cursors --------------------------------- *)

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
          32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
          8388608, 16777216, 33554432, 67108864, 134217728>>

\* Byte taken forward; zero past the end of the frame
FwByte(k) == IF k < N THEN R.b[k + 1] ELSE 0

\* k-th bit taken backward (zero past the start)
BwBit(k) == LET i == N - (k \div 8) IN
            IF i < 1 THEN 0 ELSE (R.b[i] \div Pow2[(k % 8) + 1]) % 2

RECURSIVE BwBitsR(_, _, _)
BwBitsR(k, n, j) == IF j = n THEN 0 ELSE BwBit(k + j) * Pow2[j + 1] + BwBitsR(k, n, j + 1)
Bits(k, n) == BwBitsR(k, n, 0)

\* 16 <= bit length of the range after renormalisation <= 24
RangeBits(r) == IF r >= 1048576 THEN IF r >= 4194304 THEN IF r >= 8388608 THEN 24 ELSE 23
                                     ELSE IF r >= 2097152 THEN 22 ELSE 21
                ELSE IF r >= 262144 THEN IF r >= 524288 THEN 20 ELSE 19
                     ELSE IF r >= 131072 THEN 18 ELSE 17

\* Bits of the frame not consumed; negative: over-read
Left(a, p) == 8 * N - p - 8 * (a.fw - 3) - (26 - RangeBits(a.range))

RECURSIVE Renorm(_)
Renorm(a) == IF a.range >= 65536 THEN a
             ELSE Renorm([ low   |-> ((a.low * 256) % 16777216) + FwByte(a.fw),
                           range |-> a.range * 256,
                           fw    |-> Min2(a.fw + 1, N) ])

\* Decoded symbol under a model, given as lower bounds in 1/1024
SymR(a) == a.range \div 1024
InInterval(a) == a.low < SymR(a) * 1024

\* the symbol s in 0..16 such that m[s + 1] <= v and (s = 16 or v < m[s + 2])
SymVal(a, m) ==
  LET v == a.low \div SymR(a) IN
  IF m[17] <= v THEN 16
  ELSE LET s1 == IF m[9] <= v THEN 8 ELSE 0
           s2 == IF m[s1 + 5] <= v THEN s1 + 4 ELSE s1
           s3 == IF m[s2 + 3] <= v THEN s2 + 2 ELSE s2 IN
       IF m[s3 + 2] <= v THEN s3 + 1 ELSE s3
SymNext(a, m, s) == LET lo == m[s + 1]
                        hi == IF s = 16 THEN 1024 ELSE m[s + 2] IN
                    Renorm([ low |-> a.low - SymR(a) * lo,
                             range |-> SymR(a) * (hi - lo), fw |-> a.fw ])

(* -------------------------- initial state ------------------------------- *)

Init == /\ fr \in 1..Len(Frames)
        /\ pc = "Bandwidth"
        /\ ac = [ low |-> (FwByte(0) * 256 + FwByte(1)) * 256 + FwByte(2),
                  range |-> 16777215, fw |-> 3 ]
        /\ bw = 0
        /\ fld = [bw |-> 0]
        /\ q = <<>>
        /\ cx = [st |-> 0, seed |-> 0]

(* ----------------------------- outcomes --------------------------------- *)

Bad(why) == /\ pc' = "bad"
            /\ fld' = [why |-> why]
            /\ UNCHANGED <<fr, ac, bw, q, cx>>

\* Go on with the next field, unless the frame is exhausted
Step(next, a, p, f) ==
  IF Left(a, p) < 0 THEN Bad("exhausted")
  ELSE /\ pc' = next /\ ac' = a /\ bw' = p /\ fld' = f /\ UNCHANGED fr

(* ------------------------------ fields ---------------------------------- *)

BwBits == IF HR(Sr) \/ Sr = 0 THEN 0 ELSE IF Sr = 1 THEN 1 ELSE IF Sr <= 3 THEN 2 ELSE 3

ReadBandwidth ==
  /\ pc = "Bandwidth"
  /\ LET v == IF BwBits = 0 THEN Sr ELSE Bits(bw, BwBits) IN
     IF v > Sr THEN Bad("bandwidth")
     ELSE Step("Side", ac, bw + BwBits, [bw |-> v]) /\ UNCHANGED <<q, cx>>

NqBits == 4 + Cardinality({l \in {32, 64, 128, 256, 512} : NeF > l})

ReadSide ==
  /\ pc = "Side"
  /\ LET nq == 2 * (Bits(bw, NqBits) + 1) IN
     IF nq > NeF THEN Bad("count")
     ELSE Step("Tns", ac, bw + NqBits + 9,
            fld @@ [ nq |-> nq, lsb |-> Bits(bw + NqBits, 1), g |-> Bits(bw + NqBits + 1, 8),
                     tns |-> <<>>, rc |-> <<>>, nf |-> 0 ])
          /\ UNCHANGED <<q, cx>>

\* Temporal noise shaping: for each filter a presence bit, the order, and as
\* many reflection coefficients; fld.tns is the sequence of filters read
NFilters == IF Dt >= 1 /\ fld.bw >= 3 THEN 2 ELSE 1
LpcWeighting == IF N * 8 < 120 * (1 + Dt) THEN 1 ELSE 0

ReadTns ==
  /\ pc = "Tns"
  /\ IF Len(fld.tns) = NFilters
     THEN Step("Pitch", ac, bw, fld) /\ UNCHANGED <<q, cx>>
     ELSE IF Bits(bw, 1) = 0
     THEN Step("Tns", ac, bw + 1, [fld EXCEPT !.tns = Append(@, <<>>)]) /\ UNCHANGED <<q, cx>>
     ELSE IF ~InInterval(ac) THEN Bad("code")
     ELSE LET m == TnsOrderModels[LpcWeighting + 1]
              s == SymVal(ac, m) IN
          IF Dt <= 1 /\ s + 1 > 4 THEN Bad("order")
          ELSE Step("TnsCoefs", SymNext(ac, m, s), bw + 1,
                    [fld EXCEPT !.rc = <<s + 1>>]) /\ UNCHANGED <<q, cx>>

\* fld.rc = <<order, coefficients...>>
ReadTnsCoef ==
  /\ pc = "TnsCoefs"
  /\ IF ~InInterval(ac) THEN Bad("code")
     ELSE LET i == Len(fld.rc) - 1
              m == TnsCoefModels[i + 1]
              s == SymVal(ac, m)
              rc == Append(fld.rc, s - 8) IN
          IF Len(rc) - 1 = rc[1]
          THEN Step("Tns", SymNext(ac, m, s), bw,
                    [fld EXCEPT !.tns = Append(@, Tail(rc)), !.rc = <<>>]) /\ UNCHANGED <<q, cx>>
          ELSE Step("TnsCoefs", SymNext(ac, m, s), bw, [fld EXCEPT !.rc = rc]) /\ UNCHANGED <<q, cx>>

ReadPitch ==
  /\ pc = "Pitch"
  /\ Step("Sns", ac, bw + 1, fld @@ [pitchp |-> Bits(bw, 1)]) /\ UNCHANGED <<q, cx>>

\* Spectral noise shaping: two code-book stages, the second one a pyramid
\* vector quantiser in one of four shapes
ShapeASize == 2390004
Shape2Size == 15158272
Shape3Size == 774912

ReadSns ==
  /\ pc = "Sns"
  /\ LET lf  == Bits(bw, 5)
         hf  == Bits(bw + 5, 5)
         msb == Bits(bw + 10, 1)
         gn  == Bits(bw + 11, 1 + msb)
         p1  == bw + 12 + msb
         lsa == Bits(p1, 1)
         mux == Bits(p1 + 1, 25 - msb)
         p2  == p1 + 26 - msb
         S(shape, gain, ia, la, ib, lb) ==
           Step("Ltpf", ac, p2, fld @@ [ lf |-> lf, hf |-> hf, shape |-> shape, gain |-> gain,
                ia |-> ia, lsa |-> la, ib |-> ib, lsb_b |-> lb ]) /\ UNCHANGED <<q, cx>>
     IN IF msb = 0
        THEN IF mux >= 14 * ShapeASize THEN Bad("shape")
             ELSE LET v == mux \div ShapeASize
                      ia == mux % ShapeASize IN
                  IF v >= 2 THEN S(0, gn, ia, lsa, (v - 2) \div 2, (v - 2) % 2)
                  ELSE S(1, 2 * gn + v, ia, lsa, 0, 0)
        ELSE IF mux >= Shape2Size + 2 * Shape3Size THEN Bad("shape")
             ELSE IF mux < Shape2Size THEN S(2, gn, mux, lsa, 0, 0)
             ELSE S(3, 2 * gn + ((mux - Shape2Size) % 2), (mux - Shape2Size) \div 2, lsa, 0, 0)

ReadLtpf ==
  /\ pc = "Ltpf"
  /\ IF fld.pitchp = 1
     THEN Step("Noise", ac, bw + 10, fld @@ [ltpf |-> Bits(bw, 1), pitch |-> Bits(bw + 1, 9)])
     ELSE Step("Noise", ac, bw, fld @@ [ltpf |-> 0, pitch |-> 0])
  /\ UNCHANGED <<q, cx>>

ReadNoise ==
  /\ pc = "Noise"
  /\ Step("Spectrum", ac, bw + 3, [fld EXCEPT !.nf = Bits(bw, 3)]) /\ UNCHANGED <<q, cx>>

(* ------------------------ quantised spectrum ---------------------------- *)

SrInd == IF HR(Sr) THEN 4 + (Sr - 5) ELSE Sr
HighRate == N > 20 * (1 + SrInd) /\ Sr < 6
MaxShl == IF HR(Sr) THEN 22 ELSE 14

\* Context of the pair of index i (from 0)
Lut(i) == SpecLookup[(IF HighRate THEN 2 ELSE 0)
                     + (IF i < (NeF + 2) \div 2 THEN 0 ELSE 1) + 1][cx.st + 1]

\* A pair: escapes, each followed by one more bit of both values, then the
\* symbol of the two most significant digits. The first escape of LSB mode
\* carries no bits. Result [ok, u, v, k, a, p, s], or [ok, why] when malformed
\* (the state of the pair, t, is passed as a value: see With)
RECURSIVE Pair(_, _)
PairStep(lut, t, s, a1) ==
  IF s < 16 THEN [ t EXCEPT !.a = a1, !.s = s,
                   !.u = @ + (s % 4) * Pow2[t.shl + 1], !.v = @ + (s \div 4) * Pow2[t.shl + 1] ]
  ELSE IF t.shl >= MaxShl THEN [ok |-> FALSE, why |-> "escape"]
  ELSE IF fld.lsb = 1 /\ t.shl = 0
  THEN With([t EXCEPT !.a = a1, !.k = 1, !.shl = 1], LAMBDA w : Pair(lut, w))
  ELSE With([t EXCEPT !.a = a1, !.p = @ + 2, !.k = Min2(@ + 1, 3), !.shl = @ + 1,
                      !.u = @ + BwBit(t.p) * Pow2[t.shl + 1],
                      !.v = @ + BwBit(t.p + 1) * Pow2[t.shl + 1]], LAMBDA w : Pair(lut, w))
Pair(lut, t) ==
  IF ~InInterval(t.a) THEN [ok |-> FALSE, why |-> "code"]
  ELSE IF Left(t.a, t.p) < 0 THEN [ok |-> FALSE, why |-> "exhausted"]
  ELSE With(SymVal(t.a, SpecModels[lut[t.k + 1] + 1]), LAMBDA s :
       With(SymNext(t.a, SpecModels[lut[t.k + 1] + 1], s), LAMBDA a1 : PairStep(lut, t, s, a1)))

ReadPair ==
  /\ pc = "Spectrum"
  /\ LET i == Len(q) IN
     IF i = fld.nq THEN pc' = (IF fld.lsb = 1 THEN "Lsb" ELSE "Residual")
                        /\ fld' = [fld EXCEPT !.rc = <<0, Left(ac, bw)>>]
                        /\ UNCHANGED <<fr, ac, bw, q, cx>>
     ELSE \E r \in {Pair(Lut(i), [ok |-> TRUE, a |-> ac, p |-> bw, k |-> 0, shl |-> 0,
                                   u |-> 0, v |-> 0, s |-> 0])} :
       IF ~r.ok THEN Bad(r.why)
       ELSE LET p1 == r.p + (IF r.u > 0 THEN 1 ELSE 0)
                p2 == p1  + (IF r.v > 0 THEN 1 ELSE 0)
                x == IF r.u > 0 /\ BwBit(r.p) = 1 THEN -r.u ELSE r.u
                y == IF r.v > 0 /\ BwBit(p1)  = 1 THEN -r.v ELSE r.v IN
            IF Left(r.a, p2) < 0 THEN Bad("exhausted")
            ELSE /\ pc' = "Spectrum" /\ ac' = r.a /\ bw' = p2 /\ UNCHANGED <<fr, fld>>
                 /\ q' = q \o <<x, y>>
                 /\ cx' = [ st |-> ((cx.st * 16) + (IF r.k > 1 THEN 12 + r.k
                                      ELSE 1 + ((r.s % 4) + (r.s \div 4)) * (r.k + 1))) % 256,
                            seed |-> (cx.seed + (r.u % 32768) * i + (r.v % 32768) * (i + 1)) % 65536 ]

(* -------- the bits that remain refine the coefficients ------------------ *)

\* Residual: one bit per nonzero coefficient, in order, repeated (HR) while
\* bits remain, at most 20 times; fld.res is the sequence of bits
ReadResidual ==
  /\ pc = "Residual"
  /\ LET nnz == Cardinality({i \in 1..Len(q) : q[i] # 0})
         nb  == Min2(Left(ac, bw), nnz * (IF HR(Sr) THEN 20 ELSE 1)) IN
     Step("good", ac, bw, fld @@ [res |-> [k \in 1..nb |-> BwBit(bw + k - 1)]])
  /\ UNCHANGED <<q, cx>>

\* Least significant bits: for each pair holding a value of 4 or more, one bit
\* for each value, and the sign of a value that was zero; stops anywhere when
\* no bit remains.  fld.rc = <<next index, bits available>>
LsbOf(x, i, n, p) ==
  IF n <= 0 THEN [x |-> x, n |-> n, p |-> p, d |-> 0]
  ELSE IF BwBit(p) = 0 THEN [x |-> x, n |-> n - 1, p |-> p + 1, d |-> 0]
  ELSE IF x # 0 THEN [x |-> IF x < 0 THEN x - 1 ELSE x + 1, n |-> n - 1, p |-> p + 1, d |-> i]
  ELSE IF n - 1 <= 0 THEN [x |-> 0, n |-> 0, p |-> p + 1, d |-> 0]
  ELSE [x |-> IF BwBit(p + 1) = 1 THEN -1 ELSE 1, n |-> n - 2, p |-> p + 2, d |-> i]

Mag(x) == IF x < 0 THEN -x ELSE x

ReadLsb ==
  /\ pc = "Lsb"
  /\ LET i == fld.rc[1]
         n == fld.rc[2] IN
     IF i >= fld.nq \/ n <= 0
     THEN Step("good", ac, bw, fld @@ [res |-> <<>>]) /\ UNCHANGED <<q, cx>>
     ELSE IF Mag(q[i + 1]) < 4 /\ Mag(q[i + 2]) < 4
     THEN /\ fld' = [fld EXCEPT !.rc = <<i + 2, n>>] /\ UNCHANGED <<fr, pc, ac, bw, q, cx>>
     ELSE LET r == LsbOf(q[i + 1], i, n, bw)
              t == LsbOf(q[i + 2], i + 1, r.n, r.p) IN
          /\ pc' = "Lsb" /\ bw' = t.p /\ UNCHANGED <<fr, ac>>
          /\ fld' = [fld EXCEPT !.rc = <<i + 2, t.n>>]
          /\ q' = [q EXCEPT ![i + 1] = r.x, ![i + 2] = t.x]
          /\ cx' = [cx EXCEPT !.seed = (@ + r.d + t.d) % 65536]

(* ------------------------------------------------------------------------ *)

Next == \/ ReadBandwidth \/ ReadSide \/ ReadTns \/ ReadTnsCoef \/ ReadPitch \/ ReadSns
        \/ ReadLtpf \/ ReadNoise \/ ReadPair \/ ReadResidual \/ ReadLsb

Spec == Init /\ [][Next]_vars

Done == pc \in {"good", "bad"}

(* ------------------------------ properties ------------------------------ *)

\* The verdict given by the implementation is the one of the syntax
VerdictOk == (Done /\ R.ret # -1) => (R.ret = (IF pc = "good" THEN 0 ELSE 1))

\* Fields stay in their range on every frame that parses
FieldsOk == pc = "good" =>
  /\ fld.bw <= Sr /\ fld.nq \in 2..NeF /\ Len(q) = fld.nq
  /\ fld.g \in 0..255 /\ fld.nf \in 0..7
  /\ fld.lf \in 0..31 /\ fld.hf \in 0..31 /\ fld.shape \in 0..3
  /\ Left(ac, bw) >= 0

\* The decoder never holds more bits than the frame has
CursorsOk == pc # "bad" => Left(ac, bw) >= 0 /\ ac.fw <= N

\* Frames produced by an encoder
EncoderFrame == "enc" \in DOMAIN R /\ R.enc = 1
WellFormed == (EncoderFrame /\ Done) =>
  /\ pc = "good"
  /\ (fld.ltpf = 1 => fld.pitchp = 1)
  /\ (fld.pitchp = 1 => fld.pitch \in 0..511)
  \* the last coded pair is not zero, unless nothing is coded
  /\ (fld.nq > 2 => (q[fld.nq - 1] # 0 \/ q[fld.nq] # 0))

\* What the frame denotes, for the numeric interpretation
Denotation == [ fr |-> fr, ok |-> pc = "good", why |-> IF pc = "bad" THEN fld.why ELSE "",
                f |-> IF pc = "good" THEN fld ELSE <<>>, q |-> q, seed |-> cx.seed,
                left |-> IF pc = "good" THEN Left(ac, bw) ELSE -1, fw |-> ac.fw, bw |-> bw ]
EmitOk == (Emit /\ Done) => PrintT(ToJson(Denotation))
=============================================================================
