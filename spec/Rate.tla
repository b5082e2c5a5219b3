-------------------------------- MODULE Rate --------------------------------
(* The rate loop of an encoder session: the gain index of each frame.

   One behaviour follows one session, an action per frame.  The gain is the
   smallest at which the cost of the spectrum, estimated from the energies of
   its groups of four coefficients, fits the bits of the frame; it keeps the
   coefficients in range; it is adjusted once, from the count of bits it
   leads to.  The error of the estimate is carried, smoothed, to the frames
   that follow, until the gain is decided by the range.

   The spectrum is known to the precision of an encoder: the state is an
   interval for each of the histories that explain the gains transmitted so
   far.  A frame that none explains is refused.

   A session: [dt, sr, fr : frames]; a frame:
     n, g, pitchp, tns   size, gain index and side information transmitted
     el, eh   energies of the groups, at least and at most (1/1024 dB)
     pl, ph   magnitude of the peak, at least and at most (1/1024 dB);
              empty spectrum: pl = ph = -1000000
     m        magnitudes quantised at some gains: << [g, lo, hi, wide] >>,
              without the last ones that are zero; hi empty when the same as
              lo; wide: too little is known of them                           *)
EXTENDS Bits, TLC, Json, IOUtils, SequencesExt

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, k,
          Poss,    \* possible states [ol, oh : offset (1/65536 bit), sl, sh : spare bits]
          why, info
vars == <<tr, k, Poss, why, info>>

S == Sessions[tr]
F == S.fr[k]
Hr == HR(S.sr)
NeF == Ne(S.dt, S.sr)
With(v, Op(_)) == CHOOSE y \in {Op(z) : z \in {v}} : TRUE

U == 65536
Forty == 40 * U
FloorDiv(a, b) == a \div b
CeilDiv(a, b) == -((-a) \div b)

\* Smoothed offset, at least and at most; bits spared beyond any the same
Spare(x) == Clip(x, -8000, 8000) * U
Smooth(o, s) == 4 * o + Clip(o + s, -Forty, Forty)
OffLo(p) == FloorDiv(Smooth(p.ol, Spare(p.sl)), 5) - 2
OffHi(p) == CeilDiv(Smooth(p.oh, Spare(p.sh)), 5) + 2

GOff == Min2(IF S.sr = 6 THEN 181 ELSE 255,
             105 + 5 * (1 + SrIndex(S.sr)) + Min2((F.n * 8) \div (10 * (1 + SrIndex(S.sr))), 115))

(* ---- estimation: cost in 1/1024 of 1.4 bits, at a gain ---- *)

GroupCost(d) == IF d < 0 THEN 2765 ELSE IF d < 43 * 1024 THEN d + 7 * 1024 ELSE 2 * d - 36 * 1024
\* Cost of the groups up to the last above the gain
Sum(e, j, gn) == FoldLeft(LAMBDA c, x : c + GroupCost(x - gn), 0, SubSeq(e, 1, j))
RECURSIVE LastAbove(_, _, _)
LastAbove(e, j, gn) == IF j = 0 THEN 0 ELSE IF e[j] >= gn THEN j ELSE LastAbove(e, j - 1, gn)
Cost(e, g) == With((20 * 1024 * g) \div 28, LAMBDA gn : With(LastAbove(e, Len(e), gn), LAMBDA j : Sum(e, j, gn)))

\* The smallest gain whose cost fits
RECURSIVE Search(_, _, _, _)
Search(e, fit, g, i) ==
  IF i = 0 THEN g
  ELSE With(IF Cost(e, g - i) <= fit THEN g - i ELSE g, LAMBDA x : Search(e, fit, x, i \div 2))
SearchV(e, fit) == With(e, LAMBDA x : With(fit, LAMBDA y : With(255 - GOff, LAMBDA z : Search(x, y, z, 128))))
Estimates(nlo, nhi) == SearchV(F.el, (nhi * 7168) \div 5 + 8) .. SearchV(F.eh, (nlo * 7168) \div 5 - 8)

\* The smallest gain that keeps the peak in range (1/1024 dB)
PeakRange == IF Hr THEN 141797 ELSE 92476
MinGain(p) == IF p = -1000000 THEN -GOff
              ELSE Clip(CeilDiv(28 * (p - PeakRange), 20 * 1024), -GOff, 255 - GOff)
MinGains == MinGain(F.pl) .. MinGain(F.ph)

(* ---- count of bits at a gain: intervals, by context ---- *)

RECURSIVE Merge(_)
Merge(X) == IF X = {} THEN {}
            ELSE With(CHOOSE x \in X : TRUE, LAMBDA x :
                 With({y \in X : y.st = x.st}, LAMBDA Y :
                 {[st |-> x.st,
                   bl |-> CHOOSE v \in {y.bl : y \in Y} : \A y \in Y : v <= y.bl,
                   bh |-> CHOOSE v \in {y.bh : y \in Y} : \A y \in Y : v >= y.bh,
                   el |-> CHOOSE v \in {y.el : y \in Y} : \A y \in Y : v <= y.el,
                   eh |-> CHOOSE v \in {y.eh : y \in Y} : \A y \in Y : v >= y.eh]} \cup Merge(X \ Y)))

\* bits so far, and up to the last significant pair; the least significant
\* bits count whatever mode is used
Pair(x, high, lsbm, i, a, b) ==
  With(PairBits(NeF, high, lsbm, i, x.st, a, b), LAMBDA p :
    LET c == p.bits + 2048 * p.nl IN
    IF p.s THEN [st |-> p.st, bl |-> x.bl + c, bh |-> x.bh + c, el |-> x.bl + c, eh |-> x.bh + c]
    ELSE [st |-> p.st, bl |-> x.bl + c, bh |-> x.bh + c, el |-> x.el, eh |-> x.eh])

\* A value of each class of lo..hi that may count differently: the bits depend
\* on the first three bits at most of large magnitudes
Reps(l, h) == IF l = h THEN {l} ELSE IF h <= 16 THEN l..h
              ELSE With(2 ^ (BitSize(h) - 3), LAMBDA q : {l} \cup {x * q : x \in ((l \div q) + 1)..(h \div q)})

CountStep(X, lo, hi, high, lsbm, i) ==
  With({Pair(x, high, lsbm, i, a, b) : x \in X, a \in Reps(lo[i + 1], hi[i + 1]), b \in Reps(lo[i + 2], hi[i + 2])},
       LAMBDA Y : IF Cardinality(Y) > 1 THEN Merge(Y) ELSE Y)
CountAll(lo, hi, high, lsbm) ==
  FoldLeft(LAMBDA X, i : CountStep(X, lo, hi, high, lsbm, i), {[st |-> 0, bl |-> 0, bh |-> 0, el |-> 0, eh |-> 0]},
           [j \in 1..(Len(hi) \div 2) |-> 2 * j - 2])

Unknown == <<0, 8000>>
\* -> <<least, most>>
CountAt(m) ==
  IF m.wide = 1 THEN Unknown ELSE
  With(m.lo, LAMBDA lo : With(IF m.hi = <<>> THEN lo ELSE m.hi, LAMBDA hi :
  With(HighRate(S.sr, F.n), LAMBDA high : With(LsbMode(S.sr, F.n), LAMBDA lsbm :
  With(CountAll(lo, hi, high, lsbm), LAMBDA X :
    << CHOOSE v \in {(x.el + 2047) \div 2048 : x \in X} : \A x \in X : v <= (x.el + 2047) \div 2048,
       CHOOSE v \in {(x.eh + 2047) \div 2048 : x \in X} : \A x \in X : v >= (x.eh + 2047) \div 2048 >>)))))

(* ---- adjustment ---- *)

T == << <<80, 500, 850>>, <<230, 1025, 1700>>, <<380, 1550, 2550>>, <<530, 2075, 3400>>, <<680, 2600, 4250>>,
        <<680, 2600, 4250>>, <<830, 3125, 5100>> >>[S.sr + 1]
Delta(nb) ==
  IF nb < T[1] THEN (3 * (nb + 48) + 24) \div 48
  ELSE IF nb < T[2]
  THEN LET n0 == 3 * (T[1] + 48)
           r == T[2] - T[1] IN
       (n0 * r + (nb - T[1]) * (T[2] - n0) + 24 * r) \div (48 * r)
  ELSE (Min2(nb, T[3]) + 24) \div 48

\* g, gmin: indexes
Adjust(g, nb, bud, gmin) ==
  IF Hr
  THEN IF nb <= bud THEN 0
       ELSE LET f == 1 + (IF S.dt <= 1 THEN 1 ELSE 0) + (IF S.dt = 0 THEN IF nb >= 520 THEN 2 ELSE 1 ELSE 0) IN
            Min2(g + f + (f * (nb - bud)) \div Delta(nb), 255) - g
  ELSE IF nb < bud - (Delta(nb) + 2) THEN IF g > gmin THEN -1 ELSE 0
  ELSE IF nb > bud THEN (IF g < 255 THEN 1 ELSE 0) + (IF g < 254 /\ nb >= bud + Delta(nb) THEN 1 ELSE 0)
  ELSE 0

(* ---- a frame ---- *)

Gains == {m.g : m \in {F.m[j] : j \in DOMAIN F.m}}
Data(g) == CHOOSE m \in {F.m[j] : j \in DOMAIN F.m} : m.g = g
\* Gains that no adjustment brings to the one transmitted
Far(g) == LET d == F.g - GOff - g IN d < (IF Hr THEN 0 ELSE -1) \/ (~Hr /\ d > 2)

Trunc(x) == IF x >= 0 THEN x \div U ELSE -((-x) \div U)
\* Gains a state leads to: [g, gm, reset, ol, oh]
Leads(p, bud) ==
  With(OffLo(p), LAMBDA ol : With(OffHi(p), LAMBDA oh :
  With(Estimates(Trunc(bud * U + ol + U \div 2), Trunc(bud * U + oh + U \div 2)), LAMBDA E :
  UNION {{[g |-> IF F.ph = -1000000 THEN gm ELSE Max2(e, gm), gm |-> gm, reset |-> e < gm \/ F.ph = -1000000,
           ol |-> ol, oh |-> oh] : e \in E} : gm \in MinGains})))

\* States after it, given the counts of each gain
After(L, cnt, bud) ==
  IF cnt[L.g] = Unknown
  THEN {IF L.reset THEN [ol |-> 0, oh |-> 0, sl |-> 0, sh |-> 0] ELSE [ol |-> L.ol, oh |-> L.oh, sl |-> -8000, sh |-> 8000]}
  ELSE
  LET N == {nb \in cnt[L.g][1]..cnt[L.g][2] : L.g + GOff + Adjust(L.g + GOff, nb, bud, L.gm + GOff) = F.g} IN
  IF N = {} THEN {}
  ELSE IF L.reset THEN {[ol |-> 0, oh |-> 0, sl |-> 0, sh |-> 0]}
  ELSE {[ol |-> L.ol, oh |-> L.oh,
         sl |-> bud - (CHOOSE v \in N : \A w \in N : v >= w),
         sh |-> bud - (CHOOSE v \in N : \A w \in N : v <= w)]}

\* No more than a few: those with the same spare bits are joined
Join(X) ==
  IF Cardinality(X) <= 4 THEN X
  ELSE {[ol |-> CHOOSE v \in {x.ol : x \in X} : \A x \in X : v <= x.ol,
         oh |-> CHOOSE v \in {x.oh : x \in X} : \A x \in X : v >= x.oh,
         sl |-> CHOOSE v \in {x.sl : x \in X} : \A x \in X : v <= x.sl,
         sh |-> CHOOSE v \in {x.sh : x \in X} : \A x \in X : v >= x.sh]}

Init == /\ tr \in 1..Len(Sessions) /\ k = 1
        /\ Poss = {[ol |-> 0, oh |-> 0, sl |-> 0, sh |-> 0]}
        /\ why = "" /\ info = <<>>

Next ==
  /\ why = "" /\ k <= Len(S.fr)
  /\ \E bud \in {Budget(S.dt, S.sr, F.n, F.pitchp, F.tns)} :
     \E L \in {UNION {Leads(p, bud) : p \in Poss}} :
     \E G \in {{l.g : l \in {x \in L : ~Far(x.g)}}} :
       IF ~(G \subseteq Gains)
       THEN /\ why' = "no data" /\ info' = [g |-> G, has |-> Gains] /\ UNCHANGED <<Poss>>
       ELSE \E cnt \in {[g \in G |-> CountAt(Data(g))]} :
            \E P \in {UNION {After(l, cnt, bud) : l \in {x \in L : x.g \in G}}} :
              /\ Poss' = Join(P)
              /\ IF P = {} THEN /\ why' = "the gain"
                                /\ info' = [est |-> {l.g + GOff : l \in L}, sent |-> F.g, min |-> {l.gm + GOff : l \in L},
                                            bits |-> {cnt[g] : g \in G}, budget |-> bud, state |-> Poss]
                 ELSE why' = "" /\ info' = [n |-> Cardinality(P), reset |-> \E l \in L : l.reset, adj |-> {F.g - GOff - g : g \in G}]
  /\ k' = k + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Report == (k > 1) =>
  PrintT(ToJson([tr |-> tr, k |-> k - 1, why |-> why, info |-> info]))
\* The offset stays within the clipping
Bounded == \A p \in Poss : p.ol >= -Forty - U /\ p.oh <= Forty + U
=============================================================================
