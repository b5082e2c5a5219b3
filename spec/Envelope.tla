------------------------------ MODULE Envelope ------------------------------
(* The spectral and temporal envelopes an encoded frame transmits.

   The spectral envelope is the nearest of a first code book, for each half,
   then the nearest of the pulses and gains of a second stage, the pulses
   being placed one after the other where they raise the correlation most.
   The temporal envelope is on for the filters whose prediction is worth it,
   never near Nyquist; its coefficients are those of the prediction, quantised
   on arcs of sine, weighted at low bitrates.

   A frame record: [dt, sr, n, bw; lf, hf, shape, gain, ia, lsa, ib, lsb, tns :
   as transmitted; alt : targets the frame may have (out of an attack, under
   one), each [t : scale factors, e : their error at most (1/65536), x :
   transformed residual of the transmitted first stage, dx : its error at
   most (1/4096), wide : too little is known]; ny : near Nyquist 0, 1, or 2 when not known; lpc : for each
   filter [ok : known enough, gl, gh : prediction gain at least and at most
   (1/4096), u, w : reflection coefficients without and with weighting, each
   a sequence of [l, h] (1/2^20)]]                                           *)
EXTENDS LC3Params, EnvelopeTables, TLC, Json, IOUtils, SequencesExt, FiniteSets

Frames == ndJsonDeserialize(IOEnv.FRAMES)

VARIABLES fr, pc, why, info
vars == <<fr, pc, why, info>>
R == Frames[fr]
With(v, Op(_)) == CHOOSE y \in {Op(z) : z \in {v}} : TRUE
Mag(x) == IF x < 0 THEN -x ELSE x
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SetMin(X) == CHOOSE v \in X : \A y \in X : v <= y
SetMax(X) == CHOOSE v \in X : \A y \in X : v >= y

(* ---- first stage ---- *)

\* square of d (1/65536), in 2^-18
Sq(d) == LET m == Mag(d) a == m \div 128 b == m % 128 IN a * a + (2 * a * b) \div 128 + (b * b) \div 16384
Dist(t, o, c) == SumOf([i \in 1..8 |-> Sq(t[o + i] - c[i])])
\* what the errors of the target change to the comparison of two entries
Slack(t, o, a, b, e) == SumOf([i \in 1..8 |-> (Mag(a[i] - b[i]) * 2 * (e[o + i] + 1)) \div 16384]) + 16

\* Entry c is nearest, or nothing tells it is not
Nearest(t, o, e, book, c) ==
  With([j \in 1..32 |-> Dist(t, o, book[j])], LAMBDA D :
  \A j \in 1..32 : D[c + 1] <= D[j] \/ D[c + 1] <= D[j] + Slack(t, o, book[c + 1], book[j], e))

(* ---- second stage ---- *)

\* Number of vectors, as enumerated
Offsets ==
  LET RECURSIVE Row(_)
      Row(i) == IF i = 0 THEN [k \in 0..10 |-> IF k = 0 THEN 0 ELSE 1]
                ELSE With(Row(i - 1), LAMBDA p :
                     LET RECURSIVE Val(_)
                         Val(k) == IF k = 0 THEN 0 ELSE p[k - 1] + Val(k - 1) + p[k]
                     IN [k \in 0..10 |-> Val(k)])
  IN [i \in 0..15 |-> Row(i)]

\* The vector of n coefficients and np pulses of an index
RECURSIVE Deenum(_, _, _, _, _)
Deenum(O, idx, ls, np, n) ==
  IF n = 0 THEN <<>>
  ELSE IF idx = 0 THEN <<(IF ls = 1 THEN -np ELSE np)>> \o [j \in 1..(n - 1) |-> 0]
  ELSE With(CHOOSE c \in 0..np : idx >= O[n - 1][np - c] /\ \A d \in 0..(c - 1) : idx < O[n - 1][np - d],
            LAMBDA ci :
       With(idx - O[n - 1][np - ci], LAMBDA i :
            <<(IF ls = 1 THEN -ci ELSE ci)>> \o
            (IF ci > 0 THEN Deenum(O, i \div 2, i % 2, np - ci, n - 1) ELSE Deenum(O, i, ls, np, n - 1))))

Vector(O) ==
  IF R.shape = 0 THEN Deenum(O, R.ia, R.lsa, 10, 10) \o Deenum(O, R.ib, R.lsb, 1, 6)
  ELSE IF R.shape = 1 THEN Deenum(O, R.ia, R.lsa, 10, 10) \o [j \in 1..6 |-> 0]
  ELSE Deenum(O, R.ia, R.lsa, IF R.shape = 2 THEN 8 ELSE 6, 16)

\* More than that many ways, nothing is told
Many == 32

\* Square of the correlation over the energy, in 2^-14
Ratio(c, e) == LET a == c \div 1024 b == c % 1024 IN (a * a * 1024 + 2 * a * b + (b * b) \div 1024) \div e
\* A configuration: [y, c : correlation (1/4096), e : energy]
Pulses(y, m) == [y |-> y, c |-> SumOf([i \in 1..16 |-> y[i] * m[i]]), e |-> SumOf([i \in 1..16 |-> y[i] * y[i]])]

\* Places of the next pulse
Places(p, m, dx, from, to) ==
  With([i \in from..to |-> Ratio(p.c + m[i], p.e + 2 * p.y[i] + 1)], LAMBDA r :
  With((SumOf(p.y) + 1) * dx, LAMBDA d :
  With([i \in from..to |-> ((((p.c + m[i]) \div 32) * 2 * d) \div 32) \div (p.e + 2 * p.y[i] + 1) + (d * d) \div 1024 + 2], LAMBDA s :
  With(SetMax({r[i] - s[i] : i \in from..to}), LAMBDA b :
  {i \in from..to : r[i] + s[i] >= b}))))
Put(p, m, i) == [y |-> [p.y EXCEPT ![i] = @ + 1], c |-> p.c + m[i], e |-> p.e + 2 * p.y[i] + 1]

RECURSIVE Add(_, _, _, _, _, _)
Add(P, m, dx, from, to, k) ==
  IF Cardinality(P) > Many THEN {}
  ELSE IF k = 0 THEN P
  ELSE With(UNION {{Put(p, m, i) : i \in Places(p, m, dx, from, to)} : p \in P}, LAMBDA Q : Add(Q, m, dx, from, to, k - 1))
\* ... until there are as many as that
Fill(P, m, dx, from, to, np) ==
  With({With(SumOf(SubSeq(p.y, from, to)), LAMBDA s : Add({p}, m, dx, from, to, np - s)) : p \in P}, LAMBDA X :
  IF {} \in X THEN {} ELSE UNION X)

\* Projections of the residual with five pulses or fewer
Projections(m, dx) ==
  With(SumOf(m), LAMBDA s :
  With([i \in 1..16 |-> << ((IF m[i] > dx THEN m[i] - dx ELSE 0) * 5) \div (s + 16 * dx + 1), ((m[i] + dx) * 5) \div (IF s > 16 * dx + 1 THEN s - 16 * dx ELSE 1) >>], LAMBDA b :
  IF \E i \in 1..16 : b[i][2] - b[i][1] > 1 THEN {}
  ELSE {[y |-> y] : y \in FoldLeft(LAMBDA Y, i : IF Cardinality(Y) > Many THEN {} ELSE {Append(y, v) : y \in Y, v \in b[i][1]..b[i][2]}, {<<>>}, [j \in 1..16 |-> j])}))

Cut(p, m) == Pulses([i \in 1..16 |-> IF i > 10 THEN 0 ELSE p.y[i]], m)

\* Configurations of shapes 3, 2, 1 and 0; an empty set when they cannot be told
Shape3(m, dx) == With(Projections(m, dx), LAMBDA X : IF Cardinality(X) > Many THEN {} ELSE
                      Fill({Pulses(x.y, m) : x \in {x \in X : SumOf(x.y) <= 6}}, m, dx, 1, 16, 6))
Known(P) == IF Cardinality(P) > Many THEN {} ELSE P
Shape2(P, m, dx) == Known(Fill(P, m, dx, 1, 16, 8))
Shape1(P, m, dx) == Known(Fill({Cut(p, m) : p \in P}, m, dx, 1, 10, 10))
Shape0(P, m, dx) == Known(UNION {With([p EXCEPT !.c = p.c], LAMBDA q :
                      {Put(q, m, i) : i \in Places(q, m, dx, 11, 16)}) : p \in P})

\* Root of e, in 1/4096, for e up to 127
Root(e) ==
  LET RECURSIVE Step(_, _)
      Step(r, b) == IF b = 0 THEN r
                    ELSE Step(IF (r + b) * (r + b) <= e * 16777216 THEN r + b ELSE r, b \div 2)
  IN Step(0, 32768)

\* Error of a configuration with a gain, less the energy of the residual (1/4096)
Gains(s) == [i \in 1..Len(ShapeGains[s + 1]) |-> (ShapeGains[s + 1][i] + 8) \div 16]
Cn(p) == With(Root(p.e), LAMBDA q : (p.c \div q) * 4096 + ((p.c % q) * 4096) \div q)
Mul(g, c) == LET a == g \div 64 b == g % 64 IN (a * c) \div 64 + (b * c) \div 4096
Score(p, g) == Mul(g, g) - 2 * Mul(g, Cn(p))
ScoreErr(p, g, dx) == (2 * g * ((SumOf(p.y) * dx * 4096) \div Root(p.e) + 1)) \div 4096 + 6

SecondStage(x, dx, v) ==
  With([i \in 1..16 |-> Mag(x[i])], LAMBDA m :
  With(Shape3(m, dx), LAMBDA P3 :
  With(Shape2(P3, m, dx), LAMBDA P2 :
  With(Shape1(P2, m, dx), LAMBDA P1 :
  With(Shape0(P1, m, dx), LAMBDA P0 :
  With([i \in 1..16 |-> Mag(v[i])], LAMBDA y :
  With(<<P0, P1, P2, P3>>, LAMBDA P :
  IF \E i \in 1..16 : v[i] # 0 /\ Mag(x[i]) > dx /\ (v[i] < 0) # (x[i] < 0) THEN "the sign of a pulse"
  ELSE IF \E s \in 1..4 : P[s] = {} THEN "unknown"
  ELSE IF ~\E p \in P[R.shape + 1] : p.y = y THEN "the place of a pulse"
  ELSE With(CHOOSE p \in P[R.shape + 1] : p.y = y, LAMBDA o :
       With(Gains(R.shape)[R.gain + 1], LAMBDA g :
       With(Score(o, g) - ScoreErr(o, g, dx), LAMBDA own :
       IF \E s \in 1..4 : \E h \in {Gains(s - 1)[i] : i \in 1..Len(Gains(s - 1))} :
            \A p \in P[s] : Score(p, h) + ScoreErr(p, h, dx) < own
       THEN "the shape or the gain" ELSE ""))))))))))

\* Verdict of the spectral envelope for a target
Spectral(a, v) ==
  IF a.wide = 1 THEN "unknown"
  ELSE IF ~Nearest(a.t, 0, a.e, LowBook, R.lf) THEN "the low scale factors"
  ELSE IF ~Nearest(a.t, 8, a.e, HighBook, R.hf) THEN "the high scale factors"
  ELSE SecondStage(a.x, a.dx, v)

(* ---- temporal envelope ---- *)

Filters == IF R.dt >= 1 /\ R.bw >= 3 THEN 2 ELSE 1
MaxOrder == IF R.dt <= 1 THEN 4 ELSE 8
Weighting == R.n * 8 < 120 * (1 + R.dt)

\* sin((i + 1/2) Pi / 17), in 1/2^20
Arcs == <<96736, 286944, 467392, 631904, 774912, 891520, 977760, 1030720>>
Quantised(v) == LET q == Cardinality({i \in 1..8 : Mag(v) >= Arcs[i]}) IN IF v < 0 THEN -q ELSE q

Fits(rc, c) == \A i \in 1..MaxOrder : LET q == IF i <= Len(rc) THEN rc[i] ELSE 0 IN q >= Quantised(c[i].l) /\ q <= Quantised(c[i].h)

Temporal(f) ==
  LET rc == R.tns[f]
      l == R.lpc[f]
      off == R.ny # 0 \/ l.ok = 0 \/ l.gl <= 6144
      on == R.ny # 1 /\ (l.ok = 0 \/ l.gh > 6144)
      coefs == \/ l.ok = 0
               \/ (Weighting /\ l.gl < 8192 /\ Fits(rc, l.w))
               \/ (~(Weighting /\ l.gh < 8192) /\ Fits(rc, l.u)) IN
  IF rc = <<>> /\ off THEN ""
  ELSE IF ~on THEN "a temporal filter is on"
  ELSE IF Len(rc) > MaxOrder THEN "the order of a temporal filter"
  ELSE IF ~coefs THEN IF rc = <<>> THEN "a temporal filter is off" ELSE "the coefficients of a temporal filter"
  ELSE ""

Init == fr \in 1..Len(Frames) /\ pc = "Decide" /\ why = "" /\ info = <<>>
Decide ==
  /\ pc = "Decide" /\ UNCHANGED fr
  /\ \E v \in {Vector(Offsets)} :
     \E S \in {{Spectral(R.alt[i], v) : i \in DOMAIN R.alt}} :
     \E T \in {{Temporal(f) : f \in 1..Filters}} :
       /\ pc' = IF Len(R.tns) = Filters /\ S \cap {"", "unknown"} # {} /\ T = {""} THEN "good" ELSE "bad"
       /\ why' = IF Len(R.tns) # Filters THEN "the number of temporal filters"
                 ELSE IF S \cap {"", "unknown"} = {} THEN "the spectral envelope: " \o ToString(S)
                 ELSE IF T # {""} THEN "the temporal envelope: " \o ToString(T \ {""}) ELSE ""
       /\ info' = [known |-> "" \in S, v |-> v]
Next == Decide
Spec == Init /\ [][Next]_vars

Report == pc # "Decide" => PrintT(ToJson([fr |-> fr, ok |-> pc = "good", why |-> why, info |-> info]))
=============================================================================
