------------------------------- MODULE Pitch -------------------------------
(* Pitch detection and activation of the long-term postfilter, over an
   encoder session.

   One behaviour follows one session, an action per frame.  The correlations
   of the input are data; the decisions are here.  They are known with the
   precision of an encoder, hence a set of possible states is carried: the
   frame is refused when no possible state explains what it signals.

   A session: [dt, hr, fr : frames]; a frame (lags at 6.4 kHz from 17, at
   12.8 kHz from 32, quarters of them from 125):
     present, active, pitch : what the frame signals (pitch in quarters)
     off     the caller has disabled the postfilter
     free    the correlations are not known for this frame and the next ones
     ny      flagged near-Nyquist: 0, 1, or 2 when not known
     rw, r   weighted, and plain correlation at 6.4 kHz, relative (2^28)
     nc      normalised correlation at 6.4 kHz (1/65536), -1 when not known
     r12     correlation at 12.8 kHz, rq: interpolated at quarters
     ncp     normalised correlation at the lag signalled, -1 when not known
     want    period of the input (1/64 of a quarter) and tolerance on the lag
             signalled, which is a multiple of it; empty when none          *)
EXTENDS LC3Params, TLC, Json, IOUtils, FiniteSets

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  tr, k,
  Poss,      \* possible [tc, act]: open-loop lag, postfilter on
  nc0, nc1,  \* normalised correlation of the last two frames
  pitch,     \* lag of the last frame, 0: none
  why
vars == <<tr, k, Poss, nc0, nc1, pitch, why>>

S == Sessions[tr]
F == S.fr[k]

With(v, Op(_)) == CHOOSE y \in {Op(z) : z \in {v}} : TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
Q(x) == (65536 * x) \div 1000
Tol == 6

\* x > y, as far as known: the set of possible truths
Gt(x, y) == IF x = -1 \/ y = -1 THEN {TRUE, FALSE}
            ELSE IF x > y + Tol THEN {TRUE} ELSE IF x < y - Tol THEN {FALSE} ELSE {TRUE, FALSE}
And(A, B) == {a /\ b : a \in A, b \in B}
Or(A, B)  == {a \/ b : a \in A, b \in B}

\* Arguments of the maximum of v over lo..hi (first index 0), within precision
ArgMax(v, lo, hi) ==
  With(CHOOSE i \in lo..hi : \A j \in lo..hi : v[i + 1] > v[j + 1] \/ (v[i + 1] = v[j + 1] /\ i <= j), LAMBDA m :
    IF v[m + 1] = 0 THEN {m}
    ELSE {i \in lo..hi : v[i + 1] >= v[m + 1] - 300})

(* Open loop: the best lag, the shorter preferred, unless one near the lag of
   the last frame does nearly as well *)
OpenLoop(tc, T1) ==
  LET T2 == ArgMax(F.r, Max2(0, tc - 4), Min2(97, tc + 4)) IN
  UNION { LET n1 == F.nc[t1 + 1]
              n2 == F.nc[t2 + 1]
              near == Gt(n2, IF n1 = -1 THEN -1 ELSE (n1 * 850) \div 1000) IN
          {[t |-> IF b THEN t2 ELSE t1, nc |-> IF b THEN n2 ELSE n1] : b \in near}
          : t1 \in T1, t2 \in T2 }

(* Closed loop: around twice that lag at 12.8 kHz, then the fractions: quarters
   below 127, halves below 157 *)
Rq(p) == F.rq[p - 124]
Fractions(e) == {4 * e} \cup
  {p \in ((4 * e) - 3)..((4 * e) + 3) : /\ p # 4 * e /\ e < 157
                                         /\ (e >= 127 => p % 2 = 0)
                                         /\ (p < 4 * e => e > 32)}
Refined(tc) ==
  LET lo == Max2(32, 2 * tc - 4)
      hi == Min2(228, 2 * tc + 4) IN
  UNION { IF e >= 157 THEN {4 * e}
          ELSE LET P == Fractions(e) IN
               {p \in P : \A o \in P : Rq(o) <= Rq(p) + 300}
          : e \in {i + 32 : i \in ArgMax(F.r12, lo - 32, hi - 32)} }

(* Activation *)
Activation(act) ==
  IF S.hr \/ F.present = 0 THEN {FALSE}
  ELSE IF act
  THEN Or(Gt(F.ncp, Q(900)),
          And(Gt(F.ncp, Q(840)),
              And({Abs(F.pitch - pitch) < 8}, Gt(IF F.ncp = -1 THEN -1 ELSE F.ncp + Q(100), nc0))))
  ELSE And({TRUE}, And(IF S.dt = 3 THEN {TRUE} ELSE Gt(nc1, Q(940)), And(Gt(nc0, Q(940)), Gt(F.ncp, Q(940)))))

Signalled(act) == IF F.ny = 2 THEN {act, FALSE} ELSE IF F.ny = 1 THEN {FALSE} ELSE {act}

Explain(s, T1) ==
  UNION { IF (F.present = 1) \notin Gt(o.nc, Q(600)) THEN {}
          ELSE IF F.present = 1 /\ F.pitch \notin Refined(17 + o.t) THEN {}
          ELSE {[tc |-> o.t, act |-> a] : a \in {b \in Activation(s.act) : (F.active = 1) \in Signalled(b)}}
          : o \in OpenLoop(s.tc, T1) }

\* Which of the decisions cannot be explained
Reason(T1) ==
  LET O == UNION {OpenLoop(s.tc, T1) : s \in Poss} IN
  IF \A o \in O : (F.present = 1) \notin Gt(o.nc, Q(600)) THEN "the presence of a pitch"
  ELSE IF F.present = 1 /\ \A o \in O : F.pitch \notin Refined(17 + o.t) THEN "the lag"
  ELSE "the activation of the postfilter"

Init == /\ tr \in 1..Len(Sessions) /\ k = 1
        /\ Poss = {[tc |-> 0, act |-> FALSE]}
        /\ nc0 = 0 /\ nc1 = 0 /\ pitch = 0 /\ why = ""

Go(w) == why' = w /\ k' = k + 1 /\ UNCHANGED tr

Disabled ==
  /\ F.off
  /\ UNCHANGED <<Poss, nc0, nc1, pitch>>
  /\ Go(IF F.present = 1 \/ F.active = 1 THEN "signalled although disabled" ELSE "")

Follow ==
  /\ ~F.off /\ ~F.free
  /\ \E T1 \in {ArgMax(F.rw, 0, 97)} : \E E \in {UNION {Explain(s, T1) : s \in Poss}} :
       /\ Poss' = E
       /\ nc1' = nc0
       /\ nc0' = IF F.present = 1 THEN F.ncp ELSE 0
       /\ pitch' = F.pitch
       /\ Go(IF E = {} THEN Reason(T1)
             ELSE IF F.want # <<>> /\ (F.present = 0 \/ \A m \in 1..7 : Abs(64 * F.pitch - m * F.want[1]) > 64 * F.want[2]) THEN "the period of the input"
             ELSE "")

\* Nothing is known of the correlations: only what holds whatever they are
Free ==
  /\ ~F.off /\ F.free
  /\ UNCHANGED <<Poss, nc0, nc1, pitch>>
  /\ Go(IF F.active = 1 /\ (F.present = 0 \/ S.hr \/ F.ny = 1) THEN "the activation of the postfilter" ELSE "")

Next == why = "" /\ k <= Len(S.fr) /\ (Disabled \/ Follow \/ Free)
Spec == Init /\ [][Next]_vars

Report == (why # "") =>
  PrintT(ToJson([tr |-> tr, k |-> k - 1, why |-> why,
                 info |-> LET f == S.fr[k - 1] IN [present |-> f.present, active |-> f.active, pitch |-> f.pitch, ncp |-> f.ncp,
                                                   nc1 |-> nc1, ny |-> f.ny, want |-> f.want]]))
\* A postfilter that is on has a pitch; never in high resolution
ActOk == \A s \in Poss : s.act => (pitch # 0 /\ ~S.hr)
Ambiguity == Cardinality(Poss) <= 200
=============================================================================
