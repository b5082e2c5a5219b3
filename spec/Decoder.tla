------------------------------ MODULE Decoder ------------------------------
(* The control of the decoder: what synthesises each frame of a session.

   One behaviour is one session.  A frame is good, with the pitch fields that
   FrameSyntax reads in it, or concealed (lost or malformed).  For each frame
   the model states
     src    the good frame whose spectrum is used (0: none, silence)
     a9 a85 the attenuation, 0.9^a9 0.85^a85
     seed   the state of the sign generator before the frame
     kind   the transition of the postfilter over the first 2.5 ms:
              off, in (fade in), out (fade out), keep, swap (out then in)
     old / new  its parameters before and after: lag in quarter samples and
              gain index
   and the position of the frame in the history of the filter.

   IOEnv.SESSIONS: one line per session,
     [dt, sr, srp, frames : << [g: good, n: bytes, pp: pitch present,
                                 act: postfilter flag, pi: pitch index] >>]  *)
EXTENDS LC3Params, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.SESSIONS)

VARIABLES
  ss,     \* the session
  k,      \* frames decoded
  plc,    \* [src, count, a9, a85, seed]
  ltpf,   \* [on, lag, gi]
  ring,   \* position of the next frame in the filtered history, in samples
  log     \* control of the frames decoded so far
vars == <<ss, k, plc, ltpf, ring, log>>

S  == Sessions[ss]
Dt == S.dt
Sr == S.sr
F  == S.frames[k + 1]

(* ----------------------------- concealment ------------------------------ *)

\* Signs are the top bits of a congruential generator, one step per coefficient
Step1(x) == (16831 + x * 12821) % 65536
RECURSIVE StepN(_, _)
StepN(x, n) == IF n = 0 THEN x ELSE StepN(Step1(x), n - 1)

\* Losses 1..3 of a burst at full level, 4..7 fade by 0.9, then by 0.85
PlcLost(p) == [ src |-> p.src, count |-> Min2(p.count + 1, 1000),
                a9  |-> p.a9  + (IF p.count >= 4 /\ p.count < 8 THEN 1 ELSE 0),
                a85 |-> p.a85 + (IF p.count >= 8 THEN 1 ELSE 0),
                seed |-> StepN(p.seed, Ne(Dt, Sr)) ]
PlcGood(p) == [ src |-> k + 1, count |-> 1, a9 |-> 0, a85 |-> 0, seed |-> p.seed ]

(* ----------------------------- postfilter ------------------------------- *)

\* Lag of a pitch index, in quarters of samples at 12.8 kHz, then at the PCM rate
LagAt12k8(p) == IF p >= 440 THEN (p - 283) * 4
                ELSE IF p >= 380 THEN ((p \div 2) - 63) * 4 + (p % 2) * 2
                ELSE ((p \div 4) + 32) * 4 + (p % 4)
LagOf(p) == (LagAt12k8(p) * Ns(3, S.srp) + 64) \div 128

\* Gain index from the size of the frame brought to 10 ms; 4: no filtering
NormBits(n) == LET b == (n * 8 * 4) \div (1 + Dt) IN
               CASE Dt = 0 -> (6 * b + 5) \div 10 [] Dt = 1 -> b - 160 [] OTHER -> b
GainIdx(n) == LET v == NormBits(n) IN Max2(IF v < 0 THEN 0 ELSE v \div 80, 3 + S.srp) - (3 + S.srp)

On(f) == f.g = 1 /\ f.pp = 1 /\ f.act = 1 /\ GainIdx(f.n) < 4
Next_(f) == IF On(f) THEN [on |-> TRUE, lag |-> LagOf(f.pi), gi |-> GainIdx(f.n)]
            ELSE [on |-> FALSE, lag |-> 0, gi |-> 0]
Kind(a, b) == CASE ~a.on /\ ~b.on -> "off"
                [] ~a.on /\ b.on  -> "in"
                [] a.on  /\ ~b.on -> "out"
                [] a.lag = b.lag  -> "keep"
                [] OTHER          -> "swap"

(* ------------------------------- history -------------------------------- *)

\* The filtered samples are kept in a ring of the frame and at least 18 ms
RingLen == NhHist(Dt, S.srp) + Ns(Dt, S.srp)
Width   == Max2(4, Ns4m[S.srp + 1] \div 16)

Init == /\ ss \in 1..Len(Sessions) /\ k = 0
        /\ plc = [src |-> 0, count |-> 1, a9 |-> 0, a85 |-> 0, seed |-> 24607]
        /\ ltpf = [on |-> FALSE, lag |-> 0, gi |-> 0]
        /\ ring = NhHist(Dt, S.srp)
        /\ log = <<>>

DecodeFrame ==
  /\ k < Len(S.frames) /\ k' = k + 1 /\ UNCHANGED ss
  /\ \E p \in {IF F.g = 1 THEN PlcGood(plc) ELSE PlcLost(plc)},
        l \in {IF HR(Sr) THEN ltpf ELSE Next_(F)} :
       /\ plc' = p /\ ltpf' = l
       /\ ring' = IF ring < NhHist(Dt, S.srp) THEN ring + Ns(Dt, S.srp) ELSE 0
       /\ log' = Append(log, [ src |-> p.src, a9 |-> p.a9, a85 |-> p.a85, seed |-> plc.seed,
                               c |-> 1 - F.g, kind |-> Kind(ltpf, l), old |-> ltpf, new |-> l ])
Spec == Init /\ [][DecodeFrame]_vars

(* ------------------------------ properties ------------------------------ *)

\* A burst starts at full level from the newest good frame
BurstsRestart == (k > 0 /\ S.frames[k].g = 1) => plc.src = k /\ plc.a9 = 0 /\ plc.a85 = 0 /\ plc.count = 1
\* The attenuation never decreases inside a burst
Fading == [][ (k' > k /\ F.g = 0) => /\ plc'.a9 >= plc.a9 /\ plc'.a85 >= plc.a85
                                     /\ plc'.src = plc.src
                                     /\ (plc'.count > 9 => plc'.a85 > plc.a85) ]_vars
\* Whatever the position in the ring, the filter finds its lag in genuine
\* history: the oldest sample it reads has not been overwritten
HistoryOk == /\ ring >= 0 /\ ring + Ns(Dt, S.srp) <= RingLen
             /\ (ltpf.on => (ltpf.lag \div 4) + Width \div 2 <= NhHist(Dt, S.srp) + 1
                            /\ (ltpf.lag \div 4) - Width \div 2 >= 0)
\* No postfilter in concealed frames or in high-resolution mode
FilterOk == /\ (k > 0 /\ S.frames[k].g = 0 => ~ltpf.on)
            /\ (HR(Sr) => ~ltpf.on)
Emit == k = Len(S.frames) => PrintT(ToJson([ss |-> ss, log |-> log]))
=============================================================================
