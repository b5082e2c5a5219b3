------------------------------ MODULE Queries ------------------------------
(* The query functions and the acceptance of set-up.

   The first part is the rule book: for each query, the value it must return
   for any argument (Expected).  The second part is the model of a caller that
   walks through every configuration and every legal frame size, whose
   invariants are the laws the rules must obey (LawsSpec, Queries_Laws.cfg).
   The third part binds the rules to the code: every recorded call of the
   implementation must have returned the value of the rules (CallsSpec).

   Plus, HrMode : whether the build holds the LC3plus durations (2.5, 5 ms)
   and the high-resolution mode; see also C23.                               *)
EXTENDS LC3Params, TLC, Json, IOUtils

CONSTANTS Plus, HrMode

IntMax == 2147483647

\* Resolution of the arguments, for this build
DtOf(hr, us) == LET d == ResolveDt(hr, us) IN IF ~Plus /\ d \in {0, 1} THEN -1 ELSE d
SrOf(hr, hz) == IF hr /\ ~HrMode THEN -1 ELSE ResolveSr(hr, hz)
Supported(hr, us, hz) == DtOf(hr, us) >= 0 /\ SrOf(hr, hz) >= 0

FrameSamples(hr, us, hz) ==
  IF Supported(hr, us, hz) THEN Ns(DtOf(hr, us), SrOf(hr, hz)) ELSE -1

\* Above any legal one (8 channels, 400 bytes each 2.5 ms), below overflows
BitrateCap == IntMax \div 4

BlockBytes(hr, us, hz, nch, rate) ==
  IF ~Supported(hr, us, hz) \/ nch < 1 \/ nch > 8 \/ rate < 0 THEN -1
  ELSE LET dt == DtOf(hr, us)
           sr == SrOf(hr, hz) IN
       Clip((Min2(rate, BitrateCap) * (1 + dt)) \div 3200, nch * MinBytes(dt, sr), nch * MaxBytes(dt, sr))

\* Lowest bitrate of a frame size: ceiling of 3200 n / (1 + dt), saturated
ResolveBitrate(hr, us, hz, n) ==
  IF ~Supported(hr, us, hz) \/ n < 0 THEN -1
  ELSE LET d == 1 + DtOf(hr, us)
           h == n \div d
           l == ((n % d) * 3200 + d - 1) \div d IN
       IF h > 671088 \/ (h = 671088 /\ l > 2047) THEN IntMax ELSE h * 3200 + l

DelaySamples(hr, us, hz) ==
  IF Supported(hr, us, hz) THEN Delay(DtOf(hr, us), SrOf(hr, hz)) ELSE -1

\* PCM rates at or below zero stand for the codec rate
PcmHz(hz, pcm) == IF pcm <= 0 THEN hz ELSE pcm
SetupOk(hr, us, hz, pcm, mem) ==
  /\ mem /\ Supported(hr, us, hz) /\ Supported(hr, us, PcmHz(hz, pcm))
  /\ SrOf(hr, hz) <= SrOf(hr, PcmHz(hz, pcm))

(* ------------------------------- the laws ------------------------------- *)

VARIABLE at     \* what the caller looks at: configuration and frame size
LawsInit == /\ at \in [c : Configs, n : {0}]
Calls == at.n < MaxBytes(at.c[1], at.c[2]) /\ at' = [at EXCEPT !.n = @ + 1]
LawsSpec == LawsInit /\ [][Calls]_at

LawDt == at.c[1]
LawSr == at.c[2]
LawHr == HR(LawSr)
LawUs == DtUs[LawDt + 1]
LawHz == SrHz[LawSr + 1]
Legal == EncSizeOk(LawDt, LawSr, at.n)

\* size -> bitrate -> size is the identity on legal sizes, and the bitrate given
\* is the least one that yields the size
RoundTrip == Legal =>
  LET b == ResolveBitrate(LawHr, LawUs, LawHz, at.n) IN
  /\ BlockBytes(LawHr, LawUs, LawHz, 1, b) = at.n
  /\ (at.n > MinBytes(LawDt, LawSr)) => BlockBytes(LawHr, LawUs, LawHz, 1, b - 1) = at.n - 1
  \* also for blocks of every number of channels
  /\ \A c \in 1..8 : \A e \in 0..(c - 1) : at.n * c + e <= c * MaxBytes(LawDt, LawSr) =>
       BlockBytes(LawHr, LawUs, LawHz, c, ResolveBitrate(LawHr, LawUs, LawHz, at.n * c + e)) = at.n * c + e

\* duration x rate, and a delay shorter than a frame and a half
Dimensions ==
  LET s == FrameSamples(LawHr, LawUs, LawHz) IN
  /\ (s * 400) = (LawUs \div 2500) * LawHz
  /\ DelaySamples(LawHr, LawUs, LawHz) = (LawHz * (IF LawUs = 7500 THEN 40 ELSE 25)) \div 10000
  /\ MinBytes(LawDt, LawSr) < MaxBytes(LawDt, LawSr)
  \* the ends of the range of bitrates give the ends of the range of sizes
  /\ \A n \in 1..8 : /\ BlockBytes(LawHr, LawUs, LawHz, n, 0) = n * MinBytes(LawDt, LawSr)
                     /\ BlockBytes(LawHr, LawUs, LawHz, n, IntMax) = n * MaxBytes(LawDt, LawSr)
  /\ \A b \in {0, 16000, 64000, 320000, 672000, IntMax} : \A n \in 1..8 :
       BlockBytes(LawHr, LawUs, LawHz, n, b) \in n * MinBytes(LawDt, LawSr) .. n * MaxBytes(LawDt, LawSr)

(* ------------------------------ the calls ------------------------------- *)

Recs == ndJsonDeserialize(IOEnv.CALLS)
CallsSpec == at \in 1..Len(Recs) /\ [][UNCHANGED at]_at

Call == Recs[at]
Expected(r) ==
  CASE r.q = "samples" -> FrameSamples(r.hr = 1, r.us, r.hz)
    [] r.q = "block"   -> BlockBytes(r.hr = 1, r.us, r.hz, r.nch, r.a)
    [] r.q = "bytes"   -> BlockBytes(r.hr = 1, r.us, r.hz, 1, r.a)
    [] r.q = "bitrate" -> ResolveBitrate(r.hr = 1, r.us, r.hz, r.a)
    [] r.q = "delay"   -> DelaySamples(r.hr = 1, r.us, r.hz)
    \* memory sizes: zero exactly when unsupported (1: not zero)
    [] r.q \in {"esize", "dsize"} -> IF Supported(r.hr = 1, r.us, r.hz) THEN 1 ELSE 0
    \* set-up: 1 the memory given, 0 null, 2 anything else
    [] r.q \in {"esetup", "dsetup"} -> IF SetupOk(r.hr = 1, r.us, r.hz, r.pcm, r.mem = 1) THEN 1 ELSE 0

CallOk == Call.ret = Expected(Call)
=============================================================================
