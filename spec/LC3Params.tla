----------------------------- MODULE LC3Params -----------------------------
(* Parameter rules of LC3 / LC3plus: configurations, dimensions, size limits.

   dt : 0 = 2.5 ms, 1 = 5 ms, 2 = 7.5 ms, 3 = 10 ms
   sr : 0..4 = 8, 16, 24, 32, 48 kHz, 5 = 48 kHz HR, 6 = 96 kHz HR
   Every integer stays below 2^31 (TLC integers are 32-bit Java ints).      *)
EXTENDS Integers, Sequences, Tables

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip(v, lo, hi) == Min2(Max2(v, lo), hi)

DTs == 0..3
SRs == 0..6
HR(sr) == sr >= 5

\* The 7.5 ms frames do not exist in high-resolution mode
Configs == {c \in DTs \X SRs : ~(HR(c[2]) /\ c[1] = 2)}

DtUs == <<2500, 5000, 7500, 10000>>
SrHz == <<8000, 16000, 24000, 32000, 48000, 48000, 96000>>

Ns(dt, sr) == (1 + dt) * Ns2m5[sr + 1]
Ne(dt, sr) == (1 + dt) * Ne2m5[sr + 1]

\* Half a frame plus the future overlap: 1.25 ms, or 2 ms for 7.5 ms frames
Nd(dt, sr) == (Ns(dt, sr) + (IF dt = 2 THEN Ns4m[sr + 1] ELSE Ns2m5[sr + 1])) \div 2
Delay(dt, sr) == 2 * Nd(dt, sr) - Ns(dt, sr)

\* Decoder history, at least 18 ms, a whole number of frames
NhHist(dt, sr) == IF sr > 5 THEN 0 ELSE (8 + (IF dt = 2 THEN 1 ELSE 0)) * Ns2m5[sr + 1]

MinBytes(dt, sr) == IF HR(sr) THEN HrLim[dt + 1][sr - 4][1] ELSE 20
MaxBytes(dt, sr) == IF HR(sr) THEN HrLim[dt + 1][sr - 4][2] ELSE 400

\* Limits of an encode / a decode call
EncSizeOk(dt, sr, n) == n >= MinBytes(dt, sr) /\ n <= MaxBytes(dt, sr)
DecSizeOk(dt, sr, n) == n >= 20 /\ n <= MaxBytes(dt, sr)

\* Resolution of the arguments of the API; -1 when unsupported
ResolveDt(hr, us) == CASE us = 2500  -> 0
                       [] us = 5000  -> 1
                       [] us = 7500 /\ ~hr -> 2
                       [] us = 10000 -> 3
                       [] OTHER -> -1
ResolveSr(hr, hz) == IF hr THEN CASE hz = 48000 -> 5 [] hz = 96000 -> 6 [] OTHER -> -1
                     ELSE CASE hz = 8000  -> 0 [] hz = 16000 -> 1 [] hz = 24000 -> 2
                            [] hz = 32000 -> 3 [] hz = 48000 -> 4 [] OTHER -> -1
=============================================================================
