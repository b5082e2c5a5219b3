------------------------------ MODULE Rounding -----------------------------
(* The integer outputs are the float output, rounded to nearest at their
   resolution and clipped at full scale.  A float sample f is recorded exactly,
   at the resolution of B bits, as m = floor(f 2^(B-1)) and the position h of
   the rest: 0 none, 1 below a half, 2 a half, 3 above.  IOEnv.SAMPLES: one
   JSON line per frame, with m24 h24 m16 h16 of the float output, and the
   samples s24, p24 (packed layout) and s16 of the other formats.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Frames == ndJsonDeserialize(IOEnv.SAMPLES)
VARIABLE fr
Spec == fr \in 1..Len(Frames) /\ [][UNCHANGED fr]_fr

Clip(v, b) == IF v < -b THEN -b ELSE IF v > b - 1 THEN b - 1 ELSE v
Nearest(m, h) == CASE h \in {0, 1} -> {m} [] h = 2 -> {m, m + 1} [] OTHER -> {m + 1}
Rounds(m, h, s, b) == s \in {Clip(v, b) : v \in Nearest(m, h)}

F == Frames[fr]
Is24 == \A i \in 1..Len(F.m24) : Rounds(F.m24[i], F.h24[i], F.s24[i], 8388608)
Is16 == \A i \in 1..Len(F.m16) : Rounds(F.m16[i], F.h16[i], F.s16[i], 32768)
SameLayouts == F.s24 = F.p24
FullScale == \A i \in 1..Len(F.m24) : /\ F.m24[i] >= -8388608 /\ F.m24[i] <= 8388608
                                      /\ (F.m24[i] = 8388608 => F.h24[i] = 0)
=============================================================================
