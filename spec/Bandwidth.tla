----------------------------- MODULE Bandwidth -----------------------------
(* Audio bandwidth an encoded frame signals.

   A frame record: [dt, sr, bw : signalled, want : band the input has been
   confined to for some frames, or -1, last : bandwidths of these frames, el, eh : energy of each band at least and at most (in 1/256,
   large values cut), ll, lh : their base 2 logarithm (in 1/65536)].
   The energies are known to the single precision of an encoder, hence several
   decisions may be allowed.                                                 *)
EXTENDS LC3Params, TLC, Json, IOUtils, FiniteSets

Frames == ndJsonDeserialize(IOEnv.FRAMES)

VARIABLES fr, pc, why
vars == <<fr, pc, why>>
R == Frames[fr]

\* Regions (first and last band) that tell a bandwidth wider than NB, WB, SSWB,
\* SWB, by duration and bandwidth of the sample rate
Regions == <<
  << << <<24, 34>> >>,
     << <<24, 32>>, <<35, 39>> >>,
     << <<24, 31>>, <<33, 38>>, <<39, 42>> >>,
     << <<22, 29>>, <<31, 35>>, <<37, 40>>, <<41, 43>> >> >>,
  << << <<39, 49>> >>,
     << <<35, 44>>, <<47, 51>> >>,
     << <<34, 42>>, <<44, 49>>, <<50, 53>> >>,
     << <<32, 40>>, <<42, 46>>, <<48, 51>>, <<52, 54>> >> >>,
  << << <<51, 63>> >>,
     << <<45, 55>>, <<58, 63>> >>,
     << <<42, 51>>, <<53, 58>>, <<60, 63>> >>,
     << <<40, 48>>, <<51, 55>>, <<57, 60>>, <<61, 63>> >> >>,
  << << <<53, 63>> >>,
     << <<47, 56>>, <<59, 63>> >>,
     << <<44, 52>>, <<54, 59>>, <<60, 63>> >>,
     << <<41, 49>>, <<51, 55>>, <<57, 60>>, <<61, 63>> >> >> >>

\* Distance of the bands compared at the cut-off
Steps == << <<4, 4, 3, 1>>, <<4, 4, 3, 1>>, <<4, 4, 3, 2>>, <<4, 4, 3, 1>> >>

\* 15, 23, 20 and 20 dB, in 1/65536 of an octave of energy
Drop == <<326559, 500723, 435411, 435411>>

Region(b) == Regions[R.dt + 1][R.sr][b + 1]

RECURSIVE SumR(_, _, _)
SumR(e, i, j) == IF i > j THEN 0 ELSE e[i + 1] + SumR(e, i + 1, j)

\* The region of band b is active: least and greatest truth
Level(b) == (IF b = 0 THEN 20 ELSE 10) * (Region(b)[2] - Region(b)[1] + 1) * 256
MayBeActive(b)   == SumR(R.eh, Region(b)[1], Region(b)[2]) >= Level(b)
MayBeInactive(b) == SumR(R.el, Region(b)[1], Region(b)[2]) < Level(b)

\* Candidates: one above the last active region
Candidates == {b \in 0..R.sr : /\ (b > 0 => MayBeActive(b - 1))
                               /\ \A j \in b..(R.sr - 1) : MayBeInactive(j)}

\* A cut-off below the candidate: some band much weaker than one before
Around(b) == LET i0 == Region(b)[1] IN (i0 - Steps[R.dt + 1][b + 1] + 1)..(i0 + 1)
MayDrop(b)    == \E i \in Around(b) : R.lh[i - Steps[R.dt + 1][b + 1] + 1] > Drop[b + 1] - 8 + R.ll[i + 1]
MayNotDrop(b) == \A i \in Around(b) : R.ll[i - Steps[R.dt + 1][b + 1] + 1] <= Drop[b + 1] + 8 + R.lh[i + 1]

Allowed == IF HR(R.sr) \/ R.sr = 0 THEN {R.sr}
           ELSE UNION {IF b = R.sr THEN {b}
                       ELSE (IF MayDrop(b) THEN {b} ELSE {}) \cup (IF MayNotDrop(b) THEN {R.sr} ELSE {}) : b \in Candidates}

Init == fr \in 1..Len(Frames) /\ pc = "Decide" /\ why = ""
Decide == /\ pc = "Decide" /\ UNCHANGED fr
          /\ IF R.bw \notin Allowed
             THEN pc' = "bad" /\ why' = "bandwidth " \o ToString(R.bw) \o " signalled, " \o ToString(Allowed) \o " expected"
             ELSE IF R.want # -1 /\ 2 * Cardinality({k \in 1..Len(R.last) : R.last[k] = R.want}) <= Len(R.last)
             THEN pc' = "bad" /\ why' = "bandwidths " \o ToString(R.last) \o " signalled, the input is confined to " \o ToString(R.want)
             ELSE pc' = "good" /\ why' = ""
Next == Decide
Spec == Init /\ [][Next]_vars

Report == pc # "Decide" => PrintT(ToJson([fr |-> fr, ok |-> pc = "good", why |-> why, n |-> Cardinality(Allowed)]))
=============================================================================
