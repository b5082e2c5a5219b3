------------------------------- MODULE Attack -------------------------------
(* The attack detector of an encoder session.

   One behaviour follows one session, an action per frame. The detector works
   on the 16-bit samples at 16 kHz (sums of 2 or 3 of them), high-pass
   filtered, energies taken over blocks of 2.5 ms.  It runs for frames of
   7.5 and 10 ms, at PCM rates of 32 and 48 kHz, and for a range of sizes;
   elsewhere it neither runs nor moves.

   A session: [dt, sp : PCM rate, fr : frames]; a frame:
     n     size in bytes
     x     samples, preceded by the last 6 of the previous frame
     st    carried state after the frame (energy, running level, block of the
           attack: 0 when none), or empty when it could not be observed
     ev    what the transmitted envelope tells: 1 attack, 0 none, -1 nothing *)
EXTENDS LC3Params, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, k, en, an, pos, att, why
vars == <<tr, k, en, an, pos, att, why>>

S == Sessions[tr]
F == S.fr[k]
M == IF S.sp = 3 THEN 2 ELSE 3          \* samples per sample at 16 kHz
NBlk == IF S.dt = 2 THEN 3 ELSE 4

Enabled(n) == /\ S.dt \in {2, 3} /\ S.sp \in {3, 4}
              /\ n >= (IF S.dt = 2 THEN IF S.sp = 3 THEN 61 ELSE 75 ELSE IF S.sp = 3 THEN 81 ELSE 100)
              /\ (S.dt = 2 => n < 150)

With(v, Op(_)) == CHOOSE y \in {Op(z) : z \in {v}} : TRUE

\* Sample j at 16 kHz of the frame, from -2
Low(j) == IF M = 2 THEN (F.x[6 + 2 * j + 1] + F.x[6 + 2 * j + 2]) \div 2
          ELSE (F.x[6 + 3 * j + 1] + F.x[6 + 3 * j + 2] + F.x[6 + 3 * j + 3]) \div 4

High(j) == (3 * Low(j) - 4 * Low(j - 1) + Low(j - 2)) \div 8

RECURSIVE Energy(_, _, _)
Energy(j, end, s) == IF j = end THEN s ELSE With(High(j), LAMBDA h : Energy(j + 1, end, s + (h * h) \div 32))

Max(a, b) == IF a > b THEN a ELSE b

\* A block is an attack when its energy is 8.5 times the level, which follows
\* the energy of the block before, and falls by 4 a block
RECURSIVE Blocks(_, _)
Blocks(b, d) ==
  IF b = NBlk THEN d
  ELSE With(Energy(40 * b, 40 * b + 40, 0), LAMBDA e :
       With(Max(d.an \div 4, d.en), LAMBDA a :
         Blocks(b + 1, [en |-> e, an |-> a, pos |-> IF e \div 8 > a + a \div 16 THEN b + 1 ELSE d.pos])))

Init == /\ tr \in 1..Len(Sessions) /\ k = 1
        /\ en = 0 /\ an = 0 /\ pos = 0 /\ att = 0 /\ why = ""

\* The frame is under attack when one starts in it, or did in the second half
\* of the last frame the detector ran on
Detect ==
  IF Enabled(F.n)
  THEN \E d \in {Blocks(0, [en |-> en, an |-> an, pos |-> 0])} :
         /\ en' = d.en /\ an' = d.an /\ pos' = d.pos
         /\ att' = IF d.pos > 0 \/ pos >= 1 + NBlk \div 2 THEN 1 ELSE 0
  ELSE att' = 0 /\ UNCHANGED <<en, an, pos>>

Frame ==
  /\ why = "" /\ k <= Len(S.fr)
  /\ Detect
  /\ k' = k + 1 /\ UNCHANGED tr
  /\ why' = IF F.st # <<>> /\ F.st # <<en', an', pos'>> THEN "carried state of the attack detector"
            ELSE IF F.ev # -1 /\ F.ev # att' THEN "attack " \o (IF att' = 1 THEN "missed" ELSE "invented")
            ELSE ""

Next == Frame
Spec == Init /\ [][Next]_vars

Report == (why # "") =>
  PrintT(ToJson([tr |-> tr, k |-> k - 1, why |-> why, info |-> <<en, an, pos, att>>]))

\* The hang-over never outlives the next frame the detector runs on
PosOk == pos \in 0..NBlk
Cover == (k = Len(S.fr) + 1) => PrintT(ToJson([tr |-> tr, cover |-> TRUE]))
=============================================================================
