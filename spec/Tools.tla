------------------------------- MODULE Tools -------------------------------
(* The command line tools: what is done with each block of a recording.

   The encoder reads a recording frame by frame, fills the last ones with
   silence until the codec has delivered all of it (its delay included), and
   writes a block for each. The decoder delivers one frame of samples for each
   block, drops the first ones, of the delay, and stops at the number of
   samples of the recording; blocks that are missing are silence.

   A state is the position in the recording; each step consumes a block, and
   tells what it is made of. LawsSpec checks the two tools against each other
   for every configuration and length; CasesSpec runs given cases: the plans
   it prints are executed on the codec, and compared with what the tools did. *)
EXTENDS LC3Params, TLC, Json, IOUtils, SequencesExt

Q == INSTANCE Queries WITH Plus <- TRUE, HrMode <- TRUE, at <- 0

VARIABLES c,      \* the case: [tool, us, hr, hz, ohz, nch, n, avail, rate, bits, ss]
          blk,    \* next block
          plan    \* what the blocks are made of
vars == <<c, blk, plan>>

\* Rate of the other side: of the stream written, of the samples delivered
Other(x) == IF x.ohz = 0 THEN x.hz ELSE x.ohz
\* floor(n * a / b) for rates that are multiples of 1000
Scale(n, a, b) == LET p == a \div 1000  q == b \div 1000 IN (n \div q) * p + ((n % q) * p) \div q

Enc(x) == x.tool = "enc"
\* The rate at which blocks are counted in samples: of the recording
Hz(x) == IF Enc(x) THEN x.hz ELSE Other(x)
Frame(x) == Q!FrameSamples(x.hr = 1, x.us, Hz(x))
Dly(x) == Q!DelaySamples(x.hr = 1, x.us, Hz(x))
\* Samples of the recording
Length(x) == IF Enc(x) THEN x.n ELSE Scale(x.n, Other(x), x.hz)
Total(x) == Length(x) + Dly(x)
Blocks(x) == (Total(x) + Frame(x) - 1) \div Frame(x)

Accepted(x) ==
  /\ x.nch \in 1..2
  /\ Q!Supported(x.hr = 1, x.us, x.hz) /\ Q!Supported(x.hr = 1, x.us, Other(x))
  /\ IF Enc(x) THEN x.rate > 0 /\ Other(x) <= x.hz /\ <<x.bits, x.ss>> \in {<<16, 2>>, <<24, 3>>, <<24, 4>>}
     ELSE Other(x) >= x.hz /\ x.bits \in {16, 24}

BlockBytes(x) == Q!BlockBytes(x.hr = 1, x.us, x.hz, x.nch, x.rate)
\* Of the file written by the encoder
EncHeader(x) == [hz |-> Other(x), us |-> x.us, hr |-> x.hr, nch |-> x.nch, n |-> Scale(x.n, Other(x), x.hz),
                 bytes |-> BlockBytes(x),
                 rate |-> Q!ResolveBitrate(x.hr = 1, x.us, x.hz, BlockBytes(x))]

\* Encoder: samples first .. first + count - 1 of the recording, then silence
EncBlock(x, i) == LET a == i * Frame(x) IN
                  [first |-> a, count |-> Max2(0, Min2(Min2(x.n, x.avail), a + Frame(x)) - a)]
\* Decoder: samples skip .. skip + count - 1 of the frame
DecBlock(x, i) == LET a == i * Frame(x)
                      lo == Max2(a, Dly(x))
                      hi == Max2(lo, Min2(a + Frame(x), Total(x))) IN
                  [here |-> IF i < x.avail THEN 1 ELSE 0, skip |-> Min2(lo - a, Frame(x)), count |-> hi - lo]

Step == /\ Accepted(c) /\ blk < Blocks(c) /\ blk' = blk + 1
        /\ plan' = Append(plan, IF Enc(c) THEN EncBlock(c, blk) ELSE DecBlock(c, blk))
        /\ UNCHANGED c
Done == blk = (IF Accepted(c) THEN Blocks(c) ELSE 0)

(* --------------------------------- laws --------------------------------- *)

RECURSIVE Sum(_, _)
Sum(p, k) == IF k = 0 THEN 0 ELSE Sum(p, k - 1) + p[k].count
Covered == (Done /\ Accepted(c)) => Sum(plan, Len(plan)) = (IF Enc(c) THEN Min2(c.n, c.avail) ELSE Length(c))

\* The decoder's case for the file written by the encoder
Back(x, ohz) == [x EXCEPT !.tool = "dec", !.hz = Other(x), !.ohz = ohz, !.n = EncHeader(x).n, !.avail = Blocks(x), !.bits = 16]
\* no block is missing, and the length is kept
Whole == (Done /\ Enc(c) /\ Accepted(c)) =>
  /\ Blocks(Back(c, 0)) <= Blocks(c)
  /\ (Other(c) = c.hz) => Length(Back(c, 0)) = c.n
  /\ Length(Back(c, c.hz)) <= c.n /\ Length(Back(c, c.hz)) > c.n - (c.hz \div Other(c)) - 1
\* Sample j of what is delivered is sample j + delay of the stream
Aligned == (Done /\ ~Enc(c) /\ Accepted(c)) =>
  \A k \in 1..Len(plan) : plan[k].count > 0 =>
     (k - 1) * Frame(c) + plan[k].skip - Dly(c) = Sum(plan, k - 1)

LawsInit ==
  /\ blk = 0 /\ plan = <<>>
  /\ \E x \in Configs : \E y \in SRs : \E t \in {"enc", "dec"} :
       /\ HR(x[2]) = HR(y) /\ (IF t = "enc" THEN y <= x[2] ELSE y >= x[2])
       /\ LET F == Ns(x[1], x[2])
              D == Delay(x[1], x[2]) IN
          \E n \in {0, 1, 2, 7, D - 1, D, D + 1, F - D - 1, F - D, F - D + 1, F - 1, F, F + 1, 2 * F - D - 1, 2 * F - D, 2 * F - D + 1,
                    2 * F - 1, 2 * F, 2 * F + 1, 3 * F + 5, 4 * F - D, 5 * F - D + 1} :
            /\ n >= 0
            /\ c = [tool |-> t, us |-> DtUs[x[1] + 1], hr |-> IF HR(y) THEN 1 ELSE 0, hz |-> SrHz[x[2] + 1],
                    ohz |-> IF x[2] = y THEN 0 ELSE SrHz[y + 1], nch |-> 2, n |-> n, avail |-> n, rate |-> 64000, bits |-> 16, ss |-> 2]
LawsSpec == LawsInit /\ [][Step]_vars

(* --------------------------------- cases -------------------------------- *)

Cases == ndJsonDeserialize(IOEnv.CASES)
CasesInit == /\ \E i \in 1..Len(Cases) : c = Cases[i]
             /\ blk = 0 /\ plan = <<>>
CasesSpec == CasesInit /\ [][Step]_vars
Show == Done => PrintT(ToJson([id |-> c.id, ok |-> IF Accepted(c) THEN 1 ELSE 0,
                                head |-> IF Enc(c) /\ Accepted(c) THEN EncHeader(c) ELSE [n |-> IF Accepted(c) THEN Length(c) ELSE 0],
                                plan |-> plan]))
=============================================================================
