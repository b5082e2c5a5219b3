------------------------------- MODULE Stream -------------------------------
(* End to end position of the samples: encoder, then decoder.

   A stream record holds what was observed of a signal known at any time:
     dt, sr, se, sd : configuration, PCM rates of the encoder and the decoder
     query          : answer of the delay query at the rate of the decoder
     shift          : delay of the output found, in 1/16 of a sample
     n, frames      : samples at the input, frames encoded
     snr, other     : agreement of the output with the input at that delay, and
                      the best one further away (1/100 dB)
     head, tail     : agreement over the first and the last samples
   The input is cut in frames, the last one completed with zeros; as many
   frames are decoded as encoded.                                           *)
EXTENDS LC3Params, TLC, Json, IOUtils

Streams == ndJsonDeserialize(IOEnv.FRAMES)
VARIABLES fr, pc, why
vars == <<fr, pc, why>>
R == Streams[fr]

\* Frames needed to get the last input sample out of the decoder: the delay is
\* the same time at all rates
FramesNeeded(dt, se, n) == (n + Delay(dt, se) + Ns(dt, se) - 1) \div Ns(dt, se)

\* The transform samples the time at the middle of the periods: a change of
\* rate moves the samples by the difference of the half periods
Phase(se, sd) == (8 * SrHz[sd + 1]) \div SrHz[se + 1] - 8
Abs(x) == IF x < 0 THEN -x ELSE x

Verdict ==
  IF R.query # Delay(R.dt, R.sd) THEN "the delay query gives " \o ToString(R.query)
  ELSE IF Abs(R.shift - (16 * R.query + Phase(R.se, R.sd))) > (IF R.se = R.sd THEN 0 ELSE 3) THEN "the output is late by " \o ToString(R.shift) \o "/16 samples, the query tells " \o ToString(R.query)
  ELSE IF R.snr < R.other + 300 THEN "no delay fits the output"
  ELSE IF R.frames # FramesNeeded(R.dt, R.se, R.n) THEN "frames"
  ELSE IF R.head < 300 \/ R.tail < 300 THEN "samples lost at an end"
  ELSE ""

Init == fr \in 1..Len(Streams) /\ pc = "Decide" /\ why = ""
Next == pc = "Decide" /\ UNCHANGED fr /\ why' = Verdict /\ pc' = (IF why' = "" THEN "good" ELSE "bad")
Spec == Init /\ [][Next]_vars
Report == pc # "Decide" => PrintT(ToJson([fr |-> fr, ok |-> pc = "good", why |-> why]))

\* The delay is the same duration at every rate
SameTime == \A dt \in DTs, a \in 0..4, b \in 0..4 : Delay(dt, a) * SrHz[b + 1] = Delay(dt, b) * SrHz[a + 1]
=============================================================================
