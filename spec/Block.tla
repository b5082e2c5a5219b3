------------------------------- MODULE Block -------------------------------
(* The C++ and Python objects: several channels behind one call.

   An object is a sequence of sessions of Session.tla, one per channel.  A call
   on the object is one call on each of them: sample i of channel c stands at
   i * n + c of the interleaved buffer, and the block of `size' bytes is shared
   out as evenly as possible, the remainder to the first channels.  Objects and
   C sessions live in the same trace and share the histories of Session.tla, so
   an object must behave as the C sessions do, whichever comes first.

   api "cpp": all channels are called whatever happens to each, and the results
   are combined: -1 if any is refused, else 1 if any was concealed, else 0.
   api "py": the first refused channel ends the call with InvalidArgumentError;
   what the call does to its arguments before that is stated by `pre'.

   Additional events, o the object, n its channels
     new      o api kind hr us hz pcm n err
     reset o / bdisable o
     held     o bytes: memory still held by objects of this configuration that are gone
     benc     o ins size ret res clean wrote pre
     bdec     o ins lost size fmt ret res clean wrote nopitch pre
   ins[c] is the frame or the samples of channel c, res[c] its output.        *)
EXTENDS Session

VARIABLES obj,   \* o -> object
          chan   \* <<o, c>> -> session of channel c
bvars == <<vars, obj, chan>>

Q == INSTANCE Queries WITH Plus <- TRUE, HrMode <- TRUE, at <- k

Share(size, n, c) == size \div n + (IF c - 1 < size % n THEN 1 ELSE 0)

BInit == Init /\ obj = <<>> /\ chan = <<>>

\* Objects whose configuration is not supported refuse every call
Valid(e) == Q!SetupOk(e.hr = 1, e.us, e.hz, e.pcm, TRUE)
Root(o) == <<o.kind, o.dt, o.sr, o.srp>>
Fresh(o) == [kind |-> o.kind, dt |-> o.dt, sr |-> o.sr, node |-> Root(o), prev |-> 0, nop |-> FALSE]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Channels(id, o) == [x \in {<<id, c>> : c \in 1..o.n} |-> Fresh(o)]

\* Python checks the duration and the rate of the codec when the object is made
PyArgs(e) == e.us \in {2500, 5000, 7500, 10000} /\ e.hz \in (IF e.hr = 1 THEN {48000, 96000} ELSE {8000, 16000, 24000, 32000, 48000})
New ==
  /\ E.op = "new"
  /\ LET ok == Valid(E)
         pcm == Q!PcmHz(E.hz, E.pcm)
         o == [api |-> E.api, kind |-> E.kind, n |-> E.n, ok |-> ok, pcmok |-> Q!Supported(E.hr = 1, E.us, pcm),
               dt |-> IF ok THEN Q!DtOf(E.hr = 1, E.us) ELSE 0, sr |-> IF ok THEN Q!SrOf(E.hr = 1, E.hz) ELSE 0,
               srp |-> IF ok THEN Q!SrOf(E.hr = 1, pcm) ELSE 0]
         IN
     \* Python: refused when made for its duration or rate; when only the PCM
     \* rate is wrong, then or at the first call
     /\ good' = (/\ E.api = "cpp" => E.err = 0
                 /\ E.api = "py" => (ok => E.err = 0) /\ (~PyArgs(E) => E.err = 1) /\ E.err \in {0, 1})
     /\ obj' = Over(obj, E.o :> o)
     /\ chan' = Over(chan, Channels(E.o, o))
  /\ UNCHANGED <<sess, tree, out, verdict, pure>>

Reset == /\ E.op = "reset"
         /\ chan' = Over(chan, Channels(E.o, obj[E.o]))
         /\ good' = TRUE /\ UNCHANGED <<sess, tree, out, verdict, pure, obj>>

\* Objects that are gone hold nothing
Held == /\ E.op = "held" /\ good' = (E.bytes <= 0)
        /\ UNCHANGED <<sess, tree, out, verdict, pure, obj, chan>>

\* State threaded through the channels of a call
Acc == [tree |-> tree, out |-> out, verdict |-> verdict, chan |-> chan, good |-> TRUE, ret |-> 0, wrote |-> FALSE]
Kid(t, node, input) == Get(t, <<node, input>>, <<"n", Cardinality(DOMAIN t) + 1>>)
OrRet(a, b) == IF a = -1 \/ b = -1 THEN -1 ELSE Max2(a, b)

RECURSIVE DisableAll(_, _, _)
DisableAll(t, ch, c) ==
  IF c > obj[E.o].n THEN <<t, ch>>
  ELSE LET s == ch[<<E.o, c>>]
           m == Kid(t, s.node, <<"disable">>) IN
       DisableAll(Put(t, <<s.node, <<"disable">>>>, m), [ch EXCEPT ![<<E.o, c>>].node = m], c + 1)
BDisable == /\ E.op = "bdisable"
            /\ LET r == DisableAll(tree, chan, 1) IN tree' = r[1] /\ chan' = r[2]
            /\ good' = TRUE /\ UNCHANGED <<sess, out, verdict, pure, obj>>

\* What a call that raises has done to the first channels is not to be seen
Seen == obj[E.o].api = "cpp" \/ E.ret # -1
Stops(a) == obj[E.o].api = "py" /\ a.ret = -1

EncOne(a, c) ==
  LET s == a.chan[<<E.o, c>>]
      n == Share(E.size, obj[E.o].n, c) IN
  IF E.size < 0 \/ ~EncSizeOk(s.dt, s.sr, n) THEN [a EXCEPT !.ret = -1]
  ELSE LET i == <<"enc", E.ins[c], n>>
           m == Kid(a.tree, s.node, i)
           r == E.res[c] IN
       [a EXCEPT !.tree = Put(a.tree, <<s.node, i>>, m),
                 !.out = IF Seen THEN Put(a.out, <<m, 0>>, r) ELSE a.out,
                 !.chan = [a.chan EXCEPT ![<<E.o, c>>].node = m],
                 !.good = a.good /\ (Seen => r = Get(a.out, <<m, 0>>, r)),
                 !.ret = OrRet(a.ret, 0), !.wrote = TRUE]

DecOne(a, c) ==
  LET s == a.chan[<<E.o, c>>]
      n == Share(E.size, obj[E.o].n, c) IN
  IF E.lost = 0 /\ (E.size < 0 \/ ~DecSizeOk(s.dt, s.sr, n)) THEN [a EXCEPT !.ret = -1]
  ELSE LET in == E.ins[c]
           r == E.res[c]
           known == <<s.dt, s.sr, in>> \in DOMAIN a.verdict
           \* a frame never seen is good or bad as one C call finds: it must be known
           v == IF E.lost = 1 THEN 1 ELSE Get(a.verdict, <<s.dt, s.sr, in>>, 0)
           i == IF v = 1 THEN <<"lost">> ELSE <<"dec", in>>
           m == Kid(a.tree, s.node, i) IN
       [a EXCEPT !.tree = Put(a.tree, <<s.node, i>>, m),
                 !.out = IF Seen THEN Put(a.out, <<m, E.fmt>>, r) ELSE a.out,
                 !.chan = [a.chan EXCEPT ![<<E.o, c>>].node = m],
                 !.good = a.good /\ (E.lost = 1 \/ known) /\ (Seen => r = Get(a.out, <<m, E.fmt>>, r)),
                 !.ret = OrRet(a.ret, v), !.wrote = TRUE]

RECURSIVE Each(_, _, _)
Each(a, c, enc) == IF c > obj[E.o].n \/ Stops(a) THEN a ELSE Each(IF enc THEN EncOne(a, c) ELSE DecOne(a, c), c + 1, enc)

\* Nothing is done, nothing is written
Nothing(r) == /\ good' = (E.ret = r /\ E.clean = 1 /\ E.wrote = 0)
              /\ UNCHANGED <<sess, tree, out, verdict, pure, obj, chan>>

Call(enc) ==
  LET o == obj[E.o] IN
  \* the arguments alone make the call invalid (bit depth, values that are not numbers)
  IF o.api = "py" /\ E.pre = 1 THEN Nothing(-1)
  ELSE IF ~o.ok THEN Nothing(-1)
  ELSE LET a == Each(Acc, 1, enc) IN
       /\ tree' = a.tree /\ out' = a.out /\ verdict' = a.verdict /\ chan' = a.chan
       \* Python tells good from concealed to nobody
       /\ good' = (/\ a.good /\ E.clean = 1
                   /\ E.ret = (IF o.api = "py" THEN Min2(a.ret, 0) ELSE a.ret)
                   /\ (~a.wrote => E.wrote = 0))
       /\ UNCHANGED <<sess, pure, obj>>

BNext ==
  /\ k < Len(Traces[tr]) /\ good /\ k' = k + 1 /\ UNCHANGED tr
  /\ \/ (Setup \/ Still \/ Disable \/ Encode \/ Decode) /\ UNCHANGED <<obj, chan>>
     \/ New \/ Reset \/ BDisable \/ Held
     \/ E.op = "benc" /\ Call(TRUE)
     \/ E.op = "bdec" /\ Call(FALSE)
BSpec == BInit /\ [][BNext]_bvars
=============================================================================
