------------------------------ MODULE Session ------------------------------
(* Codec sessions as the user of the API sees them.

   A session lives in a memory block, is an encoder or a decoder, and has a
   configuration.  What a call does is decided by
     - the documented acceptance rules (return value -1, nothing else happens),
     - for accepted calls, an unknown but fixed function of the configuration
       and of the accepted inputs since set-up.
   The unknown functions are learnt while the trace is read: `tree' holds the
   histories seen so far, `out' the output seen for each of them, `verdict' the
   classification of each frame content.  A second visit of a history, in
   whatever session, thread, memory block, format or stride, must give the
   same output; a call that is refused must leave the node where it is.

   Inputs are identified by value: `in' is the same number exactly when the
   sample values (or frame bytes) are the same, `res' the same number exactly
   when the output is.  A damaged frame is the input "lost": C11.

   Traces: IOEnv.TRACE, one JSON line each, a sequence of events
     setup  s kind dt sr srp ret
     enc    s null in n ret clean res
     dec    s null lost in n fmt ret clean res nopitch
     disable s / move s / junk s                                            *)
EXTENDS LC3Params, TLC, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  tr,       \* the trace
  k,        \* events read
  sess,     \* slot -> [kind, dt, sr, node, prev, nop]
  tree,     \* <<node, input>> -> node
  out,      \* <<node, format>> -> output
  verdict,  \* <<dt, sr, frame>> -> 0 good, 1 bad
  pure,     \* <<configuration, frame, frame, format>> -> output of the second of two good frames without postfilter
  good      \* FALSE once an event contradicts the model

vars == <<tr, k, sess, tree, out, verdict, pure, good>>

E == Traces[tr][k + 1]
NoSess == [kind |-> "none", dt |-> 0, sr |-> 0, node |-> <<>>, prev |-> 0, nop |-> FALSE]
Slots == 1..12

Init == /\ tr \in 1..Len(Traces) /\ k = 0
        /\ sess = [s \in Slots |-> NoSess]
        /\ tree = <<>> /\ out = <<>> /\ verdict = <<>> /\ pure = <<>>
        /\ good = TRUE

Get(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default
Put(f, x, v) == IF x \in DOMAIN f THEN f ELSE f @@ (x :> v)

\* Nodes: the root of a configuration, or a number
Child(node, input) == Get(tree, <<node, input>>, <<"n", Cardinality(DOMAIN tree) + 1>>)

Setup ==
  /\ E.op = "setup"
  /\ good' = (E.ret = 1 /\ E.clean = 1)
  /\ sess' = [sess EXCEPT ![E.s] = [kind |-> E.kind, dt |-> E.dt, sr |-> E.sr,
                                    node |-> <<E.kind, E.dt, E.sr, E.srp>>, prev |-> 0, nop |-> FALSE]]
  /\ UNCHANGED <<tree, out, verdict, pure>>

\* Moving the block, what other memory holds: nothing changes
Still == /\ E.op \in {"move", "junk"} /\ good' = TRUE /\ UNCHANGED <<sess, tree, out, verdict, pure>>

Disable ==
  /\ E.op = "disable"
  /\ LET s == sess[E.s]
         n == Child(s.node, <<"disable">>) IN
     /\ tree' = Put(tree, <<s.node, <<"disable">>>>, n)
     /\ sess' = [sess EXCEPT ![E.s].node = n]
  /\ good' = TRUE /\ UNCHANGED <<out, verdict, pure>>

Refused == /\ good' = (E.ret = -1 /\ E.clean = 1 /\ E.wrote = 0)
           /\ UNCHANGED <<sess, tree, out, verdict, pure>>

Encode ==
  /\ E.op = "enc"
  /\ LET s == sess[E.s] IN
     IF E.null = 1 \/ ~EncSizeOk(s.dt, s.sr, E.n) THEN Refused
     ELSE LET i == <<"enc", E.in, E.n>>
              n == Child(s.node, i) IN
          /\ tree' = Put(tree, <<s.node, i>>, n)
          /\ out' = Put(out, <<n, 0>>, E.res)
          /\ sess' = [sess EXCEPT ![E.s].node = n]
          /\ good' = (E.ret = 0 /\ E.clean = 1 /\ E.res = Get(out, <<n, 0>>, E.res))
          /\ UNCHANGED <<verdict, pure>>

Decode ==
  /\ E.op = "dec"
  /\ LET s == sess[E.s] IN
     IF E.null = 1 \/ (E.lost = 0 /\ ~DecSizeOk(s.dt, s.sr, E.n)) THEN Refused
     ELSE LET v == IF E.lost = 1 THEN 1 ELSE Get(verdict, <<s.dt, s.sr, E.in>>, E.ret)
              i == IF v = 1 THEN <<"lost">> ELSE <<"dec", E.in>>
              n == Child(s.node, i)
              \* two good frames in a row, the postfilter off in both: the
              \* output is a function of these two frames alone
              p == <<s.node[1] = "n", s.dt, s.sr, E.srp, s.prev, E.in, E.fmt>>
              rec == v = 0 /\ s.prev # 0 /\ s.nop /\ E.nopitch = 1 IN
          /\ tree' = Put(tree, <<s.node, i>>, n)
          /\ out' = Put(out, <<n, E.fmt>>, E.res)
          /\ verdict' = IF E.lost = 1 THEN verdict ELSE Put(verdict, <<s.dt, s.sr, E.in>>, E.ret)
          /\ pure' = IF rec THEN Put(pure, p, E.res) ELSE pure
          /\ sess' = [sess EXCEPT ![E.s].node = n, ![E.s].prev = IF v = 0 THEN E.in ELSE 0,
                                  ![E.s].nop = (v = 0 /\ E.nopitch = 1)]
          /\ good' = (/\ E.ret = v /\ v \in {0, 1} /\ E.clean = 1
                      /\ E.res = Get(out, <<n, E.fmt>>, E.res)
                      /\ (rec => E.res = Get(pure, p, E.res)))

Next == /\ k < Len(Traces[tr]) /\ good /\ k' = k + 1 /\ UNCHANGED tr
        /\ (Setup \/ Still \/ Disable \/ Encode \/ Decode)
Spec == Init /\ [][Next]_vars

\* The trace is a behaviour of the model
Conforms == good
\* ... of all its events
Complete == (good /\ k < Len(Traces[tr])) => ENABLED Next
=============================================================================
