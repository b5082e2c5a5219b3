---------------------------- MODULE SessionGen -----------------------------
(* A caller of the API: every script of calls up to a length, over the
   abstract inputs of an alphabet, for one encoder or decoder; or random walks
   over several sessions in several memory blocks (TLC -simulate).  The
   scripts are replayed into the implementation, the recorded events checked
   against Session.tla.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Slots, MaxLen, EncInputs, DecInputs, Mode

VARIABLES script, kind, disabled

vars == <<script, kind, disabled>>
Add(a) == script' = Append(script, a)

Init == /\ script = <<>> /\ disabled = {}
        /\ kind = [s \in Slots |-> "none"]

\* a set-up in a free block, or over a session in progress
Setup(s, kd) ==
  /\ (Mode = "all" => kind[s] = "none")
  /\ kind' = [kind EXCEPT ![s] = kd] /\ Add([op |-> "setup", s |-> s, kind |-> kd])
  /\ disabled' = disabled \ {s}

Enc(s) == /\ kind[s] = "enc" /\ \E i \in EncInputs : Add([op |-> "enc", s |-> s, in |-> i])
          /\ UNCHANGED <<kind, disabled>>
Dec(s) == /\ kind[s] = "dec" /\ \E i \in DecInputs : Add([op |-> "dec", s |-> s, in |-> i])
          /\ UNCHANGED <<kind, disabled>>
Disable(s) == /\ kind[s] = "enc" /\ s \notin disabled /\ Add([op |-> "disable", s |-> s])
              /\ disabled' = disabled \union {s} /\ UNCHANGED kind
Move(s) == /\ kind[s] # "none" /\ Add([op |-> "move", s |-> s]) /\ UNCHANGED <<kind, disabled>>
Junk(s) == /\ kind[s] = "none" /\ Add([op |-> "junk", s |-> s]) /\ UNCHANGED <<kind, disabled>>

Next == /\ Len(script) < MaxLen
        /\ \E s \in Slots :
             \/ (Len(script) < 2 * Cardinality(Slots) \/ Mode = "all") /\ \E kd \in {"enc", "dec"} : Setup(s, kd)
             \/ (Mode = "mix" /\ kind[s] # "none" /\ Len(script) % 13 = 7 /\ Setup(s, kind[s]))
             \/ Enc(s) \/ Dec(s)
             \/ (Mode = "mix" /\ (Disable(s) \/ Move(s) \/ Junk(s)))

Spec == Init /\ [][Next]_vars

\* Calls happen only on sessions that are set up
TypeOk == \A i \in 1..Len(script) : script[i].op \in {"enc", "dec"} =>
            \E j \in 1..(i - 1) : script[j].op = "setup" /\ script[j].s = script[i].s
                                  /\ script[j].kind = script[i].op
Emit == Len(script) = MaxLen => PrintT(ToJson(script))
=============================================================================
