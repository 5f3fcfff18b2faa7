--------------------------------- MODULE Tr ---------------------------------
(* Generic trace validation.  A trace file has one session per line; every   *)
(* session is a behaviour of the specification's machine, recorded from the  *)
(* real code: each step has the action, its arguments, the state observed    *)
(* after it and the answers to queries put to the objects in that state.     *)
(* Start/Step are the machine of the specification; Fails names the clauses  *)
(* the recorded step breaks; Sync adopts the observed state so that the rest *)
(* of a session is still checked.  Every session is validated to its end:    *)
(* verdicts are total, the driver insists on one DONE line per session.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Start(_), Step(_,_), Fails(_,_,_), Sync(_,_)

Sessions == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Steps(n) == Sessions[n].steps

Init == /\ t \in DOMAIN Sessions
        /\ l = 0
        /\ st = Start(Sessions[t])
        /\ bad = {}

Next == /\ l < Len(Steps(t))
        /\ l' = l + 1
        /\ t' = t
        /\ LET ev == Steps(t)[l+1]
               s2 == Step(st, ev)
               f  == Fails(st, s2, ev) IN
           /\ st' = Sync(s2, ev)
           /\ bad' = IF Cardinality(bad) < 40 THEN bad \cup {<<l+1, c>> : c \in f} ELSE bad

Spec == Init /\ [][Next]_vars

Report == (l = Len(Steps(t))) =>
             PrintT("DONE " \o ToString(t) \o " " \o ToJson(SetToSeq(bad)))
=============================================================================
