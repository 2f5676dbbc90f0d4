------------------------------- MODULE Trace --------------------------------
(* Replays recorded sessions: behaviour s, position l.  One step per call. *)
EXTENDS Session, SequencesExt
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, st, bad, ok
vars == <<s, l, st, bad, ok>>
Cmds == Sessions[s].cmds
Outs == Sessions[s].out
Init == /\ s \in 1..Len(Sessions) /\ l = 1 /\ st = St0 /\ bad = {} /\ ok = 0
Call == /\ l <= Len(Cmds)
        /\ LET j == Judge(st, Cmds[l], Outs[l]) IN
              /\ bad' = bad \cup {<<l>> \o r : r \in {q \in j : q[2] # "ok"}}
              /\ ok' = ok + (IF \E q \in j : q[2] = "ok" THEN 1 ELSE 0)
        /\ st' = After(st, Cmds[l], Outs[l])
        /\ l' = l + 1 /\ s' = s
Close == /\ l = Len(Cmds) + 1
         /\ PrintT("@" \o ToJson([s |-> s, n |-> Len(Cmds), ok |-> ok, bad |-> SetToSeq(bad)]))
         /\ l' = l + 1 /\ UNCHANGED <<s, st, bad, ok>>
Next == Call \/ Close
Spec == Init /\ [][Next]_vars
=============================================================================
