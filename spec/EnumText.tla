------------------------------ MODULE EnumText ------------------------------
(* Every text of at most DEPTH lexemes: the state is a text; a session parses all its extensions. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Alphabet == <<"x", "2", "(", ")", "+", "-", "*", "^", "/", "sin", "f", ",", " ", ".", "e", "xy">>
VARIABLES t, k
Emit(u) == PrintT("@" \o ToJson([id |-> 0, stack |-> 2, cmds |->
   [i \in 1..Len(Alphabet) |-> [c |-> "parse", s |-> u \o Alphabet[i], known |-> <<"x">>, fns |-> <<"f">>, ref |-> TRUE]]]))
Init == t = "" /\ k = 1 /\ Emit("")
Next == /\ k < Depth /\ k' = k + 1
        /\ \E i \in 1..Len(Alphabet) : t' = t \o Alphabet[i]
        /\ Emit(t')
=============================================================================
