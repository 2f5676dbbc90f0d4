------------------------------ MODULE EnumExpr ------------------------------
(***************************************************************************)
(* The expression-building machine: start from an atom, repeatedly apply   *)
(* an operator or function.  TLC visits every expression that DEPTH steps  *)
(* reach; each becomes a session.                                          *)
(***************************************************************************)
EXTENDS Cmds, IOUtils
Depth == atoi(IOEnv.DEPTH)
Pid == IOEnv.PID
Atoms == {Sym("x"), Sym("y"), Num("2"), Num("-1"), Num("0.5")}
Unary == CASE Pid \in {"M01", "M02"} -> {"sqrt", "abs", "ln", "exp", "sin", "cbrt"}
           [] Pid \in {"F01", "V01", "V02"} -> {"sqrt", "abs", "ln", "exp", "sin", "tanh"}
           [] OTHER -> {"sqrt", "sin"}
Bin(o, a, b) == IF o \in {"+", "*"} THEN <<o, <<a, b>>>> ELSE <<o, a, b>>
VARIABLES e, k
Emit(t) == PrintT("@" \o ToJson([id |-> 0, cmds |-> Cmds(Pid, t, HashS(ToString(t)) % 1000000)]))
Init == e \in Atoms /\ k = 0 /\ Emit(e)
Next == /\ k < Depth /\ k' = k + 1
        /\ e' \in {Fn1(f, e) : f \in Unary} \cup {Neg(e)}
                  \cup {Bin(o, e, a) : o \in {"+", "*", "-", "/", "^"}, a \in Atoms}
                  \cup {Bin(o, a, e) : o \in {"-", "/", "^"}, a \in Atoms}
                  \cup {Bin(o, e, e) : o \in {"+", "*", "-", "/"}}
        /\ Emit(e')
=============================================================================
