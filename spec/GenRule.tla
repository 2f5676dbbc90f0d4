------------------------------ MODULE GenRule -------------------------------
(* Seeded sessions around rule-shaped expressions. *)
EXTENDS Rules, IOUtils
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Job(i) == LET s == Split(Seed, i) IN [id |-> i, cmds |-> Cmds(IOEnv.PID, RuleIn(s, 1), s)]
VARIABLE written
Init == written = Count /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Job(i)])
Next == FALSE /\ written' = written
=============================================================================
