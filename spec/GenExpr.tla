------------------------------ MODULE GenExpr -------------------------------
(* Seeded random sessions around one expression. *)
EXTENDS Cmds, IOUtils
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Job(i) ==
  LET s == Split(Seed, i)
      pid == IOEnv.PID
      e == IF WideFor(pid, s) THEN Wide(Split(s, 6), GCommon) ELSE RT(Split(s, 5), DepthFor(pid, s), GramFor(pid, s))
  IN [id |-> i, cmds |-> Cmds(pid, e, s)]
VARIABLE written
Init == written = Count /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Job(i)])
Next == FALSE /\ written' = written
=============================================================================
