------------------------------- MODULE GenReg -------------------------------
(***************************************************************************)
(* Sessions with the symbol registry and contexts.                         *)
(*   MODE = "seq"   random histories, some calls on a fresh thread         *)
(*   MODE = "par"   several threads in lock step, then a look at the       *)
(*                  content                                                *)
(*   MODE = "ctx"   random histories of contexts and the global registry   *)
(***************************************************************************)
EXTENDS Cmds, IOUtils
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
Mode == IOEnv.MODE

\* makes the library register the names it uses itself
Warm == <<[c |-> "build", e |-> Add(Fn1("sin", Sym("x")), Fn1("sqrt", Sym("x"))), m |-> "ops", seed |-> 1, to |-> 0],
          [c |-> "diff", r |-> 0, x |-> "x", to |-> 1], [c |-> "comp", r |-> 1, params |-> <<"x">>, ev |-> "E"]>>
R(op, n) == [c |-> "rg", op |-> op, n |-> n]
K(op, k, n) == [c |-> "cx", op |-> op, cx |-> k, n |-> n]
\* names of their own for every session; some share a prefix, some are unusual
Tag(i) == ToString(Seed) \o "z" \o ToString(i)
Pool(i, k) == LET t == Tag(i) IN
  SubSeq(<<"q" \o t, "Q" \o t, "q" \o t \o "_", "α" \o t, "q" \o t \o " b", "qq" \o t>>, 1, k)
GOps == <<"symb", "symb", "symb_new", "symb_get", "exists", "remove", "expr", "names", "count", "symb", "symb_new", "keep", "use", "anon", "remove">>
GCall(s, pool) ==
  LET n == PickFrom(s, 2, pool) o == PickFrom(s, 3, GOps) IN
  CASE o = "names" -> [c |-> "rg", op |-> "names", pool |-> pool]
    [] o = "keep" -> [c |-> "rg", op |-> "keepsym", n |-> n, k |-> 7]
    [] o = "use" -> [c |-> "rg", op |-> "usesym", k |-> 7]
    [] o = "anon" -> [c |-> "anon", k |-> 9]
    [] OTHER -> R(o, n)
Names(pool) == [c |-> "rg", op |-> "names", pool |-> pool]
\* the whole content, seen from here and from another thread
Look(pool) == [i \in 1..Len(pool) |-> R("symb_get", pool[i])] \o <<Names(pool), R("count", "")>>
Thr(cs) == [c |-> "thr", cmds |-> cs]
SeqJob(i) ==
  LET s == Split(Seed, i) pool == Pool(i, 2 + Pick(s, 1, 3))
      Call(k) == LET t == Split(s, 10 + k) IN
        IF Pick(t, 8, 4) = 0 THEN Thr(<<GCall(Split(t, 1), pool), GCall(Split(t, 2), pool)>>)
        ELSE IF Pick(t, 8, 60) = 1 THEN R("clear", "") ELSE GCall(t, pool)
  IN Warm \o <<Names(pool), R("count", ""), [c |-> "rg", op |-> "keepsym", n |-> pool[1], k |-> 7]>>
     \o [k \in 1..(8 + Pick(s, 4, 10)) |-> Call(k)] \o Look(pool) \o <<Thr(Look(pool))>>
     \* built-in functions are still what they were
     \o (IF Pick(s, 5, 4) = 0 THEN <<R("clear", ""), [c |-> "parse", s |-> "sin(x)+sqrt(x)*abs(x)", known |-> <<>>, fns |-> <<>>, to |-> 3],
            [c |-> "diff", r |-> 3, x |-> "x", to |-> 4, pid |-> "S01"], [c |-> "comp", r |-> 4, params |-> <<"x">>, ev |-> "F", pid |-> "S01"],
            [c |-> "cev", ev |-> "F", pts |-> <<<<"0.75">>>>, pid |-> "S01"], Names(pool)>> \o Look(pool) ELSE <<>>)

POps == <<"symb", "symb", "symb_new", "symb_new", "symb_get", "exists", "symb", "remove", "names", "count">>
\* without removals: every name has one identity for good
POps0 == <<"symb", "symb_new", "symb_get", "exists", "symb_new", "symb", "names", "count">>
XOps == <<"symb", "symb", "get", "contains", "symb", "names", "count">>
ParJob(i) ==
  LET s == Split(Seed, i)
      T == 2 + Pick(s, 1, 3)
      n == 3 + Pick(s, 2, 5)
      pool == Pool(i, 1 + Pick(s, 3, 4))
      q == Pick(s, 4, 8)
      ops == IF q = 0 THEN POps ELSE IF q = 1 THEN <<"symb_new", "symb">> ELSE IF q = 2 THEN <<"symb">> ELSE IF q = 3 THEN XOps ELSE POps0
      lock == Pick(s, 5, 3)    \* 0: all threads use the same name in the same step
      Nm(t, k) == IF lock = 0 THEN pool[(k % Len(pool)) + 1] ELSE PickFrom(Split(s, 20 + t), k, pool)
      Call(t, k) == LET u == Split(s, 40 + t) o == PickFrom(u, 100 + k, ops) IN
        IF q = 3 THEN (IF o \in {"names", "count"} THEN [c |-> "cx", op |-> o, cx |-> "A"] ELSE K(o, "A", Nm(t, k)))
        ELSE IF o = "names" THEN Names(pool) ELSE R(o, Nm(t, k))
  IN <<R("clear", "")>> \o (IF q = 3 THEN <<K("new", "A", "")>> ELSE <<>>) \o Warm \o <<Names(pool), R("count", "")>>
     \o <<[c |-> "par", step |-> TRUE, threads |-> [t \in 1..T |-> [k \in 1..n |-> Call(t, k)]]]>>
     \o (IF q = 3 THEN [k \in 1..Len(pool) |-> K("get", "A", pool[k])] \o <<K("names", "A", ""), K("count", "A", "")>> ELSE <<>>)
     \o Look(pool) \o <<Thr(Look(pool)), [c |-> "rg", op |-> "symb", n |-> pool[1]], Names(pool)>>

Cxs == <<"A", "B", "A", "C">>
COps == <<"symb", "symb", "symb", "with", "get", "get", "contains", "contains", "remove", "names", "count", "empty", "fn", "fnname", "hasfn", "hasfn", "hasbody", "use", "use", "rmfn", "fnnames", "clear", "clearfns", "clearall">>
\* the heavy calls rarely
CCall(s, pool, fpool) ==
  LET k == PickFrom(s, 1, Cxs) n == PickFrom(s, 2, pool) f == PickFrom(s, 4, fpool)
      o == PickFrom(s, 3, SubSeq(COps, 1, IF Pick(s, 5, 4) = 0 THEN Len(COps) ELSE Len(COps) - 3)) IN
  CASE o = "fn" -> [c |-> "cx", op |-> "fn", cx |-> k, n |-> f, ar |-> <<1, 1>>, k |-> 1 + Pick(s, 8, 3), body |-> <<"+", <<<<"a", 0>>, Num(ToString(1 + Pick(s, 8, 3)))>>>>, parts |-> <<<<0, Num(ToString(1 + Pick(s, 8, 3)))>>>>]
    [] o \in {"fnname", "hasfn", "hasbody", "rmfn", "use"} -> K(o, k, IF o = "hasfn" /\ Pick(s, 6, 3) = 0 THEN n ELSE f)
    [] OTHER -> K(o, k, n)
\* texts whose meaning depends on what the context holds
Text(s, pool, fpool) == PickFrom(s, 7, <<pool[1] \o "+1", "2" \o pool[1], fpool[1] \o "(" \o pool[1] \o ")", fpool[1] \o "(2)", "1+" \o fpool[1], "2*" \o pool[Len(pool)] \o "^2">>)
CtxJob(i) ==
  LET s == Split(Seed, i)
      pool == Pool(i, 3)
      fpool == <<"fq" \o Tag(i), "gq" \o Tag(i)>>
      Call(k) == LET t == Split(s, 10 + k) w == Pick(t, 9, 12) IN
        IF w < 7 THEN CCall(t, pool, fpool)
        ELSE IF w < 9 THEN GCall(t, pool)
        ELSE IF w = 9 THEN Thr(<<CCall(Split(t, 1), pool, fpool), CCall(Split(t, 2), pool, fpool)>>)
        ELSE IF w = 10 /\ Pick(t, 9, 24) = 10 THEN R("clear", "")
        ELSE IF w = 10 THEN [c |-> "cx", op |-> "clone", cx |-> "A", as |-> "C"]
        ELSE [c |-> "parse", s |-> Text(t, pool, fpool), known |-> <<>>, fns |-> <<>>, cx |-> PickFrom(t, 1, Cxs), ref |-> TRUE, pid |-> "S03"]
  IN Warm \o <<K("new", "A", ""), K("new", "B", ""), K("new", "C", "")>>
     \o <<[c |-> "rg", op |-> "keepsym", n |-> pool[1], k |-> 7]>>
     \o [k \in 1..(10 + Pick(s, 4, 10)) |-> Call(k)]
     \o [k \in 1..Len(pool) |-> K("get", "A", pool[k])] \o [k \in 1..Len(pool) |-> K("get", "B", pool[k])]
     \o <<K("names", "A", ""), K("names", "B", ""), K("fnnames", "A", ""), K("fnnames", "B", ""), K("count", "A", ""), K("empty", "B", "")>>
     \o [k \in 1..Len(pool) |-> R("exists", pool[k])]
\* all calls of a session are made for the property
For(p, c) == LET Tagged(x) == IF "pid" \in DOMAIN x THEN x ELSE [f \in DOMAIN x \cup {"pid"} |-> IF f = "pid" THEN p ELSE x[f]] IN
  IF c.c = "thr" THEN Thr([k \in 1..Len(c.cmds) |-> Tagged(c.cmds[k])]) ELSE IF c.c = "par" THEN c ELSE Tagged(c)
AllFor(p, cs) == [k \in 1..Len(cs) |-> For(p, cs[k])]
Job(i) == [id |-> i, cmds |-> CASE Mode = "seq" -> AllFor("S01", SeqJob(i)) [] Mode = "par" -> AllFor("S02", ParJob(i)) [] OTHER -> AllFor("S03", CtxJob(i))]
VARIABLE written
Init == written = Count /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Job(i)])
Next == FALSE /\ written' = written
=============================================================================
