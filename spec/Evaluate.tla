------------------------------ MODULE Evaluate ------------------------------
(***************************************************************************)
(* Misuse of compilation and batch evaluation, user functions in compiled  *)
(* code, and evaluation of many expressions at once.                       *)
(***************************************************************************)
EXTENDS Calculus

RECURSIVE HasDer(_)
HasDer(e) == Op(e) = "d" \/ \E k \in Range1(Kids(e)) : HasDer(k)
ParamNames(st, c) == [i \in 1..Len(c.params) |-> IF Has(c, "via") /\ c.via = "sym" THEN VName(st, c.params[i]) ELSE c.params[i]]

(* c.bodies: the user functions that have a body in the context of the call *)
CompErrs(st, c) ==
  LET e == st.regs[c.r] auto == GetOr(c, "auto", FALSE) IN
  (IF ~auto /\ NamesOf(e) \ ToSet(ParamNames(st, c)) # {} THEN {"UnboundVariable"} ELSE {})
  \cup (IF FnsOf(e) \ (Builtins \cup SetOf(c, "bodies")) # {} THEN {"UnsupportedFunction"} ELSE {})
  \cup (IF HasDer(e) THEN {"UnsupportedExpression"} ELSE {})
JCompile(st, c, o) ==
  LET es == CompErrs(st, c) e == st.regs[c.r] IN
  IF o.t = "err" THEN Is(o.k \in es, "error " \o o.k \o " without cause")
  ELSE IF o.t # "ev" THEN {}
  ELSE Is(es = {}, "accepted although " \o ToString(es)) \cup Is(o.n = Len(o.params), "parameter count")
       \cup (IF GetOr(c, "auto", FALSE) THEN Is(Len(o.params) = Cardinality(NamesOf(e)) /\ ToSet(o.params) = NamesOf(e), "automatic parameters are not the free symbols")
             ELSE IF GetOr(c, "via", "") = "sym" THEN {} ELSE Is(o.params = c.params, "parameters"))

Sentinel == "-777.25"
EvAt(ev, pt, fns, k) == Eval(ev.e, Cfg(fns, [n \in ToSet(ev.params) |->
   LET i == CHOOSE i \in 1..Len(ev.params) : ev.params[i] = n IN IF i <= Len(pt) THEN RLit(pt[i]) ELSE Zero], k))
\* rows of columns
RowOf(cols, i) == [j \in 1..Len(cols) |-> cols[j][i]]
PointsOf(cols) == IF Len(cols) = 0 THEN 1 ELSE Len(cols[1])
Ragged(cols) == Len(cols) > 0 /\ \E j \in 1..Len(cols) : Len(cols[j]) # Len(cols[1])
BatchErrs(np, cols, out) ==
  (IF Len(cols) # np THEN {"EvalColumnMismatch"} ELSE {}) \cup (IF Ragged(cols) THEN {"EvalColumnLengthMismatch"} ELSE {})
  \cup (IF out < PointsOf(cols) THEN {"EvalOutputTooSmall"} ELSE {})
JBatch(st, c, o, fns) ==
  IF c.ev \notin DOMAIN st.evs THEN {} ELSE
  LET ev == st.evs[c.ev]
      np == PointsOf(c.cols)
      es == BatchErrs(Len(ev.params), c.cols, IF c.c = "pbatch" THEN np ELSE c.n) IN
  IF o.t = "err" THEN Is(o.k \in es, "error " \o o.k \o " without cause")
  ELSE IF o.t # "v" THEN {}
  ELSE IF es # {} THEN {"accepted although " \o ToString(es)}
  ELSE Is(Len(o.v) = (IF c.c = "pbatch" THEN np ELSE c.n), "length")
       \cup UNION {IF i <= np THEN NumAt(EvAt(ev, RowOf(c.cols, i), fns, 46), o.v[i]) ELSE Is(RContains(RLit(Sentinel), o.v[i]), "written beyond the points") : i \in 1..Len(o.v)}

(* eval_f64: several expressions, each with its own variables and columns *)
JEvalF64(st, c, o, fns) ==
  LET n == Len(c.rs)
      shape == n = Len(c.vars) /\ n = Len(c.data)
      E(i) == [e |-> st.regs[c.rs[i]], params |-> c.vars[i]]
      free(i) == NamesOf(E(i).e) \ ToSet(c.vars[i])
      empty(i) == Len(c.data[i]) > 0 /\ Len(c.data[i][1]) = 0
      bad(i) == ~empty(i) /\ (free(i) # {} \/ FnsOf(E(i).e) \ Builtins # {} \/ HasDer(E(i).e) \/ Len(c.data[i]) # Len(c.vars[i]) \/ Ragged(c.data[i])) IN
  IF o.t = "err" THEN Is(~shape \/ \E i \in 1..n : bad(i) \/ empty(i), "error without cause")
  ELSE IF o.t # "vv" THEN {}
  ELSE IF ~shape \/ \E i \in 1..n : bad(i) THEN {"accepted"}
  ELSE Is(Len(o.v) = n, "number of expressions")
       \cup UNION {IF empty(i) THEN Is(Len(o.v[i]) = 0, "results without points")
                   ELSE Is(Len(o.v[i]) = PointsOf(c.data[i]), "number of points")
                        \cup UNION {NumAt(EvAt(E(i), RowOf(c.data[i], j), fns, 46), o.v[i][j]) : j \in 1..Len(o.v[i])} : i \in 1..n}

(* ------------- several expressions at several points -------------------- *)
\* the expression of entry i (text is read by the specification)
ExprOf(st, x) == IF x[1] = "r" THEN [k |-> "e", e |-> st.regs[x[2]]] ELSE Syn!Read(x[2], {}, {})
ValueAt(col, p) == col[IF p <= Len(col) THEN p ELSE Len(col)]
IsNumV(v) == v[1] = "n"
\* what is put in for variable j at point p; skipped variables are left out
Fill(st, vs, cols, p, Sel(_)) ==
  LET js == {j \in 1..Len(vs) : ValueAt(cols[j], p)[1] # "skip" /\ Sel(ValueAt(cols[j], p))} IN
  [n \in {VName(st, vs[j]) : j \in js} |-> LET j == CHOOSE j \in js : VName(st, vs[j]) = n IN Conc(st, ValueAt(cols[j], p))]
PAll(v) == TRUE
PExpr(v) == ~IsNumV(v)
\* numbers may also reach the symbols of substituted expressions: both readings are accepted
Wanted(st, e, vs, cols, p) == {Subst(e, Fill(st, vs, cols, p, PAll)), Subst(Subst(e, Fill(st, vs, cols, p, PExpr)), Fill(st, vs, cols, p, IsNumV))}
CplxErr(st, c, i) ==
  (IF Len(c.vars[i]) # Len(c.vals[i]) THEN {"EvalColumnMismatch"} ELSE {})
  \cup (IF (\E j \in 1..Len(c.vals[i]) : c.vals[i][j] = <<>>) /\ \E j \in 1..Len(c.vals[i]) : c.vals[i][j] # <<>> THEN {"EvalColumnLengthMismatch"} ELSE {})
NPoints(cols) == IF Len(cols) = 0 THEN 1 ELSE MaxOf({Len(cols[j]) : j \in 1..Len(cols)})
JEvp(st, c, o, fns) ==
  LET n == Len(c.exprs)
      shape == n = Len(c.vars) /\ n = Len(c.vals)
      rd == [i \in 1..n |-> ExprOf(st, c.exprs[i])]
      es == (IF shape THEN UNION {CplxErr(st, c, i) : i \in 1..n} ELSE {"UnsupportedOperation"}) IN
  IF \E i \in 1..n : rd[i].k = "any" THEN {}
  ELSE IF \E i \in 1..n : rd[i].k = "err" THEN Is(o.t = "err", "accepted")
  ELSE IF o.t = "err" THEN Is(o.k \in es, "error " \o o.k \o " without cause")
  ELSE IF o.t # "evp" THEN {}
  ELSE IF es # {} THEN {"accepted although " \o ToString(es)}
  ELSE Is(Len(o.v) = n, "number of expressions")
       \cup UNION {Is(Len(o.v[i]) = NPoints(c.vals[i]), "number of points")
                   \cup UNION {LET w == Wanted(st, rd[i].e, c.vars[i], c.vals[i], p)
                                   r == o.v[i][p]
                                   names == UNION {NamesOf(u) : u \in w}
                                   got == IF r.k = "e" THEN [k |-> "e", e |-> r.e] ELSE Syn!Read(r.s, names, UNION {FnsOf(u) : u \in w} \ Builtins)
                                   J(u) == (Compare(u, got.e, fns, Few, 40, AllPts) \ {"def"})
                                         \cup (IF NamesOf(got.e) \subseteq names THEN {} ELSE {"free symbols"})
                               IN IF (r.k = "e") # (c.exprs[i][1] = "r") THEN {"type of the result"}
                                  ELSE IF r.k = "s" /\ Unwritable(r.s) THEN {}
                                  ELSE IF got.k = "any" THEN {}
                                  ELSE IF got.k = "err" THEN {"result not readable"}
                                  ELSE IF \E u \in w : J(u) \in {{}, {"ok"}} THEN {"ok"}
                                  ELSE UNION {{IF q = "ok" THEN "ok" ELSE "expression " \o ToString(i) \o " point " \o ToString(p) \o ": " \o q : q \in J(u)} : u \in w} \ {"ok"}
                               : p \in 1..(IF Len(o.v[i]) = NPoints(c.vals[i]) THEN Len(o.v[i]) ELSE 0)} : i \in 1..(IF Len(o.v) = n THEN n ELSE 0)}
=============================================================================
