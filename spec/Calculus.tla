------------------------------ MODULE Calculus ------------------------------
(***************************************************************************)
(* What derivatives, matrices of derivatives, limits of the builders,      *)
(* uncertainties and dual numbers must be.  Each operator returns reasons. *)
(***************************************************************************)
EXTENDS Base

Is(b, w) == IF b THEN {"ok"} ELSE {w}
Few == <<"pos", "mix", "pos">>

(* --------------------------- references --------------------------------- *)
\* the name under which a symbol reference shows up in expressions
VName(st, v) ==
  CASE v[1] = "an" -> "$" \o st.an[ToString(v[2])]
    [] v[1] = "cs" -> v[3]
    [] OTHER -> v[2]
XName(st, c) == IF Has(c, "xt") THEN VName(st, c.xt) ELSE c.x
RECURSIVE Conc(_, _)
Conc(st, e) ==
  CASE Op(e) \in {"an", "cs"} -> Sym(VName(st, e))
    [] Op(e) = "r" -> st.regs[e[2]]
    [] Op(e) \in {"n", "s"} -> e
    [] Op(e) = "f" -> <<"f", e[2], [i \in 1..Len(e[3]) |-> Conc(st, e[3][i])]>>
    [] Op(e) \in {"+", "*"} -> <<Op(e), [i \in 1..Len(e[2]) |-> Conc(st, e[2][i])]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Conc(st, e[2]), Conc(st, e[3])>>
    [] Op(e) = "neg" -> Neg(Conc(st, e[2]))
    [] Op(e) = "d" -> <<"d", Conc(st, e[2]), e[3], e[4]>>
    [] OTHER -> e

(* ---------------------------- derivatives ------------------------------- *)
IsDeriv(e, d, got, fns, kinds, free) ==
  LET k == IF HasSpecial(d) THEN 40 ELSE 0
      Good(a, C) == (free \/ (PosOk(e, C) /\ PosOk(d, C))) /\ RTag(Eval(e, C)) = 0
  IN IF Op(d) = "bad" \/ Extreme(e) THEN {} ELSE Compare(d, got, fns, kinds, k, Good) \ {"def"}

(* The chain rule with given partial derivatives: P[f] is a sequence with  *)
(* one entry per argument, an expression over #1, #2, ... or <<"none">>,   *)
(* in which case the partial stays the formal one.                         *)
RECURSIVE DU(_, _, _)
DU(e, x, P) ==
  IF ~Depends(e, x) THEN N(0) ELSE
  CASE Op(e) = "s" -> N(1)
    [] Op(e) = "+" -> Sum([i \in 1..Len(e[2]) |-> DU(e[2][i], x, P)])
    [] Op(e) = "-" -> Sub(DU(e[2], x, P), DU(e[3], x, P))
    [] Op(e) = "neg" -> Neg(DU(e[2], x, P))
    [] Op(e) = "*" -> LET fs == e[2] idx == SetToSeqInt({i \in 1..Len(fs) : Depends(fs[i], x)}) IN
         Sum([k \in 1..Len(idx) |-> Prod([j \in 1..Len(fs) |-> IF j = idx[k] THEN DU(fs[j], x, P) ELSE fs[j]])])
    [] Op(e) = "/" -> Div(Sub(Mul(DU(e[2], x, P), e[3]), Mul(e[2], DU(e[3], x, P))), Sq(e[3]))
    [] Op(e) = "^" ->
         IF ~Depends(e[3], x) THEN Prod(<<e[3], Pow(e[2], Sub(e[3], N(1))), DU(e[2], x, P)>>)
         ELSE IF ~Depends(e[2], x) THEN Prod(<<e, Fn1("ln", e[2]), DU(e[3], x, P)>>)
         ELSE Mul(e, Add(Mul(DU(e[3], x, P), Fn1("ln", e[2])), Div(Mul(e[3], DU(e[2], x, P)), e[2])))
    [] Op(e) = "f" ->
         LET as == e[3]
             dep == SetToSeqInt({i \in 1..Len(as) : Depends(as[i], x)})
             Part(i) == IF e[2] \in Builtins THEN FnPart(e[2], i, as)
                        ELSE IF e[2] \in DOMAIN P /\ i <= Len(P[e[2]]) /\ Op(P[e[2]][i]) # "none"
                        THEN Subst(P[e[2]][i], [a \in {"#" \o ToString(j) : j \in 1..Len(as)} |-> as[CHOOSE j \in 1..Len(as) : "#" \o ToString(j) = a]])
                        ELSE Der(e, "arg" \o ToString(i - 1), 1)
         IN Sum([k \in 1..Len(dep) |-> Mul(Part(dep[k]), DU(as[dep[k]], x, P))])
    [] OTHER -> Bad
RECURSIVE HasBad(_)
HasBad(e) == Op(e) = "bad" \/ \E k \in Range1(Kids(e)) : HasBad(k)
JPartials(st, c, o, fns) ==
  LET e == st.regs[c.r] d == DU(e, c.x, c.parts) IN
  IF o.t = "err" THEN {"error"} ELSE IF o.t # "e" \/ HasBad(d) THEN {}
  ELSE IsDeriv(Inline(e, fns), Inline(d, fns), o.e, fns, PointKinds, GetOr(c, "raw", FALSE))

(* ------------------- gradient, Hessian, Jacobian ------------------------ *)
\* rows of expressions against rows of required derivatives Want[i][j] of es[i]
Mat(es, Want(_, _), got, nr, nc, fns) ==
  Is(Len(got) = nr, "number of rows") \cup
  UNION {IF Len(got[i]) # nc THEN {"number of columns"}
         ELSE UNION {{IF q = "ok" THEN q ELSE "entry " \o ToString(<<i, j>>) \o ": " \o q : q \in IsDeriv(es[i], Want(i, j), got[i][j], fns, Few, FALSE)} : j \in 1..nc}
         : i \in 1..(IF Len(got) = nr THEN nr ELSE 0)}
Names(st, c) == [j \in 1..Len(c.vars) |-> VName(st, c.vars[j])]
MatOf(kind, es, vs, got, fns) ==
  LET n == Len(vs) IN
  CASE kind = "jac" -> LET Want(i, j) == D(es[i], vs[j]) IN Mat(es, Want, got, Len(es), n, fns)
    [] kind = "grad" -> LET Want(i, j) == D(es[1], vs[j]) IN Mat(<<es[1]>>, Want, got, 1, n, fns)
    [] kind = "hess" -> LET Want(i, j) == D(D(es[1], vs[i]), vs[j])
                            Good(a, C) == PosOk(es[1], C) /\ \A i \in 1..n : PosOk(D(es[1], vs[i]), C) IN
                        Mat([i \in 1..n |-> es[1]], Want, got, n, n, fns)
                        \cup (IF Len(got) = n /\ (\A i \in 1..n : Len(got[i]) = n) /\ ~Extreme(es[1])
                              THEN UNION {{IF q = "ok" THEN q ELSE "not symmetric" : q \in Compare(got[p[1]][p[2]], got[p[2]][p[1]], fns, <<"pos">>, 0, Good) \ {"def", "undef"}}
                                          : p \in {p \in (1..n) \X (1..n) : p[1] < p[2]}}
                              ELSE {})
KindOf(c) == CASE c.c \in {"jac", "jacstr"} -> "jac" [] c.c \in {"grad", "gradstr"} -> "grad" [] OTHER -> "hess"
JMat(st, c, o, fns) ==
  IF o.t = "err" THEN {"error"} ELSE IF o.t # "m" THEN {}
  ELSE MatOf(KindOf(c), [i \in 1..Len(c.rs) |-> Inline(st.regs[c.rs[i]], fns)], Names(st, c), o.m, fns)
\* the text has no notation for these
Unwritable(s) == \E k \in {"inf", "NaN", "nan", "Infinity"} : \E i \in 1..(1 + Len(Chars(s)) - Len(Chars(k))) : \A j \in 1..Len(Chars(k)) : Chars(s)[i + j - 1] = Chars(k)[j]
\* the texts are read by the specification; single letters only, so nothing needs to be declared
JMatStr(st, c, o, fns) ==
  LET rd == [i \in 1..Len(c.ss) |-> Syn!Read(c.ss[i], {}, {})]
      names == UNION {SymsOf(rd[i].e) : i \in {i \in 1..Len(rd) : rd[i].k = "e"}} IN
  IF \E i \in 1..Len(rd) : rd[i].k = "any" THEN {}
  ELSE IF \E i \in 1..Len(rd) : rd[i].k = "err" THEN Is(o.t = "err", "accepted")
  ELSE IF o.t = "err" THEN {"error"} ELSE IF o.t # "ms" THEN {}
  ELSE LET m == [i \in 1..Len(o.m) |-> [j \in 1..Len(o.m[i]) |-> Syn!Read(o.m[i][j], names, {})]] IN
       IF \E i \in 1..Len(m) : \E j \in 1..Len(m[i]) : Unwritable(o.m[i][j]) \/ m[i][j].k = "any" THEN {}
       ELSE IF \E i \in 1..Len(m) : \E j \in 1..Len(m[i]) : m[i][j].k = "err" THEN {"entry not readable"}
       ELSE MatOf(KindOf(c), [i \in 1..Len(rd) |-> rd[i].e], c.vars, [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> m[i][j].e]], fns)

(* --------------------- limits and error conditions ---------------------- *)
FnNames(c) == IF Has(c, "fns") THEN {c.fns[i].n : i \in 1..Len(c.fns)} ELSE {}
SetOf(c, k) == IF Has(c, k) THEN ToSet(c[k]) ELSE {}
\* the errors a call on expression e must report
Errs(st, c, e) ==
  LET diff == c.c \in {"diff", "diffstr"}
      text == c.c \in {"diffstr", "simpstr"}
      fixed == SetOf(c, "fixed") \cup (IF text THEN SetOf(c, "known") ELSE {}) IN
  (IF diff /\ XName(st, c) \in fixed THEN {"VariableInBothFixedAndDiff"} ELSE {})
  \cup (IF text /\ FnNames(c) \cap fixed # {} THEN {"NameCollision"} ELSE {})
  \cup (IF Has(c, "maxd") /\ Height(e) > c.maxd THEN {"MaxDepthExceeded"} ELSE {})
  \cup (IF Has(c, "maxn") /\ Size(e) > c.maxn THEN {"MaxNodesExceeded"} ELSE {})
\* c.of: register holding the expression that the text denotes (for text calls)
JLimit(st, c, o) ==
  LET e == st.regs[IF Has(c, "of") THEN c.of ELSE c.r] es == Errs(st, c, e) IN
  IF o.t = "err" THEN Is(o.k \in es, "error " \o o.k \o " without cause")
  ELSE IF o.t \in {"e", "s"} THEN (IF es # {} THEN {"accepted although " \o ToString(es)} ELSE {"ok"}) ELSE {}
\* the result must be the one in register c.same
JSame(st, c, o) ==
  IF o.t = "e" THEN (IF ~Has(o, "e") THEN {} ELSE IF c.same \in DOMAIN st.regs THEN Is(o.e = st.regs[c.same], "another result than before") ELSE {"a result where there was none"})
  ELSE IF o.t = "s" THEN (IF c.same \in DOMAIN st.txt THEN Is(o.s = st.txt[c.same], "another text than the printed result") ELSE {"a result where there was none"})
  ELSE IF o.t = "err" THEN (IF GetOr(c, "lim", FALSE) THEN {} ELSE Is(c.same \notin DOMAIN st.regs, "no result where there was one"))
  ELSE {}

(* ------------------------------ uncertainty ----------------------------- *)
Symmetric(m) == \A i \in 1..Len(m) : \A j \in 1..Len(m) :
   (Op(m[i][j]) = "n" /\ Op(m[j][i]) = "n") => RCmp(RLit(m[i][j][2]), RLit(m[j][i][2])) = 0
Square(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
\* the matrix a constructor call describes; <<"bad">> if it must be rejected
CovOf(c) ==
  CASE c.k = "diag" -> [i \in 1..Len(c.m) |-> [j \in 1..Len(c.m) |-> IF i = j THEN c.m[i] ELSE N(0)]]
    [] c.k = "sym" -> [i \in 1..Len(c.m) |-> [j \in 1..Len(c.m) |-> IF i = j THEN Pow(Sym("sigma_" \o c.m[i]), N(2)) ELSE N(0)]]
    [] OTHER -> c.m
CovOk(c) == c.k \in {"diag", "sym"} \/ (Square(c.m) /\ Symmetric(c.m))
SameEntry(a, b) == IF Op(a) = "n" THEN Op(b) = "n" /\ RCmp(RLit(a[2]), RLit(b[2])) = 0 ELSE Compare(a, b, Opaque, Few, 0, AllPts) \in {{}, {"ok"}}
JCov(c, o) ==
  IF ~CovOk(c) THEN Is(o.t = "err", "accepted")
  ELSE IF o.t = "err" THEN {"rejected"} ELSE IF o.t # "cov" THEN {}
  ELSE LET m == CovOf(c) n == Len(m) IN
       Is(o.n = n, "dimension") \cup Is(o.oob, "entry outside of the matrix")
       \cup (IF o.n = n /\ Len(o.m) = n /\ \A i \in 1..n : Len(o.m[i]) = n
             THEN UNION {Is(SameEntry(m[p[1]][p[2]], o.m[p[1]][p[2]]), "entry " \o ToString(p)) : p \in (1..n) \X (1..n)} ELSE {"shape"})
\* the first-order formula
Sigma(e, vs, m) ==
  LET ds == [i \in 1..Len(vs) |-> D(e, vs[i])]
      prs == (1..Len(vs)) \X (1..Len(vs))
      row(i) == Sum([j \in 1..Len(vs) |-> Prod(<<ds[i], ds[j], m[i][j]>>)])
  IN Fn1("sqrt", Sum([i \in 1..Len(vs) |-> row(i)]))
JUnc(st, c, o, fns) ==
  LET e == st.regs[c.r]
      n == Len(c.vars)
      given == Has(c, "cov")
      m == IF given THEN st.covs[c.cov] ELSE CovOf([k |-> "sym", m |-> c.vars]) IN
  IF given /\ c.cov \notin DOMAIN st.covs THEN {}
  ELSE IF n > 0 /\ Len(m) # n THEN Is(o.t = "err", "a matrix for another number of variables was accepted")
  ELSE IF o.t = "err" THEN {"error"} ELSE IF o.t # "e" THEN {}
  ELSE IF \E p \in (1..n) \X (1..n) : m[p[1]][p[2]] # m[p[2]][p[1]] THEN {}   \* not a covariance matrix
  ELSE LET s == IF n = 0 THEN N(0) ELSE Sigma(e, c.vars, m)
           w == IF c.c = "rel" THEN Div(s, Fn1("abs", e)) ELSE s
           Good(a, C) == \A i \in 1..n : PosOk(D(e, c.vars[i]), C)
       IN IF Extreme(e) \/ HasBad(w) THEN {} ELSE
          Compare(w, o.e, fns, PointKinds, IF HasSpecial(w) THEN 40 ELSE 0, Good) \ {"def"}

(* ------------------------------ dual numbers ---------------------------- *)
(* Programs may use functions outside of the expression language; at a     *)
(* given point they stand for these expressions.                           *)
RECURSIVE Des(_, _)
Des(e, C) ==
  CASE Op(e) \in {"n", "s"} -> e
    [] Op(e) \in {"+", "*"} -> <<Op(e), [i \in 1..Len(e[2]) |-> Des(e[2][i], C)]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Des(e[2], C), Des(e[3], C)>>
    [] Op(e) = "neg" -> Neg(Des(e[2], C))
    [] Op(e) = "f" ->
       LET as == [i \in 1..Len(e[3]) |-> Des(e[3][i], C)]
           a == as[1]
           b == as[IF Len(as) > 1 THEN 2 ELSE 1]
           V(t) == Eval(t, C)
           Trunc(t) == LET s == RCmp(V(t), Zero) IN IF s = 1 THEN Fn1("floor", t) ELSE IF s = -1 THEN Fn1("ceil", t) ELSE Bad
           AbsD(t) == LET s == RCmp(V(t), Zero) IN IF s = 1 THEN t ELSE IF s = -1 THEN Neg(t) ELSE Bad
       IN CASE e[2] = "exp2" -> Pow(N(2), a)
            [] e[2] = "expm1" -> Sub(Fn1("exp", a), N(1))
            [] e[2] = "ln1p" -> Fn1("ln", Add(N(1), a))
            [] e[2] = "recip" -> Div(N(1), a)
            [] e[2] = "trunc" -> Trunc(a)
            [] e[2] = "fract" -> Sub(a, Trunc(a))
            [] e[2] = "abs" -> AbsD(a)
            [] e[2] \in {"signum", "sign"} -> (LET s == RCmp(V(a), Zero) IN IF s = 1 THEN N(1) ELSE IF s = -1 THEN N(-1) ELSE Bad)
            [] e[2] = "hypot" -> Fn1("sqrt", Add(Sq(a), Sq(b)))
            [] e[2] = "max" -> (LET s == RCmp(V(a), V(b)) IN IF s = 1 THEN a ELSE IF s = -1 THEN b ELSE Bad)
            [] e[2] = "min" -> (LET s == RCmp(V(a), V(b)) IN IF s = 1 THEN b ELSE IF s = -1 THEN a ELSE Bad)
            [] e[2] = "absdiff" -> (LET s == RCmp(V(a), V(b)) IN IF s = 1 THEN Sub(a, b) ELSE IF s = -1 THEN N(0) ELSE Bad)
            [] e[2] = "muladd" -> Add(Mul(a, b), as[3])
            [] e[2] = "rem" -> Sub(a, Mul(b, Trunc(Div(a, b))))
            [] e[2] = "sincos" -> Mul(Fn1("sin", a), Fn1("cos", a))
            [] OTHER -> Fn(e[2], as)
    [] OTHER -> Bad
\* a value is compared where the mathematical value is certain; the accuracy is that of the program
\* value part: only where the program's value is a real number; a derivative part only where the value is defined too
DualBits == 40
NumIs(v0, bits, w) == LET v == IF RTag(v0) = 0 THEN RWiden(v0, RRat(1, 1), DualBits) ELSE v0 IN IF RTag(v) # 0 THEN {} ELSE IF ~RContains(v, bits) THEN {w} ELSE IF RSharp(v) THEN {"ok"} ELSE {}
\* Dual arithmetic multiplies by the slope of every function it meets, also of one applied to a
\* constant: all slopes (k = 2: and their slopes) have to exist.
RECURSIVE Regular(_, _, _)
Regular(e, C, k) ==
  (\A c \in Range1(Kids(e)) : Regular(c, C, k))
  /\ (Op(e) = "f" =>
      LET ps == [i \in 1..Len(e[3]) |-> "#" \o ToString(i)]
          varying == {i \in 1..Len(e[3]) : ~(i = 1 /\ e[2] \in {"polygamma", "besselj", "bessely", "besseli", "besselk"})}
          f == Fn(e[2], [i \in 1..Len(e[3]) |-> IF i \in varying THEN Sym(ps[i]) ELSE e[3][i]])
          at == [q \in Range1(ps) |-> e[3][CHOOSE i \in 1..Len(ps) : ps[i] = q]]
          Exists(d) == ~HasBad(d) /\ RTag(Eval(Subst(d, at), C)) = 0
      IN \A i \in varying : LET d == D(f, ps[i]) IN Exists(d) /\ (k = 2 => \A j \in varying : Exists(D(d, ps[j]))))
RECURSIVE HasFn(_, _)
HasFn(e, f) == (Op(e) = "f" /\ e[2] = f) \/ \E k \in Range1(Kids(e)) : HasFn(k, f)
JDual(c, o) ==
  LET C0 == Cfg(Emp, EnvOf2(c.env), 0)
      e == Des(c.e, C0)
      \* special functions are computed to about seven digits, their slopes through the same sums
      C1 == Cfg(Emp, EnvOf2(c.env), IF HasSpecial(e) THEN 16 ELSE DualBits) IN
  IF HasBad(e) \/ o.t \notin {"dual", "dual2"} THEN {}
  ELSE LET d == D(e, c.x) v0 == Eval(e, C0) IN
       \* the sums behind a special function carry the slopes along: at a singular point they are lost
       (IF HasSpecial(e) /\ ~Regular(e, C0, 1) THEN {} ELSE NumIs(Eval(e, C1), o.v, "value"))
       \* the remainder is declared not to be differentiable: its value only
       \cup (IF HasFn(c.e, "rem") \/ HasBad(d) \/ RTag(v0) # 0 \/ ~Regular(e, C0, 1) THEN {} ELSE
             NumIs(Eval(d, C1), o.d, "derivative")
             \cup (IF o.t # "dual2" THEN {} ELSE
                   NumIs(Eval(d, C1), o.d1, "derivative of the outer part")
                   \cup (LET dd == D(d, c.x) IN IF HasBad(dd) \/ RTag(Eval(d, C0)) # 0 \/ ~Regular(e, C0, 2) THEN {} ELSE NumIs(Eval(dd, C1), o.dd, "second derivative"))))
=============================================================================
