-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Abstract syntax and denotation of symbolic expressions.                 *)
(*                                                                         *)
(* An expression is a tuple whose first component names the constructor:   *)
(*   <<"n", lit>>          number   (decimal literal or "0x"+bits)         *)
(*   <<"s", name>>         symbol                                          *)
(*   <<"f", name, args>>   function application (built-in or user)         *)
(*   <<"+", terms>>, <<"*", factors>>   n-ary sum and product              *)
(*   <<"-", a, b>>, <<"neg", a>>, <<"/", a, b>>, <<"^", a, b>>             *)
(*   <<"d", inner, var, k>>  k-th partial derivative notation              *)
(*                                                                         *)
(* Eval gives the value of an expression at a point.  It is the meaning    *)
(* every property compares against; nothing in it is derived from the      *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS IReal, Sequences, TLC

Num(l) == <<"n", l>>
Sym(x) == <<"s", x>>
Fn(f, as) == <<"f", f, as>>
Fn1(f, a) == <<"f", f, <<a>>>>
Sum(ts) == <<"+", ts>>
Prod(fs) == <<"*", fs>>
Add(a, b) == <<"+", <<a, b>>>>
Sub(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", <<a, b>>>>
Div(a, b) == <<"/", a, b>>
Pow(a, b) == <<"^", a, b>>
Neg(a) == <<"neg", a>>
Der(e, x, k) == <<"d", e, x, k>>

Op(e) == e[1]
(* direct subexpressions, in order *)
Kids(e) ==
  CASE Op(e) \in {"n", "s"} -> <<>>
    [] Op(e) = "f" -> e[3]
    [] Op(e) \in {"+", "*"} -> e[2]
    [] Op(e) \in {"-", "/", "^"} -> <<e[2], e[3]>>
    [] Op(e) = "neg" -> <<e[2]>>
    [] Op(e) = "d" -> <<e[2]>>
    [] OTHER -> <<>>

Range1(q) == {q[i] : i \in 1..Len(q)}
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m

RECURSIVE SumSeq(_, _)
SumSeq(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumSeq(q, i + 1)

(* names of the symbols that occur (constants included) *)
RECURSIVE SymsOf(_)
SymsOf(e) ==
  IF Op(e) = "s" THEN {e[2]}
  ELSE (UNION {SymsOf(k) : k \in Range1(Kids(e))})
       \cup (IF Op(e) = "d" THEN {e[3]} ELSE {})

RECURSIVE FnsOf(_)
FnsOf(e) == (IF Op(e) = "f" THEN {e[2]} ELSE {}) \cup UNION {FnsOf(k) : k \in Range1(Kids(e))}

Constants == {"pi", "e"}
ConstName(s) == IF s \in {"pi", "PI", "Pi"} THEN "pi" ELSE IF s \in {"e", "E"} THEN "e" ELSE ""

RECURSIVE Size(_)
Size(e) == LET ks == Kids(e) IN 1 + SumSeq([i \in 1..Len(ks) |-> Size(ks[i])], 1)
RECURSIVE Height(_)
Height(e) == LET ks == Kids(e) IN IF ks = <<>> THEN 1 ELSE 1 + MaxOf({Height(ks[i]) : i \in 1..Len(ks)})

(* simultaneous substitution of expressions for symbols: sub is a function on names *)
RECURSIVE Subst(_, _)
Subst(e, sub) ==
  CASE Op(e) = "n" -> e
    [] Op(e) = "s" -> IF e[2] \in DOMAIN sub THEN sub[e[2]] ELSE e
    [] Op(e) = "f" -> <<"f", e[2], [i \in 1..Len(e[3]) |-> Subst(e[3][i], sub)]>>
    [] Op(e) \in {"+", "*"} -> <<Op(e), [i \in 1..Len(e[2]) |-> Subst(e[2][i], sub)]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Subst(e[2], sub), Subst(e[3], sub)>>
    [] Op(e) = "neg" -> <<"neg", Subst(e[2], sub)>>
    [] Op(e) = "d" -> <<"d", Subst(e[2], sub), e[3], e[4]>>

(***************************************************************************)
(* Semantics of the built-in functions on reals.                           *)
(***************************************************************************)
One == RRat(1, 1)
Two == RRat(2, 1)
Half == RRat(1, 2)
Zero == RRat(0, 1)
Undef == RDiv(One, Zero)
Pi == RConst("pi")
Maybe == RDiv(One, RSub(Pi, Pi))

RECURSIVE HermiteR(_, _)
HermiteR(n, x) == IF n < 0 THEN Zero ELSE IF n = 0 THEN One ELSE IF n = 1 THEN RMul(Two, x)
  ELSE RSub(RMul(RMul(Two, x), HermiteR(n-1, x)), RMul(RRat(2*(n-1), 1), HermiteR(n-2, x)))
RECURSIVE DFact(_)
DFact(n) == IF n <= 1 THEN 1 ELSE n * DFact(n - 2)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN One ELSE RMul(RRat(n, 1), Fact(n - 1))
RECURSIVE LegendreR(_, _, _)
(* P_l^m with the Condon-Shortley phase, 0 <= m; zero when l < m *)
LegendreR(l, m, x) ==
  IF l < m THEN Zero
  ELSE IF l = m THEN RMul(RRat((IF m % 2 = 0 THEN 1 ELSE -1) * DFact(2*m - 1), 1),
                          IF m % 2 = 0 THEN RPow(RSub(One, RMul(x, x)), RRat(m \div 2, 1))
                          ELSE RMul(RPow(RSub(One, RMul(x, x)), RRat(m \div 2, 1)), RFun1("sqrt", RSub(One, RMul(x, x)))))
  ELSE RDiv(RSub(RMul(RMul(RRat(2*l - 1, 1), x), LegendreR(l-1, m, x)),
                 RMul(RRat(l + m - 1, 1), LegendreR(l-2, m, x))), RRat(l - m, 1))
(* real part of the spherical harmonic Y_l^m(theta, phi), m >= 0 *)
HarmR(l, m, th, ph) ==
  RMul(RMul(RFun1("sqrt", RMul(RDiv(RRat(2*l + 1, 4), Pi), RDiv(Fact(l - m), Fact(l + m)))),
            LegendreR(l, m, RFun1("cos", th))),
       RFun1("cos", RMul(RRat(m, 1), ph)))

Prim1 == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
          "exp", "ln", "sqrt", "abs", "floor", "ceil", "round", "signum", "erf", "erfc", "gamma",
          "lambertw", "elliptic_k", "elliptic_e"}
Prim2 == {"polygamma", "zeta_deriv", "besselj", "bessely", "besseli", "besselk", "atan2"}
Derived1 == {"cot", "sec", "csc", "acot", "asec", "acsc", "coth", "sech", "csch", "acoth", "asech", "acsch",
             "log10", "log2", "cbrt", "sinc", "digamma", "trigamma", "tetragamma", "zeta", "exp_polar"}
Derived2 == {"log", "beta", "hermite"}
Arity(f) == IF f \in Prim1 \cup Derived1 THEN 1
            ELSE IF f \in Prim2 \cup Derived2 THEN 2
            ELSE IF f = "assoc_legendre" THEN 3
            ELSE IF f \in {"spherical_harmonic", "ynm"} THEN 4 ELSE 0
Builtins == Prim1 \cup Derived1 \cup Prim2 \cup Derived2 \cup {"assoc_legendre", "spherical_harmonic", "ynm"}
(* functions whose program value is computed by an approximation *)
Special == {"erf", "erfc", "gamma", "lambertw", "elliptic_k", "elliptic_e", "polygamma", "zeta_deriv",
            "besselj", "bessely", "besseli", "besselk", "digamma", "trigamma", "tetragamma", "zeta", "beta"}

FnVal(f, v) ==   \* v: sequence of values of the arguments
  LET a == v[1] IN
  CASE f \in Prim1 -> RFun1(f, a)
    [] f \in Prim2 -> RFun2(f, v[1], v[2])
    [] f = "cot" -> RDiv(RFun1("cos", a), RFun1("sin", a))
    [] f = "sec" -> RDiv(One, RFun1("cos", a))
    [] f = "csc" -> RDiv(One, RFun1("sin", a))
    [] f = "acot" -> RSub(RMul(Half, Pi), RFun1("atan", a))
    [] f = "asec" -> RFun1("acos", RDiv(One, a))
    [] f = "acsc" -> RFun1("asin", RDiv(One, a))
    [] f = "coth" -> RDiv(RFun1("cosh", a), RFun1("sinh", a))
    [] f = "sech" -> RDiv(One, RFun1("cosh", a))
    [] f = "csch" -> RDiv(One, RFun1("sinh", a))
    [] f = "acoth" -> RFun1("atanh", RDiv(One, a))
    [] f = "asech" -> RFun1("acosh", RDiv(One, a))
    [] f = "acsch" -> RFun1("asinh", RDiv(One, a))
    [] f = "log" -> IF RCmp(v[1], Zero) = 1 THEN RDiv(RFun1("ln", v[2]), RFun1("ln", v[1])) ELSE IF RTag(v[1]) = 0 /\ RCmp(v[1], Zero) \in {-1, 0} THEN Undef ELSE Maybe
    [] f = "log10" -> RDiv(RFun1("ln", a), RFun1("ln", RRat(10, 1)))
    [] f = "log2" -> RDiv(RFun1("ln", a), RFun1("ln", Two))
    [] f = "cbrt" -> LET c == RCmp(a, Zero) IN
                     IF c = 1 THEN RPow(a, RRat(1, 3)) ELSE IF c = -1 THEN RNeg(RPow(RNeg(a), RRat(1, 3)))
                     ELSE IF c = 0 THEN Zero ELSE IF RTag(a) = 1 THEN a ELSE Maybe
    [] f = "sinc" -> IF RCmp(a, Zero) = 0 THEN One ELSE RDiv(RFun1("sin", a), a)
    [] f = "digamma" -> RFun2("polygamma", Zero, a)
    [] f = "trigamma" -> RFun2("polygamma", One, a)
    [] f = "tetragamma" -> RFun2("polygamma", Two, a)
    [] f = "zeta" -> RFun2("zeta_deriv", Zero, a)
    [] f = "exp_polar" -> RFun1("exp", a)
    [] f = "beta" -> RDiv(RMul(RFun1("gamma", v[1]), RFun1("gamma", v[2])), RFun1("gamma", RAdd(v[1], v[2])))
    [] f = "hermite" -> LET n == RIntOf(v[1], 1000) IN IF n < 0 THEN Undef ELSE IF n > 30 THEN Maybe ELSE HermiteR(n, v[2])
    [] f = "assoc_legendre" -> LET l == RIntOf(v[1], 1000) m == RIntOf(v[2], 1000) IN
                               IF l > 12 \/ m > 6 \/ m < 0 \/ m > l \/ RCmp(RFun1("abs", v[3]), One) \notin {-1, 0} THEN Maybe ELSE LegendreR(l, m, v[3])
    [] f \in {"spherical_harmonic", "ynm"} ->
          LET l == RIntOf(v[1], 1000) m == RIntOf(v[2], 1000) IN
          IF l > 8 \/ l < 0 \/ m < 0 \/ m > l THEN Maybe ELSE HarmR(l, m, v[3], v[4])

(***************************************************************************)
(* Partial derivatives of the built-in functions: FnPart(f, i, as) is the  *)
(* expression for the derivative of f with respect to its i-th argument,   *)
(* taken at the argument expressions as.  <<"bad">> marks a derivative     *)
(* that does not exist as a function of a real variable (integer orders).  *)
(***************************************************************************)
N(k) == <<"n", ToString(k)>>
F1(g, a) == Fn1(g, a)
Sq(a) == Pow(a, N(2))
Bad == <<"bad">>
FnPart(f, i, as) ==
  LET u == as[1]
      F(g) == Fn1(g, u)
  IN
  CASE f = "sin" -> F("cos")
    [] f = "cos" -> Neg(F("sin"))
    [] f = "tan" -> Div(N(1), Sq(F("cos")))
    [] f = "cot" -> Neg(Div(N(1), Sq(F("sin"))))
    [] f = "sec" -> Div(F("sin"), Sq(F("cos")))
    [] f = "csc" -> Neg(Div(F("cos"), Sq(F("sin"))))
    [] f = "asin" -> Div(N(1), F1("sqrt", Sub(N(1), Sq(u))))
    [] f = "acos" -> Neg(Div(N(1), F1("sqrt", Sub(N(1), Sq(u)))))
    [] f = "atan" -> Div(N(1), Add(N(1), Sq(u)))
    [] f = "acot" -> Neg(Div(N(1), Add(N(1), Sq(u))))
    [] f = "asec" -> Div(N(1), Mul(F("abs"), F1("sqrt", Sub(Sq(u), N(1)))))
    [] f = "acsc" -> Neg(Div(N(1), Mul(F("abs"), F1("sqrt", Sub(Sq(u), N(1))))))
    [] f = "sinh" -> F("cosh")
    [] f = "cosh" -> F("sinh")
    [] f = "tanh" -> Div(N(1), Sq(F("cosh")))
    [] f = "coth" -> Neg(Div(N(1), Sq(F("sinh"))))
    [] f = "sech" -> Neg(Div(F("sinh"), Sq(F("cosh"))))
    [] f = "csch" -> Neg(Div(F("cosh"), Sq(F("sinh"))))
    [] f = "asinh" -> Div(N(1), F1("sqrt", Add(Sq(u), N(1))))
    [] f = "acosh" -> Div(N(1), F1("sqrt", Sub(Sq(u), N(1))))
    [] f = "atanh" -> Div(N(1), Sub(N(1), Sq(u)))
    [] f = "acoth" -> Div(N(1), Sub(N(1), Sq(u)))
    [] f = "asech" -> Neg(Div(N(1), Mul(u, F1("sqrt", Sub(N(1), Sq(u))))))
    [] f = "acsch" -> Neg(Div(N(1), Mul(F("abs"), F1("sqrt", Add(Sq(u), N(1))))))
    [] f \in {"exp", "exp_polar"} -> F("exp")
    [] f = "ln" -> Div(N(1), u)
    [] f = "log" -> IF i = 2 THEN Div(N(1), Mul(as[2], F1("ln", as[1])))
                    ELSE Neg(Div(F1("ln", as[2]), Mul(as[1], Sq(F1("ln", as[1])))))
    [] f = "log10" -> Div(N(1), Mul(u, F1("ln", N(10))))
    [] f = "log2" -> Div(N(1), Mul(u, F1("ln", N(2))))
    [] f = "sqrt" -> Div(N(1), Mul(N(2), F("sqrt")))
    [] f = "cbrt" -> Div(N(1), Mul(N(3), Sq(F("cbrt"))))
    [] f = "abs" -> F("signum")
    [] f \in {"signum", "floor", "ceil", "round"} -> N(0)
    [] f = "erf" -> Div(Mul(N(2), F1("exp", Neg(Sq(u)))), F1("sqrt", Sym("pi")))
    [] f = "erfc" -> Neg(Div(Mul(N(2), F1("exp", Neg(Sq(u)))), F1("sqrt", Sym("pi"))))
    [] f = "gamma" -> Mul(F("gamma"), F("digamma"))
    [] f = "digamma" -> F("trigamma")
    [] f = "trigamma" -> F("tetragamma")
    [] f = "tetragamma" -> Fn("polygamma", <<N(3), u>>)
    [] f = "polygamma" -> IF i = 2 THEN Fn(f, <<Add(as[1], N(1)), as[2]>>) ELSE Bad
    [] f = "beta" -> Mul(Fn(f, as), Sub(F1("digamma", as[i]), F1("digamma", Add(as[1], as[2]))))
    [] f \in {"besselj", "bessely"} -> IF i = 1 THEN Bad ELSE
         Div(Sub(Fn(f, <<Sub(as[1], N(1)), as[2]>>), Fn(f, <<Add(as[1], N(1)), as[2]>>)), N(2))
    [] f = "besseli" -> IF i = 1 THEN Bad ELSE
         Div(Add(Fn(f, <<Sub(as[1], N(1)), as[2]>>), Fn(f, <<Add(as[1], N(1)), as[2]>>)), N(2))
    [] f = "besselk" -> IF i = 1 THEN Bad ELSE
         Neg(Div(Add(Fn(f, <<Sub(as[1], N(1)), as[2]>>), Fn(f, <<Add(as[1], N(1)), as[2]>>)), N(2)))
    [] f = "sinc" -> Div(Sub(Mul(u, F("cos")), F("sin")), Sq(u))
    [] f = "lambertw" -> Div(F(f), Mul(u, Add(N(1), F(f))))
    [] f = "elliptic_k" -> Sub(Div(F("elliptic_e"), Mul(u, Sub(N(1), Sq(u)))), Div(F("elliptic_k"), u))
    [] f = "elliptic_e" -> Div(Sub(F("elliptic_e"), F("elliptic_k")), u)
    [] f = "zeta" -> Fn("zeta_deriv", <<N(1), u>>)
    [] f = "zeta_deriv" -> IF i = 2 THEN Fn(f, <<Add(as[1], N(1)), as[2]>>) ELSE Bad
    [] f = "hermite" -> IF i = 1 THEN Bad ELSE
         Mul(Mul(N(2), as[1]), Fn(f, <<Sub(as[1], N(1)), as[2]>>))
    [] f = "assoc_legendre" -> IF i < 3 THEN Bad ELSE
         Div(Sub(Prod(<<as[1], as[3], Fn(f, as)>>),
                 Mul(Add(as[1], as[2]), Fn(f, <<Sub(as[1], N(1)), as[2], as[3]>>))),
             Sub(Sq(as[3]), N(1)))
    [] f \in {"spherical_harmonic", "ynm"} ->
         (CASE i < 3 -> Bad
           [] i = 4 -> Neg(Prod(<<as[2], F1("tan", Mul(as[2], as[4])), Fn(f, as)>>))
           [] i = 3 -> LET c == F1("cos", as[3]) IN
               Mul(Fn(f, as),
                   Sub(Mul(as[1], F1("cot", as[3])),
                       Div(Mul(Add(as[1], as[2]), Fn("assoc_legendre", <<Sub(as[1], N(1)), as[2], c>>)),
                           Mul(F1("sin", as[3]), Fn("assoc_legendre", <<as[1], as[2], c>>))))))
    [] f = "atan2" -> LET s == Add(Sq(as[1]), Sq(as[2])) IN IF i = 1 THEN Div(as[2], s) ELSE Neg(Div(as[1], s))

(***************************************************************************)
(* The derivative of e with respect to the symbol x.                       *)
(***************************************************************************)
IsN(e, k) == Op(e) = "n" /\ e[2] = ToString(k)
Depends(e, x) == x \in SymsOf(e)
RECURSIVE SetToSeqInt(_)
SetToSeqInt(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A n \in S : m <= n IN <<m>> \o SetToSeqInt(S \ {m})
RECURSIVE D(_, _)
D(e, x) ==
  IF ~Depends(e, x) THEN N(0) ELSE
  CASE Op(e) = "s" -> N(1)
    [] Op(e) = "+" -> Sum([i \in 1..Len(e[2]) |-> D(e[2][i], x)])
    [] Op(e) = "-" -> Sub(D(e[2], x), D(e[3], x))
    [] Op(e) = "neg" -> Neg(D(e[2], x))
    [] Op(e) = "*" ->
         LET fs == e[2]
             dep == {i \in 1..Len(fs) : Depends(fs[i], x)}
             T(i) == Prod([j \in 1..Len(fs) |-> IF j = i THEN D(fs[j], x) ELSE fs[j]])
             idx == SetToSeqInt(dep)
         IN Sum([k \in 1..Len(idx) |-> T(idx[k])])
    [] Op(e) = "/" ->
         IF ~Depends(e[3], x) THEN Div(D(e[2], x), e[3])
         ELSE Div(Sub(Mul(D(e[2], x), e[3]), Mul(e[2], D(e[3], x))), Sq(e[3]))
    [] Op(e) = "^" ->
         IF ~Depends(e[3], x) THEN
            Prod(<<e[3], Pow(e[2], Sub(e[3], N(1))), D(e[2], x)>>)
         ELSE IF ~Depends(e[2], x) THEN
            Prod(<<e, Fn1("ln", e[2]), D(e[3], x)>>)
         ELSE Mul(e, Add(Mul(D(e[3], x), Fn1("ln", e[2])), Div(Mul(e[3], D(e[2], x)), e[2])))
    [] Op(e) = "f" ->
         LET as == e[3]
             dep == SetToSeqInt({i \in 1..Len(as) : Depends(as[i], x)})
         IN IF e[2] \in Builtins
            THEN Sum([k \in 1..Len(dep) |-> Mul(FnPart(e[2], dep[k], as), D(as[dep[k]], x))])
            ELSE Bad
    [] Op(e) = "d" -> <<"d", D(e[2], x), e[3], e[4]>>
    [] OTHER -> Bad

RECURSIVE DN(_, _, _)
DN(e, x, k) == IF k <= 0 THEN e ELSE DN(D(e, x), x, k - 1)

(***************************************************************************)
(* User functions are interpreted by closed bodies over formal parameters: *)
(* fns[f] = [ps |-> <<names>>, body |-> expr].                             *)
(***************************************************************************)
ArgNames == <<"arg0", "arg1", "arg2", "arg3">>
ArgIndex(x) == IF \E i \in 1..4 : ArgNames[i] = x THEN CHOOSE i \in 1..4 : ArgNames[i] = x ELSE 0
RECURSIVE Inline(_, _)
Inline(e, fns) ==
  CASE Op(e) \in {"n", "s"} -> e
    [] Op(e) = "f" ->
         LET as == [i \in 1..Len(e[3]) |-> Inline(e[3][i], fns)] IN
         IF e[2] \in DOMAIN fns /\ Len(fns[e[2]].ps) = Len(as)
         THEN LET ps == fns[e[2]].ps IN
              Subst(Inline(fns[e[2]].body, fns), [p \in Range1(ps) |-> as[CHOOSE i \in 1..Len(ps) : ps[i] = p]])
         ELSE <<"f", e[2], as>>
    [] Op(e) \in {"+", "*"} -> <<Op(e), [i \in 1..Len(e[2]) |-> Inline(e[2][i], fns)]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Inline(e[2], fns), Inline(e[3], fns)>>
    [] Op(e) = "neg" -> <<"neg", Inline(e[2], fns)>>
    \* derivative notation stands for the derivative of the inlined inner expression;
    \* "arg0", "arg1", ... name the formal arguments of the (user) function being applied
    [] Op(e) = "d" ->
         IF Op(e[2]) = "f" /\ ArgIndex(e[3]) > 0 /\ ArgIndex(e[3]) <= Len(e[2][3]) /\ e[2][2] \in DOMAIN fns
         THEN LET f == fns[e[2][2]] ps == f.ps IN
              Subst(DN(Inline(f.body, fns), ps[ArgIndex(e[3])], e[4]),
                    [p \in Range1(ps) |-> Inline(e[2][3][CHOOSE i \in 1..Len(ps) : ps[i] = p], fns)])
         ELSE DN(Inline(e[2], fns), e[3], e[4])

(***************************************************************************)
(* Value of e.  C = [env, fns, k]: env maps names to real intervals, fns   *)
(* interprets user functions, k > 0 widens every operation by 2^-k of its  *)
(* magnitude, which encloses any reasonable order of floating evaluation;  *)
(* k = 0 gives the mathematical value.                                     *)
(***************************************************************************)
W(v, mag, C) == IF C.k = 0 THEN v ELSE RWiden(v, mag, C.k)
SpecialK == 20     \* tolerance of approximated functions in numeric mode: 2^-20 (relative, and of 1/16)
RECURSIVE Eval(_, _)
RECURSIVE EvalDer(_, _)
RECURSIVE EvSum(_, _, _, _, _)
EvSum(ts, C, i, acc, mag) ==
  IF i > Len(ts) THEN W(acc, mag, C)
  ELSE LET v == Eval(ts[i], C) IN
       EvSum(ts, C, i + 1, RAdd(acc, v), IF C.k = 0 THEN mag ELSE RAdd(mag, RFun1("abs", v)))
RECURSIVE EvProd(_, _, _, _)
EvProd(fs, C, i, acc) == IF i > Len(fs) THEN W(acc, acc, C) ELSE EvProd(fs, C, i + 1, RMul(acc, Eval(fs[i], C)))
Eval(e, C) ==
  CASE Op(e) = "n" -> RLit(e[2])
    [] Op(e) = "s" -> IF e[2] \in DOMAIN C.env THEN C.env[e[2]]
                      ELSE IF ConstName(e[2]) # "" THEN RConst(ConstName(e[2])) ELSE Maybe
    [] Op(e) = "+" -> EvSum(e[2], C, 1, Zero, Zero)
    [] Op(e) = "*" -> EvProd(e[2], C, 1, One)
    [] Op(e) = "-" -> LET a == Eval(e[2], C) b == Eval(e[3], C) IN
                      W(RSub(a, b), IF C.k = 0 THEN a ELSE RAdd(RFun1("abs", a), RFun1("abs", b)), C)
    [] Op(e) = "neg" -> RNeg(Eval(e[2], C))
    [] Op(e) = "/" -> LET v == RDiv(Eval(e[2], C), Eval(e[3], C)) IN W(v, v, C)
    [] Op(e) = "^" -> LET v == RPow(Eval(e[2], C), Eval(e[3], C)) IN W(v, v, C)
    [] Op(e) = "f" ->
         LET vs == TLCEval([i \in 1..Len(e[3]) |-> Eval(e[3][i], C)]) IN
         IF e[2] \in DOMAIN C.fns /\ Len(C.fns[e[2]].ps) = Len(vs)
         THEN LET ps == C.fns[e[2]].ps IN
              Eval(C.fns[e[2]].body, [C EXCEPT !.env = TLCEval([p \in Range1(ps) |-> vs[CHOOSE i \in 1..Len(ps) : ps[i] = p]])])
         ELSE IF e[2] \in Builtins /\ Arity(e[2]) = Len(vs)
         THEN LET v == FnVal(e[2], vs) IN
              IF C.k = 0 THEN v
              ELSE IF e[2] \in Special THEN RWiden(RWiden(v, v, SpecialK), RRat(1, 16), SpecialK)
              ELSE IF e[2] \in {"acoth", "acosh", "asech"} THEN RWiden(RWiden(v, v, C.k), RRat(1, 16), C.k)
              ELSE RWiden(v, v, C.k)
         ELSE Maybe
    [] Op(e) = "d" -> EvalDer(e, C)
    [] OTHER -> Maybe

EvalDer(e, C) == Eval(Inline(e, C.fns), C)
=============================================================================
