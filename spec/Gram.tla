------------------------------- MODULE Gram ---------------------------------
(***************************************************************************)
(* Seeded random expressions.  RT(s, d, G) is a function of the seed s.    *)
(*   G.sy   symbols         G.li  literals      G.f1  unary functions      *)
(*   G.fn   other functions as <<name, shape>>  shape: sequence of         *)
(*          "e" (any expression) or a literal                              *)
(*   G.op   operators, repetition = weight      G.ex  exponents            *)
(***************************************************************************)
EXTENDS Expr

PickFrom(s, t, q) == q[Pick(s, t, Len(q)) + 1]

RECURSIVE RT(_, _, _)
Leaf(s, G) == IF Pick(s, 1, 3) = 0 THEN Num(PickFrom(s, 2, G.li)) ELSE Sym(PickFrom(s, 3, G.sy))
RT(s, d, G) ==
  IF d = 0 \/ Pick(s, 4, 7) = 0 THEN Leaf(s, G)
  ELSE LET o == PickFrom(s, 5, G.op)
           A == RT(Split(s, 1), d - 1, G)
           B == RT(Split(s, 2), d - 1, G)
       IN CASE o \in {"+", "*"} ->
                 (IF Pick(s, 6, 4) = 0 THEN <<o, <<A, B, RT(Split(s, 3), d - 1, G)>> >>
                  ELSE <<o, <<A, B>> >>)
            [] o \in {"-", "/"} -> <<o, A, B>>
            [] o = "neg" -> Neg(A)
            [] o = "^" -> (IF Pick(s, 7, 8) = 0 THEN Pow(A, B) ELSE Pow(A, PickFrom(s, 8, G.ex)))
            [] o = "f1" -> Fn1(PickFrom(s, 9, G.f1), A)
            [] o = "fn" -> LET f == PickFrom(s, 10, G.fn) IN
                           Fn(f[1], [i \in 1..Len(f[2]) |-> IF f[2][i] = "e" THEN RT(Split(s, 10 + i), d - 1, G) ELSE Num(f[2][i])])
            \* a polynomial in one variable
            [] o = "poly" -> LET x == Sym(PickFrom(s, 12, G.sy)) n == 2 + Pick(s, 13, 3) IN
                 Sum([i \in 1..n |-> LET c == Num(PickFrom(s, 20 + i, G.li)) p == Pick(s, 30 + i, 5) IN
                        IF p = 0 THEN c ELSE IF p = 1 THEN Mul(c, x) ELSE Mul(c, Pow(x, Num(ToString(p))))])
            \* the same subexpression twice
            [] o = "dup" -> (CASE Pick(s, 14, 5) = 0 -> Add(A, A) [] Pick(s, 14, 5) = 1 -> Mul(A, A)
                               [] Pick(s, 14, 5) = 2 -> Sub(Mul(A, B), A) [] Pick(s, 14, 5) = 3 -> Div(Add(A, B), A)
                               [] OTHER -> Add(Mul(A, B), Mul(A, Sym(PickFrom(s, 15, G.sy)))))

SymsA == <<"x", "y", "x", "z", "x", "a">>
LitsA == <<"2", "3", "1", "0.5", "-1", "-2", "4", "1.5", "0", "5", "0.25", "-3", "7", "10">>
ExpA == <<Num("2"), Num("3"), Num("2"), Num("-1"), Num("0.5"), Num("-2"), Num("4"), Num("1"), Num("0"), Num("1.5"), Num("-0.5"), Div(Num("1"), Num("3")), Num("5"), Div(Num("2"), Num("3")), Num("-3"), Num("6")>>
F1Elem == <<"sin", "cos", "tan", "exp", "ln", "sqrt", "abs", "sinh", "cosh", "tanh", "asin", "acos", "atan", "cot", "sec", "csc",
            "acot", "asec", "acsc", "coth", "sech", "csch", "asinh", "acosh", "atanh", "acoth", "asech", "acsch", "log10", "log2", "cbrt",
            "signum", "sinc", "exp_polar">>
F1Common == <<"sin", "cos", "exp", "ln", "sqrt", "tan", "abs", "cbrt", "sinh", "cosh">>
F1Spec == <<"erf", "erfc", "gamma", "digamma", "trigamma", "tetragamma", "zeta", "lambertw", "elliptic_k", "elliptic_e">>
FnStd == <<<<"log", <<"e", "e">>>>, <<"atan2", <<"e", "e">>>>>>
\* every function with several arguments
FnAll == FnStd \o <<<<"polygamma", <<"1", "e">>>>, <<"zeta_deriv", <<"2", "e">>>>, <<"besselj", <<"2", "e">>>>, <<"bessely", <<"1", "e">>>>, <<"besseli", <<"0", "e">>>>, <<"besselk", <<"3", "e">>>>,
  <<"beta", <<"e", "e">>>>, <<"hermite", <<"3", "e">>>>, <<"assoc_legendre", <<"2", "1", "e">>>>, <<"spherical_harmonic", <<"3", "2", "e", "e">>>>, <<"ynm", <<"2", "1", "e", "e">>>>>>
FnUser == <<<<"f", <<"e">>>>, <<"g", <<"e">>>>, <<"h", <<"e", "e">>>>>>
\* every name with its arguments free (for notation, where only positions matter)
FnFree == [i \in 1..Len(FnAll) |-> <<FnAll[i][1], [k \in 1..Len(FnAll[i][2]) |-> "e"]>>]
OpA == <<"+", "+", "*", "*", "-", "/", "^", "^", "f1", "f1", "neg", "poly", "dup">>
GAlg == [sy |-> SymsA, li |-> LitsA, ex |-> ExpA, f1 |-> <<"sqrt", "abs", "cbrt">>, fn |-> FnStd,
         op |-> <<"+", "+", "*", "*", "-", "/", "^", "^", "neg", "poly", "dup", "f1">>]
GElem == [sy |-> SymsA, li |-> LitsA, ex |-> ExpA, f1 |-> F1Elem, fn |-> FnStd, op |-> OpA]
GCommon == [GElem EXCEPT !.f1 = F1Common]
GPoly == [GElem EXCEPT !.op = <<"+", "*", "-", "poly", "poly", "^", "neg">>, !.ex = <<Num("2"), Num("3"), Num("1")>>]

GShow == [GElem EXCEPT !.sy = <<"x", "y", "alpha", "x", "beta", "psi", "zeta", "gamma", "varphi", "omega", "pi", "e", "K", "E", "x1", "theta", "a">>, !.f1 = F1Elem \o F1Spec \o <<"floor", "ceil", "round">>, !.fn = FnAll \o FnFree \o FnUser,
            !.li = LitsA \o <<"12345678901", "0.0000001", "1e15", "123.456">>, !.ex = ExpA \o <<Num("12"), Num("1000"), Sym("alpha"), Neg(Sym("x")), Sum(<<Sym("x"), Num("1")>>), Num("-1.5"), Num("123")>>, !.op = OpA \o <<"fn", "fn", "^">>]
\* coefficients far from 1, but well above the tolerance of 1e-14
GTiny == [GPoly EXCEPT !.li = <<"1e-6", "2.5e-10", "3e-9", "4e7", "-5e-10", "2", "1", "-3e-5", "0.5", "7e-8", "-2e6">>, !.op = <<"+", "poly", "poly", "-", "*", "/", "neg">>]
(***************************************************************************)
(* Large expressions: wide sums and products, deep nestings, many shared   *)
(* subexpressions, high-degree polynomials.                                *)
(***************************************************************************)
RECURSIVE Horner(_, _, _, _)
Horner(s, k, x, G) == IF k = 0 THEN Leaf(s, G) ELSE Add(Num(PickFrom(s, k, G.li)), Mul(x, Horner(Split(s, k), k - 1, x, G)))
RECURSIVE TowerL(_, _, _)
TowerL(s, k, G) ==
  IF k = 0 THEN Leaf(s, G)
  ELSE LET a == TowerL(Split(s, 1), k - 1, G) l == Leaf(Split(s, 2), G) IN
       CASE Pick(s, 60, 7) = 0 -> Add(a, l) [] Pick(s, 60, 7) = 1 -> Sub(l, a) [] Pick(s, 60, 7) = 2 -> Mul(a, l)
         [] Pick(s, 60, 7) = 3 -> Div(l, Add(Pow(a, Num("2")), Num("1"))) [] Pick(s, 60, 7) = 4 -> Fn1(PickFrom(s, 61, <<"sin", "cos", "tanh", "atan">>), a)
         [] Pick(s, 60, 7) = 5 -> Neg(a) [] OTHER -> Sub(a, l)
F1Small == <<"sin", "cos", "tanh", "atan", "exp">>
Atom2(s, G) == CASE Pick(s, 62, 4) = 0 -> Fn1(PickFrom(s, 63, F1Small), Leaf(Split(s, 1), G))
                 [] Pick(s, 62, 4) = 1 -> Pow(Sym(PickFrom(s, 64, G.sy)), Num(PickFrom(s, 65, <<"2", "3", "-1", "4">>)))
                 [] OTHER -> Leaf(Split(s, 2), G)
Wide(s, G) ==
  LET n == 5 + Pick(s, 50, 36)
      A(i) == Atom2(Split(s, 100 + i), G)
      PD(i) == Prod([k \in 1..(2 + Pick(Split(s, i), 51, 3)) |-> Atom2(Split(Split(s, i), 200 + k), G)])
      SM(i) == Sum([k \in 1..(2 + Pick(Split(s, i), 52, 2)) |-> Atom2(Split(Split(s, i), 300 + k), G)])
      Sg(i, t) == IF Pick(Split(s, i), 53, 4) = 0 THEN Neg(t) ELSE t
  IN CASE Pick(s, 57, 6) = 0 -> Prod([i \in 1..(9 + Pick(s, 58, 8)) |-> A(i)])
       [] Pick(s, 54, 8) = 0 -> Sum([i \in 1..n |-> Sg(i, PD(i))])
       [] Pick(s, 54, 8) = 1 -> Prod([i \in 1..(3 + (n \div 6)) |-> SM(i)])
       [] Pick(s, 54, 8) = 2 -> Horner(s, 4 + (n \div 3), Sym(PickFrom(s, 55, G.sy)), G)
       [] Pick(s, 54, 8) = 3 -> TowerL(s, n \div 2, G)
       [] Pick(s, 54, 8) = 4 -> \* each shared subexpression several times
            Sum([i \in 1..(2 * (n \div 2)) |-> LET t == Fn1("sin", Add(Sym("x"), Mul(Num(ToString((i + 1) \div 2)), Sym("y")))) IN
                 IF i % 2 = 0 THEN Mul(t, Leaf(Split(s, i), G)) ELSE Mul(t, Fn1("cos", t))])
       [] Pick(s, 54, 8) = 5 -> Sum([i \in 1..n |-> Sg(i, A(i))])
       [] Pick(s, 54, 8) = 6 -> Div(Sum([i \in 1..(n \div 2) |-> Sg(i, PD(i))]), Add(Num("1"), Pow(Sum([i \in 1..(n \div 3) |-> A(i + 50)]), Num("2"))))
       [] OTHER -> Sum([i \in 1..(3 + Pick(s, 56, 8)) |-> Mul(Num(PickFrom(s, 400 + i, G.li)), Pow(Sym("x"), Num(ToString(Pick(s, 420 + i, 20)))))])
=============================================================================
