------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Expressions shaped like the identities a simplifier knows, and like     *)
(* near misses of them: every coefficient, sign, exponent and repeated     *)
(* operand of an identity may be the right one or another.                 *)
(***************************************************************************)
EXTENDS Cmds
a ++ b == Add(a, b)
a -- b == Sub(a, b)
a ** b == Mul(a, b)
a // b == Div(a, b)
a ^^ b == Pow(a, b)
NN(k) == Num(ToString(k))
Pi_ == Sym("pi")
E_ == Sym("e")

\* a small operand
GHole == [GElem EXCEPT !.op = <<"+", "*", "-", "/", "^", "f1", "neg">>, !.f1 = <<"sin", "exp", "sqrt", "abs", "cosh">>,
                       !.sy = <<"x", "x", "y", "z">>]
Hole(s) == CASE Pick(s, 1, 8) < 5 -> Sym(PickFrom(s, 2, <<"x", "x", "x", "y">>))
             [] Pick(s, 1, 8) = 5 -> NN(2 + Pick(s, 3, 4)) ** Sym("x")
             [] OTHER -> RT(Split(s, 4), 1 + Pick(s, 5, 2), GHole)

Rule(s) ==
  LET U == Hole(Split(s, 1)) V == Hole(Split(s, 2)) Wv == Hole(Split(s, 3)) Z == Hole(Split(s, 4))
      y == Sym("y") z == Sym("z")
      \* V with U, mostly the same operand
      U2 == IF Pick(s, 10, 6) = 0 THEN V ELSE U
      U3 == IF Pick(s, 11, 8) = 0 THEN V ELSE U
      K(i, k) == IF Pick(s, 20 + i, 4) = 0 THEN Num(PickFrom(s, 40 + i, <<"2", "3", "-1", "4", "-3", "1", "0.5", "-2", "6", "-4", "5", "1.5">>)) ELSE NN(k)
      S(i, t) == IF Pick(s, 60 + i, 3) = 0 THEN Neg(t) ELSE t
      X(i) == PickFrom(s, 80 + i, ExpA)
      I(i) == NN(1 + Pick(s, 90 + i, 6))
      C(i) == Num(PickFrom(s, 100 + i, <<"2", "3", "4", "6", "8", "9", "12", "-2", "-6", "0.5", "1.5", "-1", "10", "16", "27">>))
      f(n, t) == Fn1(n, t)
      sq(t) == t ^^ NN(2)
      P(t, i, k) == t ^^ K(i, k)
      Tr(i) == PickFrom(s, 110 + i, <<"sin", "cos", "tan", "cot", "sec", "csc">>)
      Hy(i) == PickFrom(s, 120 + i, <<"sinh", "cosh", "tanh", "coth", "sech", "csch">>)
      ATr(i) == PickFrom(s, 130 + i, <<"asin", "acos", "atan", "acot", "asec", "acsc">>)
      AHy(i) == PickFrom(s, 140 + i, <<"asinh", "acosh", "atanh", "acoth", "asech", "acsch">>)
      Root(i) == PickFrom(s, 150 + i, <<"sqrt", "cbrt", "sqrt">>)
      Lg(i) == PickFrom(s, 160 + i, <<"ln", "ln", "log10", "log2">>)
      Ex(i, t) == IF Pick(s, 170 + i, 3) = 0 THEN E_ ^^ t ELSE f("exp", t)
      PiM(i) == CASE Pick(s, 180 + i, 6) = 0 -> Pi_ [] Pick(s, 180 + i, 6) = 1 -> Pi_ // NN(2) [] Pick(s, 180 + i, 6) = 2 -> (NN(3) ** Pi_) // NN(2)
                  [] Pick(s, 180 + i, 6) = 3 -> NN(2) ** Pi_ [] Pick(s, 180 + i, 6) = 4 -> K(7, 1) ** Pi_ [] OTHER -> Pi_ // I(3)
      q == Pick(s, 9, 100)
  IN
  CASE q = 0 -> (U ^^ X(1)) ** (U2 ^^ X(2))
    [] q = 1 -> (U ^^ X(1)) // (U2 ^^ X(2))
    [] q = 2 -> U ** (U2 ^^ X(1))
    [] q = 3 -> (U ^^ X(1)) ^^ X(2)
    [] q = 4 -> (U ** V) ^^ X(1)
    [] q = 5 -> (U ^^ X(1)) ** (V ^^ (IF Pick(s, 12, 3) = 0 THEN X(2) ELSE X(1)))
    [] q = 6 -> (U ^^ X(1)) // (V ^^ (IF Pick(s, 12, 3) = 0 THEN X(2) ELSE X(1)))
    [] q = 7 -> (U // V) ^^ X(1)
    [] q = 8 -> S(1, C(1) ** (U ^^ X(1))) ** V
    [] q = 9 -> f(Root(1), U ^^ X(1))
    [] q = 10 -> f(Root(1), C(1) ** (U ^^ I(1)))
    [] q = 11 -> f(Root(1), U) ** f(Root(2), V)
    [] q = 12 -> f(Root(1), U) // f(Root(2), V)
    [] q = 13 -> f(Root(1), (U ^^ I(1)) ** (V ^^ I(2)))
    [] q = 14 -> f(Root(1), U // V)
    [] q = 15 -> U // f(Root(1), U2)
    [] q = 16 -> f(Root(1), U) // U2
    [] q = 17 -> (U ^^ (I(1) // I(2))) ^^ (I(3) // I(4))
    [] q = 18 -> f(Root(1), f(Root(2), U))
    [] q = 19 -> f(Root(1), U) ^^ I(1)
    [] q = 20 -> (U // V) // Wv
    [] q = 21 -> (U // V) // (Wv // Z)
    [] q = 22 -> S(1, U // V) ++ S(2, Wv // (IF Pick(s, 12, 2) = 0 THEN V ELSE Z))
    [] q = 23 -> C(1) ++ S(1, U // V)
    [] q = 24 -> (U ** V) // (U2 ** Wv)
    [] q = 25 -> (C(1) ** U) // (C(2) ** V)
    [] q = 26 -> ((U ++ V) ^^ X(1)) // ((U2 ++ V) ^^ X(2))
    [] q = 27 -> (sq(U) -- sq(V)) // (U2 -- V)
    [] q = 28 -> ((U -- V) ^^ I(1)) // ((V -- U2) ^^ I(2))
    [] q = 29 -> S(1, P(U, 1, 2)) -- S(2, P(V, 2, 2))
    [] q = 30 -> (C(1) ** P(U, 1, 2)) -- C(2)
    [] q = 31 -> Sum(<<P(U, 1, 2), S(1, Prod(<<K(2, 2), U2, V>>)), S(2, P(V, 3, 2))>>)
    [] q = 32 -> Sum(<<P(U, 1, 2), S(1, K(2, 2) ** U2), K(3, 1)>>)
    [] q = 33 -> Sum(<<P(U, 1, 3), S(1, Prod(<<K(2, 3), P(U2, 3, 2), V>>)), S(2, Prod(<<K(4, 3), U, P(V, 5, 2)>>)), S(3, P(V, 6, 3))>>)
    [] q = 34 -> (C(1) ** U) ++ (C(2) ** U2)
    [] q = 35 -> (C(1) ** U) ++ (C(2) ** V)
    [] q = 36 -> (U ** V) ++ S(1, U2 ** Wv)
    [] q = 37 -> ((U ^^ I(1)) ** V) ++ ((U ^^ I(2)) ** Wv)
    [] q = 38 -> Sum(<<C(1) ** (U ^^ I(1)), S(1, C(2) ** (U2 ^^ I(2))), C(3)>>)
    [] q = 39 -> f("abs", S(1, U)) ^^ I(1)
    [] q = 40 -> f("abs", U ^^ I(1))
    [] q = 41 -> f("abs", U) ** f("signum", U2)
    [] q = 42 -> f("signum", C(1) ** U) ++ f("signum", f("abs", V))
    [] q = 43 -> f("abs", f("abs", U) ** V)
    [] q = 44 -> f(Root(1), f("abs", U) ^^ I(1))
    [] q = 45 -> f(Lg(1), Ex(1, U))
    [] q = 46 -> Ex(1, S(1, K(1, 1) ** f("ln", U)))
    [] q = 47 -> Ex(1, V ** f("ln", U))
    [] q = 48 -> f(Lg(1), U ^^ X(1))
    [] q = 49 -> Fn("log", <<(IF Pick(s, 12, 2) = 0 THEN C(1) ELSE Wv), U ^^ X(1)>>)
    [] q = 50 -> S(1, K(1, 1) ** f(Lg(1), U)) ++ S(2, K(2, 1) ** f(Lg(IF Pick(s, 12, 4) = 0 THEN 2 ELSE 1), V))
    [] q = 51 -> f(Lg(1), f(Root(1), U))
    [] q = 52 -> f(Lg(1), C(1) // (U ^^ I(1)))
    [] q = 53 -> Ex(1, S(1, U)) ** Ex(2, S(2, V))
    [] q = 54 -> Ex(1, U) // Ex(2, V)
    [] q = 55 -> Ex(1, U) ^^ X(1)
    [] q = 56 -> Fn("log", <<U, U2 ^^ X(1)>>)
    [] q = 57 -> f(Tr(1), S(1, U)) ** f(Tr(2), S(2, U2))
    [] q = 58 -> S(1, K(1, 1) ** P(f("sin", U), 2, 2)) ++ S(2, K(3, 1) ** P(f("cos", U2), 4, 2))
    [] q = 59 -> K(1, 1) -- S(1, P(f(Tr(1), U), 2, 2))
    [] q = 60 -> K(1, 1) ++ S(1, P(f(Tr(1), U), 2, 2))
    [] q = 61 -> P(f(Tr(1), U), 2, 2) -- K(1, 1)
    [] q = 62 -> S(1, P(f(Tr(1), U), 2, 1)) // P(f(Tr(2), U2), 3, 1)
    [] q = 63 -> K(1, 1) // P(f(Tr(1), U), 2, 1)
    [] q = 64 -> Prod(<<K(1, 2), f("sin", U), f("cos", U2)>>)
    [] q = 65 -> S(1, K(3, 1) ** P(f(PickFrom(s, 12, <<"cos", "sin">>), U), 2, 2)) -- P(f(PickFrom(s, 12, <<"sin", "cos">>), U2), 4, 2)
    [] q = 66 -> (K(1, 2) ** P(f(Tr(1), U), 2, 2)) -- K(3, 1)
    [] q = 67 -> K(3, 1) -- (K(1, 2) ** P(f(Tr(1), U), 2, 2))
    [] q = 68 -> f(Tr(1), S(1, U) ++ PiM(1))
    [] q = 69 -> f(Tr(1), PiM(1) -- U)
    [] q = 70 -> f(Tr(1), S(1, PiM(1)))
    [] q = 71 -> f(Tr(1), f(ATr(1), U))
    [] q = 72 -> f(ATr(1), f(Tr(1), U))
    [] q = 73 -> S(1, K(1, 3) ** f("sin", U)) -- S(2, K(2, 4) ** P(f("sin", U2), 3, 3))
    [] q = 74 -> S(1, K(1, 4) ** P(f("cos", U), 3, 3)) -- S(2, K(2, 3) ** f("cos", U2))
    [] q = 75 -> (f("sin", U) ** f("cos", V)) ++ S(1, f("cos", U2) ** f("sin", V))
    [] q = 76 -> (f("cos", U) ** f("cos", V)) -- S(1, f("sin", U2) ** f("sin", V))
    [] q = 77 -> (S(1, Ex(1, U)) -- S(2, Ex(1, Neg(U2)))) // K(1, 2)
    [] q = 78 -> (Ex(1, U) ++ Ex(2, Neg(U2))) // K(1, 2)
    [] q = 79 -> (Ex(1, U) -- Ex(1, S(1, U))) // (Ex(1, U3) ++ Ex(1, Neg(U2)))
    [] q = 80 -> (Ex(1, K(1, 2) ** U) -- K(2, 1)) // (Ex(1, K(3, 2) ** U2) ++ K(4, 1))
    [] q = 81 -> (Ex(1, U) ++ Ex(1, Neg(U2))) // (Ex(1, U3) -- Ex(1, Neg(U)))
    [] q = 82 -> K(1, 2) // (Ex(1, U) ++ S(1, Ex(1, Neg(U2))))
    [] q = 83 -> (Ex(1, U) -- (NN(1) // Ex(1, U2))) // K(1, 2)
    [] q = 84 -> f(Hy(1), S(1, U)) ** f(Hy(2), S(2, U2))
    [] q = 85 -> S(1, P(f(Hy(1), U), 1, 2)) -- P(f(Hy(2), U2), 2, 2)
    [] q = 86 -> S(1, K(1, 1)) -- S(2, P(f(Hy(1), U), 2, 2))
    [] q = 87 -> S(1, P(f(Hy(1), U), 2, 1)) // P(f(Hy(2), U2), 3, 1)
    [] q = 88 -> K(1, 1) // P(f(Hy(1), U), 2, 1)
    [] q = 89 -> f(Hy(1), f(AHy(1), U))
    [] q = 90 -> f(AHy(1), f(Hy(1), U))
    [] q = 91 -> S(1, K(1, 3) ** f("sinh", U)) ++ S(2, K(2, 4) ** P(f("sinh", U2), 3, 3))
    [] q = 92 -> S(1, K(1, 4) ** P(f("cosh", U), 3, 3)) -- S(2, K(2, 3) ** f("cosh", U2))
    [] q = 93 -> f("cosh", U) ++ S(1, f("sinh", U2))
    [] q = 94 -> Sum(<<S(1, K(1, 1) ** U), S(2, K(2, 1) ** U2), S(3, K(3, 1) ** V)>>)
    [] q = 95 -> Neg(S(1, U) -- S(2, V)) ++ Neg(Neg(U2))
    [] q = 96 -> (S(1, U) ^^ I(1)) ** (S(2, V) ^^ I(2))
    [] q = 97 -> (C(1) // C(2)) ** (U // C(3))
    [] q = 98 -> Prod(<<C(1), U ^^ X(1), C(2), V ^^ X(2), U2 ^^ X(3)>>)
    [] OTHER -> (Sum(<<U, C(1) ** V, Wv>>) -- Sum(<<U2, C(2) ** V>>)) ** Z

\* a rule-shaped expression in a context
RECURSIVE RuleIn(_, _)
RuleIn(s, k) ==
  LET t == IF Pick(s, 700, 2) = 0 THEN Rule(s) ELSE Perm(Rule(s), s)
      w == Hole(Split(s, 701))
      c == Num(PickFrom(s, 702, LitsA))
      u == RuleIn(Split(s, 703), k - 1)
  IN CASE k <= 0 \/ Pick(s, 704, 16) < 5 -> t
       [] Pick(s, 704, 16) = 5 -> t ++ w
       [] Pick(s, 704, 16) = 6 -> c ** t
       [] Pick(s, 704, 16) = 7 -> t // w
       [] Pick(s, 704, 16) = 8 -> t ^^ PickFrom(s, 705, ExpA)
       [] Pick(s, 704, 16) = 9 -> Fn1(PickFrom(s, 706, <<"sqrt", "abs", "ln", "exp", "sin">>), t)
       [] Pick(s, 704, 16) = 10 -> w -- t
       [] Pick(s, 704, 16) = 11 -> t ++ u
       [] Pick(s, 704, 16) = 12 -> t ** u
       [] Pick(s, 704, 16) = 13 -> t // u
       [] Pick(s, 704, 16) = 14 -> t -- u
       [] OTHER -> Neg(t)
=============================================================================
