------------------------------- MODULE Cmds ---------------------------------
(***************************************************************************)
(* Which calls a session makes with an expression, per property.           *)
(*   Cmds(pid, e, s)  the calls made with expression e (s: seed)           *)
(*   GramFor(pid, s)  the random grammar                                   *)
(***************************************************************************)
EXTENDS Gram, FiniteSets, Json

Modes == <<"ops", "ctor", "arc", "mix">>
B(e, m, s, to) == [c |-> "build", e |-> e, m |-> m, seed |-> s % 100000, to |-> to]
B0(e, s) == B(e, PickFrom(s, 901, Modes), s, 0)
Known == <<"x", "y", "z", "a">>

(* permute operands of sums and products everywhere *)
RECURSIVE Perm(_, _)
Rot(q, k) == [i \in 1..Len(q) |-> q[((i + k - 1) % Len(q)) + 1]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Perm(e, s) ==
  CASE Op(e) \in {"+", "*"} ->
         LET ks == [i \in 1..Len(e[2]) |-> Perm(e[2][i], Split(s, i))]
             r == Rot(ks, Pick(s, 3, Len(ks)))
         IN <<Op(e), IF Pick(s, 4, 2) = 0 THEN r ELSE Rev(r)>>
    [] Op(e) = "f" -> <<"f", e[2], [i \in 1..Len(e[3]) |-> Perm(e[3][i], Split(s, i))]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Perm(e[2], Split(s, 1)), Perm(e[3], Split(s, 2))>>
    [] Op(e) = "neg" -> Neg(Perm(e[2], Split(s, 1)))
    [] OTHER -> e
(* change one thing somewhere *)
RECURSIVE Mutate(_, _)
Mutate(e, s) ==
  CASE Op(e) = "n" -> Num(PickFrom(s, 5, LitsA))
    [] Op(e) = "s" -> (IF Pick(s, 6, 2) = 0 THEN Sym(PickFrom(s, 7, SymsA)) ELSE Num("2"))
    [] Op(e) \in {"+", "*"} -> LET k == Pick(s, 8, Len(e[2])) + 1 IN
         (CASE Pick(s, 9, 5) = 0 -> <<IF Op(e) = "+" THEN "*" ELSE "+", e[2]>>
            [] Pick(s, 9, 5) = 1 -> <<Op(e), Append(e[2], e[2][k])>>
            [] OTHER -> <<Op(e), [i \in 1..Len(e[2]) |-> IF i = k THEN Mutate(e[2][i], Split(s, i)) ELSE e[2][i]]>>)
    [] Op(e) = "f" -> (IF Pick(s, 10, 3) = 0 THEN <<"f", PickFrom(s, 11, F1Common), <<e[3][1]>>>>
                       ELSE <<"f", e[2], [i \in 1..Len(e[3]) |-> IF i = 1 THEN Mutate(e[3][i], Split(s, i)) ELSE e[3][i]]>>)
    [] Op(e) \in {"-", "/", "^"} -> (IF Pick(s, 12, 3) = 0 THEN <<Op(e), e[3], e[2]>>
                       ELSE IF Pick(s, 12, 3) = 1 THEN <<Op(e), Mutate(e[2], Split(s, 1)), e[3]>>
                       ELSE <<Op(e), e[2], Mutate(e[3], Split(s, 2))>>)
    [] Op(e) = "neg" -> e[2]
    [] OTHER -> e

GSpec == [GElem EXCEPT !.f1 = F1Spec \o F1Common, !.ex = <<Num("2"), Num("-1")>>]
Small4(s) == CASE Pick(s, 801, 4) = 0 -> GAlg [] Pick(s, 801, 4) = 1 -> GElem [] Pick(s, 801, 4) = 2 -> GCommon [] OTHER -> GPoly
WithFn(G) == [G EXCEPT !.op = Append(@, "fn")]
GramFor(pid, s) ==
  CASE pid \in {"E01", "D01"} /\ Pick(s, 804, 12) = 0 -> GTiny
    [] pid \in {"E01", "E02", "D01"} -> (IF Pick(s, 800, 5) = 0 THEN WithFn([GElem EXCEPT !.fn = FnStd \o <<<<"f", <<"e">>>>, <<"h", <<"e", "e">>>>>>]) ELSE Small4(s))
    [] pid \in {"F01"} -> (IF Pick(s, 800, 5) = 0 THEN WithFn(GElem) ELSE IF Pick(s, 800, 5) = 1 THEN GSpec ELSE Small4(s))
    [] pid \in {"V01", "V02", "E04"} -> (IF Pick(s, 800, 5) = 0 THEN WithFn(GElem) ELSE IF Pick(s, 800, 9) = 1 THEN GSpec ELSE Small4(s))
    [] pid = "D02" -> (CASE Pick(s, 800, 4) = 0 -> GPoly [] Pick(s, 800, 4) = 1 -> GAlg [] OTHER -> GShow)
    [] OTHER -> Small4(s)
DepthFor(pid, s) ==
  CASE pid \in {"F01"} -> 1 + Pick(s, 802, 3)
    [] OTHER -> 2 + Pick(s, 802, 3)

WideFor(pid, s) == pid \in {"V01", "V02", "E01", "E02", "E03", "E04", "D01", "D02", "F01"} /\ Pick(s, 803, 8) = 0

NZ == <<"1.5", "-1.25", "0.375", "2.75", "-0.625", "3.5", "0.125", "-2.25", "0.75", "1.25", "-3.375", "0.9375", "5.5", "-0.0625", "2", "-1", "0", "1", "0.5">>
PtRow(s, i, n) == [j \in 1..n |-> PickFrom(Split(s, 400 + i), j, NZ)]
Pts(s, k, n) == [i \in 1..k |-> PtRow(s, i, n)]
Cols(s, k, n) == [j \in 1..k |-> [i \in 1..n |-> PickFrom(Split(s, 500 + j), i, NZ)]]
ParamOrders == <<<<"x", "y", "z", "a">>, <<"a", "z", "y", "x">>, <<"y", "x", "a", "z">>, <<"z", "a", "x", "y">>, <<"x", "b", "y", "z", "a">>>>
Sizes == <<1, 2, 3, 4, 5, 7, 8, 9, 12, 13>>
BigSizes == <<63, 64, 65, 100, 253, 255, 256, 257, 258, 259, 300, 511, 512, 513, 515, 770, 777, 1023, 1027, 1281>>
\* every way of evaluating many points; large batches repeat 13 rows
All(ev, s, np) == IF Pick(s, 79, 4) = 0
                  THEN [c |-> "allways", ev |-> ev, cyc |-> TRUE, n |-> PickFrom(s, 77, BigSizes), cols |-> Cols(s, np, 13)]
                  ELSE LET n == PickFrom(s, 77, Sizes) IN [c |-> "allways", ev |-> ev, n |-> n, cols |-> Cols(s, np, n)]

Cmds(pid, e, s) ==
  CASE pid = "E01" -> <<B(e, "ops", s, 0), B(e, "ctor", s, 1), B(e, "arc", s, 2), B(e, "mix", s, 3), B(e, "mix", s + 17, 4)>>
    [] pid = "E02" ->
       LET m == PickFrom(s, 901, <<"ops", "ctor", "arc">>) IN
       <<B(e, m, s, 0), B(Perm(e, s), m, s, 1), B(e, "mix", s, 2), B(Mutate(e, s), m, s, 3),
         [c |-> "eq", a |-> 0, b |-> 1, exp |-> "perm"], [c |-> "eq", a |-> 1, b |-> 2], [c |-> "eq", a |-> 0, b |-> 2], [c |-> "eq", a |-> 0, b |-> 3],
         [c |-> "eq", a |-> 1, b |-> 3], [c |-> "eq", a |-> 2, b |-> 3],
         [c |-> "simp", r |-> 0, to |-> 4], [c |-> "simp", r |-> 1, to |-> 5], [c |-> "eq", a |-> 4, b |-> 5], [c |-> "eq", a |-> 0, b |-> 4]>>
    [] pid = "E03" ->
       LET Q(r) == [c |-> "q", r |-> r, vars |-> <<"x", "y", "z", "a", "b">>, excl |-> IF Pick(s, 9, 2) = 0 THEN <<"x", "y">> ELSE <<>>] IN
       <<B0(e, s), Q(0), [c |-> "visit", r |-> 0], [c |-> "simp", r |-> 0, to |-> 1], Q(1), [c |-> "visit", r |-> 1],
         [c |-> "diff", r |-> 0, x |-> "x", raw |-> TRUE, to |-> 2], Q(2), [c |-> "visit", r |-> 2]>>
    [] pid = "E04" ->
       LET r == RT(Split(s, 71), 1 + Pick(s, 72, 2), GPoly)
           v == PickFrom(s, 73, <<"x", "y", "z">>)
           Ev(k) == PickFrom(Split(s, 74), k, NZ) IN
       <<B0(e, s), B(r, "ops", s, 1), [c |-> "subst", r |-> 0, x |-> v, by |-> 1, to |-> 2],
         [c |-> "eval", r |-> 0, env |-> [x |-> Ev(1)], to |-> 3],
         [c |-> "eval", r |-> 0, env |-> [x |-> Ev(2), y |-> Ev(3), z |-> Ev(4), a |-> Ev(5)], to |-> 4],
         [c |-> "eval", r |-> 0, via |-> "id", env |-> [y |-> Ev(6), z |-> Ev(7)], to |-> 5],
         [c |-> "subst", r |-> 2, x |-> "y", by |-> 0, to |-> 6],
         [c |-> "simp", r |-> 0, to |-> 7], [c |-> "subst", r |-> 7, x |-> v, by |-> 1, to |-> 8]>>
    [] pid = "D01" ->
       LET R(r) == [c |-> "reparse", r |-> r, known |-> Known, fns |-> <<"f", "h">>] IN
       <<B0(e, s), R(0), [c |-> "simp", r |-> 0, to |-> 1], R(1), [c |-> "diff", r |-> 0, x |-> "x", raw |-> TRUE, to |-> 2], R(2),
         [c |-> "simp", r |-> 2, safe |-> TRUE, to |-> 3], R(3), [c |-> "show", r |-> 0], [c |-> "show", r |-> 2]>>
    [] pid = "D02" ->
       LET v == PickFrom(s, 73, <<"x", "y", "alpha">>)
           w == PickFrom(s, 74, <<"x", "beta">>)
           Sh(r) == [c |-> "show", r |-> r] IN
       <<B0(e, s), Sh(0), [c |-> "simp", r |-> 0, to |-> 1], Sh(1), [c |-> "diff", r |-> 0, x |-> v, raw |-> TRUE, to |-> 2], Sh(2)>>
       \o (IF Pick(s, 75, 3) = 0
           THEN <<B(Der(IF Pick(s, 76, 2) = 0 THEN e ELSE Fn("f", <<e>>), v, 1 + Pick(s, 77, 3)), "ctor", s, 3), Sh(3),
                  B(Mul(Pow(Der(Fn("h", <<e, Sym(w)>>), w, 1 + Pick(s, 78, 2)), Num("2")), Div(Num("3"), Der(Fn("f", <<e>>), v, 1))), "ctor", s, 4), Sh(4)>>
           ELSE IF Pick(s, 75, 3) = 1 THEN <<[c |-> "diff", r |-> 2, x |-> w, to |-> 3], Sh(3)>> ELSE <<>>)
    [] pid = "F01" ->
       <<B0(e, s), [c |-> "diff", r |-> 0, x |-> "x", raw |-> TRUE, to |-> 1], [c |-> "diff", r |-> 0, x |-> "x", to |-> 2],
         [c |-> "diff", r |-> 0, x |-> "x", safe |-> TRUE, to |-> 3], [c |-> "diff", r |-> 2, x |-> PickFrom(s, 75, <<"x", "y">>), to |-> 4],
         [c |-> "diff", r |-> 0, x |-> "y", via |-> "method", to |-> 5]>>
    [] pid = "M01" -> <<B0(e, s), [c |-> "simp", r |-> 0, to |-> 1], [c |-> "simp", r |-> 1, to |-> 2],
         [c |-> "diff", r |-> 0, x |-> "x", raw |-> TRUE, to |-> 3], [c |-> "simp", r |-> 3, to |-> 4]>>
    [] pid = "M02" -> <<B0(e, s), [c |-> "simp", r |-> 0, safe |-> TRUE, to |-> 1], [c |-> "simp", r |-> 1, safe |-> TRUE, to |-> 2]>>
    [] pid = "V01" ->
       LET ps == PickFrom(s, 76, ParamOrders) IN
       <<B0(e, s), [c |-> "comp", r |-> 0, params |-> ps, ev |-> "E"], [c |-> "cev", ev |-> "E", pts |-> Pts(s, 6, Len(ps))],
         [c |-> "simp", r |-> 0, to |-> 1], [c |-> "comp", r |-> 1, params |-> ps, ev |-> "S"], [c |-> "cev", ev |-> "S", pts |-> Pts(s, 4, Len(ps))],
         [c |-> "diff", r |-> 0, x |-> "x", to |-> 2], [c |-> "comp", r |-> 2, params |-> ps, ev |-> "D"], [c |-> "cev", ev |-> "D", pts |-> Pts(s, 4, Len(ps))]>>
    [] pid = "V02" ->
       LET ps == PickFrom(s, 76, ParamOrders)
           big == Wide(Split(s, 81), GCommon) IN
       <<B0(e, s), [c |-> "comp", r |-> 0, params |-> ps, ev |-> "E"], All("E", s, Len(ps)),
         [c |-> "diff", r |-> 0, x |-> "x", to |-> 1], [c |-> "comp", r |-> 1, params |-> ps, ev |-> "D"], All("D", s + 1, Len(ps))>>
       \o (IF Pick(s, 80, 3) = 0 THEN <<B0(big, s), [c |-> "comp", r |-> 0, params |-> ps, ev |-> "B"], All("B", s + 2, Len(ps))>> ELSE <<>>)
    [] OTHER -> <<B0(e, s)>>
=============================================================================
