------------------------------ MODULE GenCalc -------------------------------
(***************************************************************************)
(* Sessions about user functions, matrices of derivatives, builder limits, *)
(* repeated simplification, misuse of evaluators, evaluation of many       *)
(* expressions, uncertainties and dual numbers (by PID).                   *)
(***************************************************************************)
EXTENDS Cmds, IOUtils
O == INSTANCE Base
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
PID == IOEnv.PID
Coin(s, t, n) == Pick(s, t, n) = 0

(* text of an expression, with parentheses everywhere *)
RECURSIVE Wr(_)
RECURSIVE WrAll(_, _, _)
WrAll(q, sep, i) == IF i > Len(q) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o Wr(q[i]) \o WrAll(q, sep, i + 1)
Wr(e) ==
  CASE Op(e) = "n" -> (IF Chars(e[2])[1] = "-" THEN "(" \o e[2] \o ")" ELSE e[2])
    [] Op(e) = "s" -> e[2]
    [] Op(e) = "f" -> e[2] \o "(" \o WrAll(e[3], ",", 1) \o ")"
    [] Op(e) = "+" -> "(" \o WrAll(e[2], "+", 1) \o ")"
    [] Op(e) = "*" -> "(" \o WrAll(e[2], "*", 1) \o ")"
    [] Op(e) = "-" -> "(" \o Wr(e[2]) \o "-" \o Wr(e[3]) \o ")"
    [] Op(e) = "/" -> "(" \o Wr(e[2]) \o "/" \o Wr(e[3]) \o ")"
    [] Op(e) = "^" -> "(" \o Wr(e[2]) \o "^" \o Wr(e[3]) \o ")"
    [] OTHER -> "(-" \o Wr(e[2]) \o ")"

(* ------------------------- user functions: F02 -------------------------- *)
Arg(i) == <<"a", i>>
Slots(n) == [a \in {"#" \o ToString(j) : j \in 1..n} |-> Arg((CHOOSE j \in 1..n : "#" \o ToString(j) = a) - 1)]
NArgs(f) == Len(O!Opaque[f].ps)
UFns == <<"f", "g", "h", "k", "F">>
Clean(e) == Subst(e, Slots(3))
\* what a user declares: perhaps a body, and partial derivatives for some arguments
TruePart(f, i) == D(O!Opaque[f].body, "#" \o ToString(i))
Decl(f, body, ps) ==   \* ps: sequence of <<index from 0, tree over #1, #2>>
  [n |-> f, ar |-> <<NArgs(f), NArgs(f)>>, body |-> IF body THEN Clean(O!Opaque[f].body) ELSE <<"none">>,
   parts |-> [j \in 1..Len(ps) |-> <<ps[j][1], Clean(ps[j][2])>>]]
GUser == [GElem EXCEPT !.fn = <<<<"f", <<"e">>>>, <<"h", <<"e", "e">>>>, <<"g", <<"e">>>>, <<"k", <<"e", "e">>>>, <<"F", <<"e">>>>>>, !.f1 = F1Common,
          !.op = <<"+", "*", "-", "/", "^", "fn", "fn", "fn", "fn", "f1", "poly", "dup", "neg">>, !.ex = <<Num("2"), Num("3"), Num("-1")>>]
\* f(...) as the base of a polynomial, functions inside functions
UserExpr(s) ==
  LET c == RT(Split(s, 1), 1, GPoly)
      inner == RT(Split(s, 2), 1 + Pick(s, 3, 2), GUser)
      u == Fn(PickFrom(s, 4, <<"f", "g", "F">>), <<inner>>)
      v == Fn(PickFrom(s, 5, <<"h", "k">>), <<inner, RT(Split(s, 6), 1, GUser)>>) IN
  CASE Coin(s, 7, 4) -> Subst(Sum(<<Pow(Sym("y"), Num("3")), Mul(Num("2"), Pow(Sym("y"), Num("2"))), c>>), [n \in {"y"} |-> u])
    [] Pick(s, 7, 4) = 1 -> Add(Mul(u, v), Pow(v, Num("2")))
    [] OTHER -> RT(Split(s, 8), 2 + Pick(s, 9, 2), GUser)
TrueDecls(s) ==
  LET want(f) == Pick(s, HashS(f) % 1000, 4)
      ps(f) == IF want(f) = 0 THEN <<>>
               ELSE IF NArgs(f) = 1 THEN <<<<0, TruePart(f, 1)>>>>
               ELSE IF want(f) = 1 THEN <<<<1, TruePart(f, 2)>>>> ELSE IF want(f) = 2 THEN <<<<1, TruePart(f, 2)>>, <<0, TruePart(f, 1)>>>>
               ELSE <<<<0, TruePart(f, 1)>>, <<1, TruePart(f, 2)>>>>
  IN [i \in 1..Len(UFns) |-> Decl(UFns[i], Pick(s, 300 + i, 3) = 0, ps(UFns[i]))]
CxFns(k, ds) == <<[c |-> "cx", op |-> "new", cx |-> k, n |-> ""]>>
               \o [i \in 1..Len(ds) |-> [c |-> "cx", op |-> "fn", cx |-> k, n |-> ds[i].n, ar |-> ds[i].ar, body |-> ds[i].body, parts |-> ds[i].parts]]
Wrong(ds) == [i \in 1..Len(ds) |-> [ds[i] EXCEPT !.parts = [j \in 1..Len(@) |-> <<@[j][1], Add(Arg(0), Num("100"))>>]]]
\* calls with the functions ds, through the builder or a context
With(c, ds, cx) == IF cx THEN [x \in DOMAIN c \cup {"cx"} |-> IF x = "cx" THEN "A" ELSE c[x]]
                   ELSE [x \in DOMAIN c \cup {"fns"} |-> IF x = "fns" THEN ds ELSE c[x]]
F02True(s) ==
  LET ds == TrueDecls(s) e == UserExpr(Split(s, 11)) cx == Coin(s, 12, 2)
      Df(r, x, raw, to) == With([c |-> "diff", pid |-> "F02", r |-> r, x |-> x, raw |-> raw, to |-> to], ds, cx) IN
  (IF cx THEN CxFns("A", ds) ELSE IF Coin(s, 13, 3) THEN CxFns("A", Wrong(ds)) ELSE <<>>)
  \o <<B0(e, s), Df(0, "x", TRUE, 1), Df(0, "x", FALSE, 2), Df(0, "y", TRUE, 3), Df(1, PickFrom(s, 14, <<"x", "y">>), TRUE, 4), Df(2, "y", FALSE, 5)>>
  \o (IF ~cx /\ Coin(s, 13, 3)    \* what the builder says wins over the context
      THEN <<[c |-> "diff", pid |-> "F02", r |-> 0, x |-> "x", raw |-> TRUE, to |-> 6, fns |-> [i \in 1..Len(ds) |-> Decl(ds[i].n, FALSE, <<<<0, TruePart(ds[i].n, 1)>>>> \o (IF NArgs(ds[i].n) = 2 THEN <<<<1, TruePart(ds[i].n, 2)>>>> ELSE <<>>))], cx |-> "A"]>>
      ELSE <<>>)
  \o <<With([c |-> "diff", pid |-> "F02", r |-> 0, x |-> "x", safe |-> TRUE, to |-> 7], ds, cx)>>
\* partial derivatives that need not fit any function
GPart == [GAlg EXCEPT !.sy = <<"#1", "#2", "#1">>, !.op = <<"+", "*", "-", "^", "f1">>, !.f1 = <<"sin", "exp", "cos">>, !.ex = <<Num("2"), Num("3")>>]
F02Fake(s) ==
  LET P(f, i) == IF Coin(s, (HashS(f) % 1000) + i, 4) THEN <<"none">>
                 ELSE LET t == RT(Split(s, (HashS(f) % 997) + (7 * i)), 2, GPart) IN IF NArgs(f) = 1 THEN Subst(t, [n \in {"#2"} |-> Sym("#1")]) ELSE t
      parts == [f \in {UFns[i] : i \in 1..Len(UFns)} |-> [i \in 1..NArgs(f) |-> P(f, i)]]
      ds == [i \in 1..Len(UFns) |-> LET f == UFns[i] idx == SelectSeq([j \in 1..NArgs(f) |-> j], LAMBDA j : Op(parts[f][j]) # "none") IN
               Decl(f, FALSE, [j \in 1..Len(idx) |-> <<idx[j] - 1, parts[f][idx[j]]>>])]
      e == UserExpr(Split(s, 21)) cx == Coin(s, 12, 2)
      Df(x, raw, to) == With([c |-> "diff", pid |-> "F02", r |-> 0, x |-> x, raw |-> raw, to |-> to, parts |-> parts], ds, cx) IN
  (IF cx THEN CxFns("A", ds) ELSE <<>>) \o <<B0(e, s), Df("x", TRUE, 1), Df("x", FALSE, 2), Df("y", TRUE, 3), Df("y", FALSE, 4)>>
F02Job(s) == IF Coin(s, 1, 3) THEN F02Fake(s) ELSE F02True(s)

(* ------------------- gradients and matrices: F03 ------------------------ *)
GSmall == [GCommon EXCEPT !.sy = <<"x", "y", "z", "x">>]
Letters == <<"x", "y", "z", "t", "x">>
VarsOf(s, k, pool) == [j \in 1..k |-> PickFrom(Split(s, 60), j, pool)]
SV(n) == <<"s", n>>
\* symbols without a name and symbols of a context stand in for letters
F03Job(s) ==
  LET special == Coin(s, 1, 3)
      swap == [n \in {"y", "z"} |-> IF n = "y" THEN <<"an", 1>> ELSE <<"cs", "A", "w1">>]
      E(i) == LET e == RT(Split(s, 30 + i), 1 + Pick(s, 40 + i, 2), IF Coin(s, 50 + i, 3) THEN GPoly ELSE GSmall) IN IF special THEN Subst(e, swap) ELSE e
      k == Pick(s, 2, 4) + IF Coin(s, 3, 8) THEN 0 ELSE 1
      vs == [j \in 1..k |-> LET n == PickFrom(Split(s, 60), j, Letters) IN IF special /\ n \in {"y", "z"} THEN swap[n] ELSE SV(n)]
      ne == 1 + Pick(s, 4, 3)
      hv == SubSeq(vs, 1, IF k < 3 THEN k ELSE 2 + Pick(s, 5, 2))
      \* texts
      T(i) == Wr(RT(Split(s, 70 + i), 1 + Pick(s, 80 + i, 2), IF Coin(s, 50 + i, 3) THEN GPoly ELSE GSmall))
      ns == VarsOf(s, 1 + Pick(s, 6, 3), Letters) IN
  (IF special THEN <<[c |-> "anon", k |-> 1], [c |-> "cx", op |-> "new", cx |-> "A", n |-> ""], [c |-> "cx", op |-> "symb", cx |-> "A", n |-> "w1"]>> ELSE <<>>)
  \o [i \in 1..ne |-> B(E(i), PickFrom(s, 90 + i, <<"ops", "ctor">>), s, i)]
  \o <<[c |-> "grad", rs |-> <<1>>, vars |-> vs], [c |-> "jac", rs |-> [i \in 1..ne |-> i], vars |-> vs], [c |-> "hess", rs |-> <<1>>, vars |-> hv]>>
  \o (IF special THEN [j \in 1..k |-> [c |-> "diff", pid |-> "F03", r |-> 1, x |-> "?", xt |-> vs[j], to |-> 10 + j]]
      ELSE <<[c |-> "gradstr", ss |-> <<T(1)>>, vars |-> ns], [c |-> "hessstr", ss |-> <<T(1)>>, vars |-> SubSeq(ns, 1, IF Len(ns) > 2 THEN 2 ELSE Len(ns))],
             [c |-> "jacstr", ss |-> [i \in 1..ne |-> T(i)], vars |-> ns]>>)

(* --------------------- limits and entry points: F04 --------------------- *)
F04Job(s) ==
  LET fn == Coin(s, 1, 3)
      e == RT(Split(s, 2), 1 + Pick(s, 3, 3), IF fn THEN [GUser EXCEPT !.fn = <<<<"f", <<"e">>>>, <<"h", <<"e", "e">>>>>>] ELSE Small4(s))
      t == Wr(e)
      ufs == IF fn THEN <<"f", "h">> ELSE <<>>
      ds == IF fn THEN <<Decl("f", FALSE, <<<<0, TruePart("f", 1)>>>>), Decl("h", FALSE, <<>>)>> ELSE <<>>
      ds0 == IF fn THEN <<Decl("f", FALSE, <<>>), Decl("h", FALSE, <<>>)>> ELSE <<>>
      hd == Height(e) sz == Size(e)
      Lim(k) == LET q == Pick(s, 100 + k, 6)
                    d == hd + Pick(s, 110 + k, 4) - 2
                    n == sz + Pick(s, 120 + k, 7) - 4 IN
                [a \in (IF q # 0 THEN {"maxd"} ELSE {}) \cup (IF q \in {0, 1} THEN {"maxn"} ELSE {}) |-> IF a = "maxd" THEN (IF d < 0 THEN 0 ELSE d) ELSE (IF n < 0 THEN 0 ELSE n)]
      On(c, r2) == [a \in DOMAIN c \cup DOMAIN r2 |-> IF a \in DOMAIN r2 THEN r2[a] ELSE c[a]]
      Fns2(d) == IF d = <<>> THEN [a \in {} |-> 0] ELSE [fns |-> d]
      LimD == [pid |-> "F04", lim |-> TRUE]
      Df(k) == On(On([c |-> "diff", r |-> 0, x |-> "x", same |-> 1], LimD), On(Fns2(ds), Lim(k)))
      DfS(k) == On(On([c |-> "diffstr", s |-> t, x |-> "x", known |-> <<>>, of |-> 0, same |-> 1], LimD), On(Fns2(ds), Lim(k)))
      Sm(k) == On(On([c |-> "simp", r |-> 0, same |-> 2], LimD), On(Fns2(ds0), Lim(k)))
      SmS(k) == On(On([c |-> "simpstr", s |-> t, known |-> <<>>, of |-> 0, same |-> 2], LimD), On(Fns2(ds0), Lim(k)))
      Fx == PickFrom(s, 130, <<<<"x">>, <<"y">>, <<"y", "z">>, <<"z", "x">>>>)
      Cl == IF fn THEN PickFrom(s, 131, <<<<"f">>, <<"y">>, <<"h", "x">>>>) ELSE <<"y">>
      \* bigger limits: nothing must change
      Big(c) == On(c, [maxd |-> 1000, maxn |-> 100000])
      None == [a \in {} |-> 0]
      env == [x |-> PickFrom(s, 132, NZ), y |-> PickFrom(s, 133, NZ)]
      cxd == CxFns("A", ds) IN
  <<[c |-> "parse", s |-> t, known |-> <<>>, fns |-> ufs, to |-> 0]>>
  \o <<On([c |-> "diff", r |-> 0, x |-> "x", to |-> 1, pid |-> "F04", only |-> TRUE], Fns2(ds)), [c |-> "show", r |-> 1],
       On([c |-> "simp", r |-> 0, to |-> 2, pid |-> "F04", only |-> TRUE], Fns2(ds0)), [c |-> "show", r |-> 2]>>
  \o <<Df(1), Df(2), Big(Df(3)), DfS(4), Sm(5), SmS(6), Big(DfS(7)), Sm(8)>>
  \o <<On(On([c |-> "diff", r |-> 0, x |-> "x", same |-> 1, fixed |-> Fx], LimD), Fns2(ds)),
       On(On([c |-> "diffstr", s |-> t, x |-> "x", known |-> Fx, of |-> 0, same |-> 1], LimD), Fns2(ds)),
       On(On([c |-> "diffstr", s |-> t, x |-> "x", known |-> <<>>, fixed |-> Fx, of |-> 0, same |-> 1], LimD), Fns2(ds)),
       On(On([c |-> "simpstr", s |-> t, known |-> Fx, of |-> 0, same |-> 2], LimD), Fns2(ds0))>>
  \o (IF fn THEN <<On(On([c |-> "diffstr", s |-> "x+y", x |-> "x", known |-> Cl, of |-> 3], LimD), Fns2(ds)),
                   On(On([c |-> "simpstr", s |-> "x+y", known |-> <<>>, fixed |-> Cl, of |-> 3], LimD), Fns2(ds0))>> ELSE <<>>)
  \o (IF fn THEN <<>> ELSE
      <<[c |-> "diff", r |-> 0, x |-> "x", via |-> "method", same |-> 1, pid |-> "F04", only |-> TRUE],
        [c |-> "diffstr", s |-> t, x |-> "x", known |-> <<>>, via |-> "free", same |-> 1, pid |-> "F04", only |-> TRUE],
        [c |-> "simp", r |-> 0, via |-> "method", same |-> 2, pid |-> "F04", only |-> TRUE],
        [c |-> "simpstr", s |-> t, known |-> <<>>, via |-> "free", same |-> 2, pid |-> "F04", only |-> TRUE],
        [c |-> "eval", r |-> 0, env |-> env, to |-> 5], [c |-> "show", r |-> 5], [c |-> "evalstr", s |-> t, env |-> env, same |-> 5, pid |-> "F04", only |-> TRUE],
        [c |-> "eval", r |-> 0, via |-> "id", env |-> env, same |-> 5, pid |-> "F04", only |-> TRUE]>>)
  \* the same functions from a context
  \o (IF fn THEN cxd \o <<[c |-> "diff", r |-> 0, x |-> "x", cx |-> "A", same |-> 1, pid |-> "F04", only |-> TRUE],
                          [c |-> "diffstr", s |-> t, x |-> "x", known |-> <<>>, cx |-> "A", same |-> 1, pid |-> "F04", only |-> TRUE]>> ELSE <<>>)

(* -------------------- repeated simplification: M03 ---------------------- *)
Hostile == <<"1e308", "-1e308", "1e-308", "0x8000000000000000", "0", "1e15", "1e300", "2", "-1", "0.5", "1", "3", "1e-15", "0x7ff0000000000000", "1e16", "4294967296", "-3", "1e10">>
GHost == [GElem EXCEPT !.li = Hostile, !.ex = <<Num("2"), Num("-1"), Num("0.5"), Num("1e10"), Num("-1e300"), Num("4294967296"), Num("1000000"), Num("70000"), Num("0x7ff0000000000000"), Num("0"), Num("3"), Num("-2147483649")>>,
          !.f1 = F1Elem \o F1Spec, !.op = <<"+", "*", "-", "/", "^", "f1", "neg", "poly", "poly", "dup">>]
\* a fraction of sparse polynomials, some of very high degree
BigPoly(s) ==
  Sum([k \in 1..(2 + Pick(s, 1, 2)) |->
       LET c == Num(PickFrom(s, 10 + k, <<"1", "1", "-1", "2", "-3", "0.1", "1e15", "1e-300">>))
           p == PickFrom(s, 20 + k, <<"0", "1", "1", "2", "3", "7", "70000", "1000000", "4294967295", "4294967296", "1e15">>) IN
       IF p = "0" THEN c ELSE IF Coin(s, 30 + k, 2) THEN Pow(Sym("x"), Num(p)) ELSE Mul(c, Pow(Sym("x"), Num(p)))])
M03Expr(s) ==
  CASE Coin(s, 8, 12) -> Div(BigPoly(Split(s, 9)), BigPoly(Split(s, 10)))
    [] Coin(s, 11, 40) -> Mul(BigPoly(Split(s, 9)), BigPoly(Split(s, 10)))
    [] Coin(s, 1, 3) -> RT(Split(s, 2), 2 + Pick(s, 3, 3), GHost)
    [] Pick(s, 1, 3) = 1 /\ Coin(s, 4, 2) -> Wide(Split(s, 5), GCommon)
    [] OTHER -> RT(Split(s, 6), 2 + Pick(s, 7, 3), Small4(s))
Only(c) == [a \in DOMAIN c \cup {"pid", "only"} |-> IF a = "pid" THEN "M03" ELSE IF a = "only" THEN TRUE ELSE c[a]]
M03Job(s) ==
  LET e == M03Expr(s)
      hostile == Coin(s, 1, 3)
      other == RT(Split(s, 8), 2, Small4(s))
      Bd(x, to) == B(x, "ops", s, to)
      Sm(r, same) == Only([c |-> "simp", r |-> r, same |-> same])
      SmS(r, same) == Only([c |-> "simp", r |-> r, safe |-> TRUE, same |-> same])
      Df(r, same) == Only([c |-> "diff", r |-> r, x |-> "x", same |-> same])
      three == <<Sm(0, 1), Df(0, 2), SmS(0, 3)>>
      order == PickFrom(s, 9, <<<<"z", "y", "x", "a">>, <<"y", "a", "z", "x">>, <<"a", "x", "z", "y">>>>) IN
  <<Bd(e, 0), Only([c |-> "simp", r |-> 0, to |-> 1]), Only([c |-> "diff", r |-> 0, x |-> "x", to |-> 2]), Only([c |-> "simp", r |-> 0, safe |-> TRUE, to |-> 3])>>
  \o (IF hostile THEN <<>> ELSE <<[c |-> "simp", r |-> 1, to |-> 4, pid |-> "M03"], [c |-> "simp", r |-> 3, safe |-> TRUE, to |-> 5, pid |-> "M03"], Only([c |-> "simp", r |-> 4, to |-> 6])>>)
  \o <<Bd(other, 7), Only([c |-> "simp", r |-> 7, to |-> 8]), Only([c |-> "diff", r |-> 7, x |-> "y", to |-> 9])>>
  \o three
  \o <<[c |-> "thr", cmds |-> three]>>
  \o (IF Coin(s, 10, 3) THEN <<[c |-> "par", threads |-> <<three, <<Only([c |-> "simp", r |-> 7, same |-> 8])>> \o three, three \o <<Df(0, 2)>>, <<SmS(0, 3), Df(0, 2), Sm(0, 1)>>>>]>> ELSE <<>>)
  \* the same expression built anew, after the symbols were created in another order
  \o (IF Coin(s, 11, 2) THEN <<[c |-> "rg", op |-> "clear", n |-> ""]>> \o [i \in 1..4 |-> [c |-> "rg", op |-> "symb", n |-> order[i]]] ELSE <<>>)
  \o <<Bd(e, 10), Sm(10, 1), Df(10, 2), SmS(10, 3)>>

(* ------------------ compilation and batch contract: V03 ----------------- *)
GBodies == [GUser EXCEPT !.op = <<"+", "*", "-", "fn", "fn", "f1", "poly">>]
BodyDecls(s, fs) == [i \in 1..Len(fs) |-> Decl(fs[i], TRUE, <<>>)]
Subs(s, q) == SelectSeq(q, LAMBDA f : Pick(s, (HashS(f) % 1000) + 7, 3) # 0)
V03Comp(s) ==
  LET e == CASE Coin(s, 1, 3) -> RT(Split(s, 2), 2, GBodies)
             [] Pick(s, 1, 9) = 1 -> Add(Der(Fn("f", <<Sym("x")>>), "x", 1), RT(Split(s, 2), 1, GSmall))
             [] OTHER -> RT(Split(s, 2), 1 + Pick(s, 3, 3), Small4(s))
      ps == PickFrom(s, 4, ParamOrders \o <<<<"x">>, <<"y", "x">>, <<>>, <<"x", "y", "z">>, <<"b", "x", "y", "z", "a", "t">>>>)
      bs == Subs(s, UFns)
      cx == Coin(s, 5, 2) \/ Coin(s, 1, 3)
      C(ev, x) == [a \in {"c", "r", "ev", "pid", "bodies"} \cup (IF cx THEN {"cx"} ELSE {}) \cup DOMAIN x |->
                   CASE a = "c" -> "comp" [] a = "r" -> 0 [] a = "ev" -> ev [] a = "pid" -> "V03" [] a = "bodies" -> (IF cx THEN bs ELSE <<>>) [] a = "cx" -> "A" [] OTHER -> x[a]]
      Cv(ev, n) == [c |-> "cev", ev |-> ev, pid |-> "V03", pts |-> Pts(s, 2, n)]
      k == Pick(s, 6, 6)
      n == PickFrom(s, 7, <<0, 1, 2, 4, 5, 9>>)
      \* columns: right, too few, too many, ragged
      cols == LET w == Cols(s, k, n) IN IF Coin(s, 8, 3) /\ k > 1 /\ n > 1 THEN [w EXCEPT ![1 + Pick(s, 9, k)] = SubSeq(@, 1, n - 1)] ELSE w
      out == IF Coin(s, 10, 4) THEN Pick(s, 11, n + 1) ELSE n + Pick(s, 12, 3)
      \* what an evaluator with automatic parameters takes
      na == Cardinality({x \in SymsOf(e) : ConstName(x) = ""})
      colsA == Cols(s, na, n) IN
  (IF cx THEN CxFns("A", BodyDecls(s, bs)) ELSE <<>>)
  \o <<B0(e, s), C("E", [params |-> ps]), Cv("E", Len(ps)), Cv("E", IF Len(ps) > 1 THEN Len(ps) - 1 ELSE 0), Cv("E", Len(ps) + 2),
       C("A", [auto |-> TRUE]), C("S", [params |-> [i \in 1..Len(ps) |-> SV(ps[i])], via |-> "sym"]), Cv("S", Len(ps)),
       [c |-> "batch", ev |-> "E", buf |-> "none", n |-> out, cols |-> cols], [c |-> "pbatch", ev |-> "E", cols |-> cols],
       [c |-> "batch", ev |-> "A", buf |-> "shared", n |-> out, cols |-> colsA], [c |-> "pbatch", ev |-> "A", cols |-> colsA],
       [c |-> "batch", ev |-> "A", buf |-> "fresh", n |-> n, cols |-> colsA]>>
  \o (IF cx THEN <<>> ELSE <<C("M", [params |-> ps, via |-> "method"]), Cv("M", Len(ps)), C("N", [auto |-> TRUE, via |-> "method"])>>)
\* parameters that are not ordinary names
V03Sym(s) ==
  LET swap == [n \in {"y", "z"} |-> IF n = "y" THEN <<"an", 1>> ELSE <<"cs", "A", "w1">>]
      e == Subst(RT(Split(s, 2), 2, GSmall), swap)
      ps == PickFrom(s, 3, <<<<SV("x"), <<"an", 1>>, <<"cs", "A", "w1">>>>, <<<<"cs", "A", "w1">>, SV("x"), <<"an", 1>>>>, <<<<"an", 1>>, SV("x")>>, <<SV("y"), SV("x"), SV("z")>>>>) IN
  <<[c |-> "anon", k |-> 1], [c |-> "cx", op |-> "new", cx |-> "A", n |-> ""], [c |-> "cx", op |-> "symb", cx |-> "A", n |-> "w1"],
    B(e, "ops", s, 0), [c |-> "comp", r |-> 0, ev |-> "E", params |-> ps, via |-> "sym", bodies |-> <<>>, pid |-> "V03"], [c |-> "cev", ev |-> "E", pid |-> "V03", pts |-> Pts(s, 3, Len(ps))]>>
V03F64(s) ==
  LET ne == 1 + Pick(s, 2, 3)
      big == Coin(s, 4, 12)
      E(i) == RT(Split(s, 20 + i), IF big THEN 1 ELSE 1 + Pick(s, 30 + i, 3), Small4(s))
      vs == [i \in 1..ne |-> IF Coin(s, 40 + i, 8) THEN <<"x", "y">> ELSE PickFrom(s, 50 + i, ParamOrders)]
      \* at 256 points and more the work is divided
      n(i) == IF big /\ i = 1 THEN PickFrom(s, 60, <<255, 256, 257, 300, 513>>) ELSE PickFrom(s, 60 + i, <<0, 1, 3, 4, 6, 13>>)
      dt(i) == LET w == Cols(Split(s, i), Len(vs[i]), n(i)) IN IF Coin(s, 70 + i, IF big THEN 3 ELSE 12) /\ n(i) > 1 THEN [w EXCEPT ![2] = SubSeq(@, 1, n(i) - 1)] ELSE IF Coin(s, 80 + i, 12) THEN SubSeq(w, 1, Len(w) - 1) ELSE w
      m == IF Coin(s, 3, 10) THEN ne - 1 ELSE ne IN
  [i \in 1..ne |-> B(E(i), "ops", s, i)] \o <<[c |-> "evalf64", rs |-> [i \in 1..ne |-> i], vars |-> SubSeq(vs, 1, m), data |-> [i \in 1..ne |-> dt(i)]]>>
V03Job(s) == CASE Coin(s, 13, 4) -> V03F64(Split(s, 14)) [] Pick(s, 13, 8) = 1 -> V03Sym(Split(s, 14)) [] OTHER -> V03Comp(Split(s, 14))

(* ------------------ many expressions at many points: V04 ---------------- *)
V04Job(s) ==
  LET ne == 1 + Pick(s, 1, 4)
      swap == [n \in {"y", "z"} |-> IF n = "y" THEN <<"an", 1>> ELSE <<"cs", "A", "w1">>]
      special(i) == Coin(s, 10 + i, 8)
      isStr(i) == ~special(i) /\ Coin(s, 20 + i, 2)
      G(i) == IF Coin(s, 30 + i, 5) THEN WithFn([GCommon EXCEPT !.fn = <<<<"f", <<"e">>>>>>]) ELSE Small4(Split(s, i))
      E0(i) == RT(Split(s, 40 + i), 1 + Pick(s, 50 + i, 3), G(i))
      E(i) == IF special(i) THEN Subst(E0(i), swap) ELSE E0(i)
      \* different variables, some do not occur
      names(i) == PickFrom(s, 60 + i, <<<<"x">>, <<"x", "y">>, <<"y", "z", "x">>, <<"a", "x", "t", "y", "z">>, <<>>, <<"z", "y", "x", "a">>>>)
      vs(i) == [j \in 1..Len(names(i)) |-> IF special(i) /\ names(i)[j] \in {"y", "z"} THEN swap[names(i)[j]] ELSE SV(names(i)[j])]
      kind(i) == Pick(s, 70 + i, 4)       \* 0, 1: numbers only
      np(i) == PickFrom(s, 80 + i, <<1, 2, 3, 5, 0, 4>>)
      Val(i, j, p) == LET t == Split(Split(s, 100 + i), (10 * j) + p) q == Pick(t, 1, 10) IN
         IF kind(i) < 2 \/ q < 5 THEN Num(PickFrom(t, 2, NZ)) ELSE IF q < 7 THEN <<"skip">>
         ELSE IF q = 7 THEN Sym(PickFrom(t, 3, <<"x", "y", "z", "b">>)) ELSE RT(Split(t, 4), 1, GSmall)
      Col(i, j) == LET full == np(i)
                       len == IF Coin(s, (110 + (7 * i)) + j, 4) THEN IF full > 1 THEN 1 + Pick(s, (150 + (7 * i)) + j, full) ELSE full ELSE IF Coin(s, (190 + (7 * i)) + j, 40) THEN 0 ELSE full
                   IN [p \in 1..len |-> Val(i, j, p)]
      vals(i) == LET w == [j \in 1..Len(vs(i)) |-> Col(i, j)] IN IF Coin(s, 230 + i, 30) THEN Append(w, <<Num("1")>>) ELSE w
      m == IF Coin(s, 2, 25) THEN ne - 1 ELSE ne IN
  <<[c |-> "anon", k |-> 1], [c |-> "cx", op |-> "new", cx |-> "A", n |-> ""], [c |-> "cx", op |-> "symb", cx |-> "A", n |-> "w1"]>>
  \o [i \in 1..ne |-> B(E(i), "ops", s, i)]
  \o <<[c |-> "evp", exprs |-> [i \in 1..ne |-> IF isStr(i) THEN <<"str", Wr(E(i))>> ELSE <<"r", i>>], vars |-> [i \in 1..m |-> vs(i)], vals |-> [i \in 1..ne |-> vals(i)]]>>

(* --------------------------- uncertainty -------------------------------- *)
CovNum == <<"0.25", "-0.5", "1", "2", "-1.5", "0.125", "3", "0", "-0.0625", "0.75">>
VarNum == <<"4", "1", "2.25", "6", "9", "5.5">>
SymCov(s, n) == [i \in 1..n |-> [j \in 1..n |->
   IF i = j THEN (IF Coin(s, 10 + i, 4) THEN Pow(Sym("sigma"), Num("2")) ELSE Num(PickFrom(s, 20 + i, VarNum)))
   ELSE LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i t == 30 + (10 * a) + b IN
        IF Coin(s, 9, 2) /\ Coin(s, t + 500, 2) THEN Num("0")
        ELSE IF Coin(s, t, 6) THEN Mul(Sym("r"), Num(PickFrom(s, t + 1, CovNum))) ELSE Num(PickFrom(s, t, CovNum))]]
U01Job(s) ==
  LET e0 == RT(Split(s, 1), 1 + Pick(s, 2, 2), IF Coin(s, 3, 3) THEN GPoly ELSE GSmall)
      many == Coin(s, 6, 3)
      \* of three variables and more, the zero entries are scattered
      e == IF many THEN Add(Add(e0, Mul(Num(PickFrom(s, 8, VarNum)), Sym("x"))), Add(Mul(Sym("y"), Sym("z")), Fn1("sin", Sym("t")))) ELSE e0
      vs == IF many THEN PickFrom(s, 4, <<<<"x", "y", "z">>, <<"z", "y", "x">>, <<"t", "y", "x", "z">>, <<"y", "z", "x">>, <<"x", "y", "t", "z">>>>)
            ELSE PickFrom(s, 4, <<<<"x">>, <<"x", "y">>, <<"y", "x">>, <<"x", "y", "z">>, <<"z", "x">>, <<"x", "t">>, <<>>>>)
      n == Len(vs)
      wrong == IF Coin(s, 5, 8) THEN n + 1 ELSE n
      U(k, cv) == IF cv = "" THEN [c |-> k, r |-> 0, vars |-> vs, pid |-> "U01"] ELSE [c |-> k, r |-> 0, vars |-> vs, cov |-> cv, pid |-> "U01"] IN
  <<B0(e, s), U("unc", ""), [c |-> "cov", k |-> "new", cov |-> "C", m |-> SymCov(s, wrong)], U("unc", "C"), U("rel", "C"),
    [c |-> "cov", k |-> "diag", cov |-> "D", m |-> [i \in 1..n |-> IF Coin(s, 60 + i, 4) THEN Pow(Sym("w"), Num("2")) ELSE Num(PickFrom(s, 70 + i, VarNum))]], U("unc", "D"), U("rel", ""),
    [c |-> "cov", k |-> "sym", cov |-> "S", m |-> vs], U("unc", "S")>>
U02Job(s) ==
  LET n == Pick(s, 1, 5)
      m0 == SymCov(s, n)
      i == 1 + Pick(s, 2, IF n = 0 THEN 1 ELSE n)
      j == 1 + Pick(s, 3, IF n = 0 THEN 1 ELSE n)
      m == CASE n = 0 -> <<>>
             [] Pick(s, 4, 5) = 0 -> [m0 EXCEPT ![i][j] = Num(PickFrom(s, 5, CovNum))]                      \* perhaps asymmetric
             [] Pick(s, 4, 5) = 1 -> [m0 EXCEPT ![i] = IF Coin(s, 6, 2) THEN Append(@, Num("1")) ELSE SubSeq(@, 1, n - 1)]
             [] Pick(s, 4, 5) = 2 -> (IF Coin(s, 7, 2) THEN Append(m0, m0[1]) ELSE SubSeq(m0, 1, n - 1))     \* a row more or less
             [] OTHER -> m0
      vs == SubSeq(<<"x", "y", "z", "a", "b">>, 1, PickFrom(s, 8, <<n, n, n + 1, IF n = 0 THEN 0 ELSE n - 1>>)) IN
  <<[c |-> "cov", k |-> "new", cov |-> "C", m |-> m], [c |-> "cov", k |-> "diag", cov |-> "D", m |-> [q \in 1..n |-> IF Coin(s, 40 + q, 3) THEN Pow(Sym("w"), Num("2")) ELSE Num(PickFrom(s, 50 + q, CovNum))]],
    [c |-> "cov", k |-> "sym", cov |-> "S", m |-> vs], B(Sum(<<Mul(Sym("x"), Sym("y")), Sym("z"), Num("1")>>), "ops", 1, 0)>>
  \o [k \in 1..3 |-> [c |-> "unc", r |-> 0, vars |-> vs, cov |-> <<"C", "D", "S">>[k], pid |-> "U02"]]

(* ---------------------------- dual numbers ------------------------------ *)
F1Dual == F1Elem \o <<"exp2", "expm1", "ln1p", "recip", "trunc", "fract", "sign", "sincos", "floor", "ceil", "round">>
F2Dual == <<<<"hypot", <<"e", "e">>>>, <<"max", <<"e", "e">>>>, <<"min", <<"e", "e">>>>, <<"absdiff", <<"e", "e">>>>, <<"muladd", <<"e", "e", "e">>>>, <<"rem", <<"e", "e">>>>,
            <<"atan2", <<"e", "e">>>>, <<"log", <<"e", "e">>>>, <<"beta", <<"e", "e">>>>, <<"polygamma", <<"1", "e">>>>, <<"polygamma", <<"2", "e">>>>, <<"besselj", <<"0", "e">>>>, <<"besselj", <<"2", "e">>>>, <<"besselj", <<"1", "e">>>>>>
DualF1 == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "ln", "log10", "log2", "sqrt", "cbrt", "abs", "floor", "ceil", "round", "signum",
           "exp2", "expm1", "ln1p", "recip", "trunc", "fract", "sincos", "erf", "erfc", "gamma", "digamma", "trigamma", "zeta", "lambertw", "sinc", "sign", "elliptic_k", "elliptic_e"}
GDual == [GElem EXCEPT !.f1 = SelectSeq(F1Dual, LAMBDA f : f \in DualF1), !.fn = F2Dual, !.ex = ExpA, !.op = <<"+", "*", "-", "/", "^", "f1", "f1", "f1", "fn", "fn", "neg", "dup">>,
          !.li = <<"2", "3", "0.5", "-1.5", "4", "-2", "0.25", "1", "0">>]
GDualSp == [GDual EXCEPT !.f1 = <<"erf", "erfc", "gamma", "digamma", "trigamma", "zeta", "lambertw", "elliptic_k", "elliptic_e", "sinc", "sin">>]
Gen2 == <<"1.71875", "-1.34375", "0.390625", "2.71875", "-0.640625", "3.53125", "0.140625", "-2.28125", "0.765625", "1.28125", "-3.40625", "0.921875", "5.46875", "-0.078125", "0.53125", "-0.90625", "0", "1", "-1", "2">>
N01Job(s) ==
  LET e == RT(Split(s, 1), 1 + Pick(s, 2, 3), IF Coin(s, 3, 4) THEN GDualSp ELSE GDual)
      env(k) == [n \in {"x", "y", "z", "a"} |-> PickFrom(Split(s, 30 + k), HashS(n) % 1000, Gen2)] IN
  [k \in 1..8 |-> [c |-> IF k > 6 THEN "dual2" ELSE "dual", e |-> e, x |-> PickFrom(s, 50 + k, <<"x", "x", "y">>), env |-> env(k)]]

JobOf(s) == CASE PID = "F02" -> F02Job(s) [] PID = "F03" -> F03Job(s) [] PID = "F04" -> F04Job(s) [] PID = "M03" -> M03Job(s)
              [] PID = "V03" -> V03Job(s) [] PID = "V04" -> V04Job(s) [] PID = "U01" -> U01Job(s) [] PID = "U02" -> U02Job(s) [] OTHER -> N01Job(s)
Job(i) == [id |-> i, cmds |-> JobOf(Split(Seed, i))]
VARIABLE written
Init == written = Count /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Count |-> Job(i)])
Next == FALSE /\ written' = written
=============================================================================
