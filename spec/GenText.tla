------------------------------ MODULE GenText -------------------------------
(***************************************************************************)
(* Texts.  MODE = "write": random expressions written down in many ways    *)
(* (spaces, redundant parentheses, juxtaposition, number formats, aliases, *)
(* missing parentheses).  MODE = "soup": random sequences of lexemes.      *)
(* MODE = "deep": long and deeply nested texts (only termination judged).  *)
(***************************************************************************)
EXTENDS Gram, IOUtils, Json, SequencesExt
Syn == INSTANCE Syntax
Seed == atoi(IOEnv.SEED)
N0 == atoi(IOEnv.COUNT)

SymsT == <<"x", "y", "z", "alpha", "x1", "ab", "pi", "e", Uni(952), "xy">>
KnownT == <<"x", "y", "z", "alpha", "x1", "ab", Uni(952), "xy", "exa">>
KnownS == {"x", "y", "z", "alpha", "x1", "ab", Uni(952), "xy", "exa"}
FnsT == <<"f", "h", "foo">>
FnsS == {"f", "h", "foo"}
GT == [sy |-> SymsT, li |-> <<"2", "3", "1", "0.5", "10", "4", "1.5", "0", "5", "0.25", "7", "100", "1200", "0.001">>, ex |-> <<Num("2"), Num("3"), Neg(Num("1")), Num("0.5"), Neg(Num("2"))>>,
       f1 |-> <<"sin", "cos", "exp", "ln", "sqrt", "asin", "log10", "log2", "sinh", "abs", "erf", "cbrt", "floor", "acosh", "exp_polar", "tan">>,
       fn |-> <<<<"log", <<"e", "e">>>>, <<"f", <<"e">>>>, <<"h", <<"e", "e">>>>, <<"atan2", <<"e", "e">>>>, <<"beta", <<"e", "e">>>>>>,
       op |-> <<"+", "+", "*", "*", "*", "-", "/", "/", "^", "^", "f1", "f1", "fn", "neg">>]

Sp(s) == CASE Pick(s, 700, 8) = 0 -> " " [] Pick(s, 700, 8) = 1 -> "  " [] Pick(s, 700, 24) = 2 -> "\t" [] Pick(s, 700, 24) = 10 -> "\n" [] OTHER -> ""
NumForms(l) ==
  CASE l = "2" -> <<"2", "2.0", "2.", "02", "2e0", "0.2e1", "20E-1">> [] l = "0.5" -> <<"0.5", ".5", "5e-1", "0.50">>
    [] l = "10" -> <<"10", "1_0", "1e1", "1e+1", "10.0">> [] l = "1200" -> <<"1200", "1_200", "1.2e3", "12e+2">>
    [] l = "0.001" -> <<"0.001", "1e-3", "1E-3", ".001">> [] l = "100" -> <<"100", "1e2", "1E2">> [] OTHER -> <<l>>
Par(t, s) == "(" \o Sp(Split(s, 1)) \o t \o Sp(Split(s, 2)) \o ")"
\* may the text b follow the text a directly, as a factor?
Factors(a, b, s) ==
  LET ta == Syn!Tokens(Chars(a), KnownS, FnsS) tb == Syn!Tokens(Chars(b), KnownS, FnsS)
      glued == Syn!Tokens(Chars(a \o b), KnownS, FnsS)
  IN IF ~Syn!Adjacent(ta[Len(ta)], tb[1], FnsS) THEN a \o Sp(s) \o "*" \o Sp(s + 1) \o b
     ELSE IF glued = ta \o tb /\ Pick(s, 720, 2) = 0 THEN a \o b ELSE a \o " " \o b
RECURSIVE Write(_, _, _)
RECURSIVE Terms(_, _, _)
RECURSIVE Facs(_, _, _)
RECURSIVE ArgList(_, _, _)
\* level: 0 sum, 1 term, 2 unary, 3 power, 4 atom
LevelOf(e) == CASE Op(e) \in {"+", "-"} -> 0 [] Op(e) \in {"*", "/"} -> 1 [] Op(e) = "neg" -> 2 [] Op(e) = "^" -> 3 [] OTHER -> 4
Terms(ts, i, s) == IF i > Len(ts) THEN ""
  ELSE (IF i = 1 THEN "" ELSE Sp(Split(s, i)) \o "+" \o Sp(Split(s, i + 50))) \o Write(ts[i], 1, Split(s, i)) \o Terms(ts, i + 1, s)
Facs(fs, i, s) == IF i = 1 THEN Write(fs[1], 1, Split(s, 1))
  ELSE LET a == Facs(fs, i - 1, s) IN
       (IF Pick(s, 710 + i, 2) = 0 THEN Factors(a, Write(fs[i], 3, Split(s, i)), Split(s, i + 40))
        ELSE a \o Sp(Split(s, i + 20)) \o "*" \o Sp(Split(s, i + 30)) \o Write(fs[i], 2, Split(s, i)))
ArgList(as, i, s) == IF i > Len(as) THEN "" ELSE (IF i = 1 THEN "" ELSE "," \o Sp(Split(s, i + 60))) \o Write(as[i], 0, Split(s, i)) \o ArgList(as, i + 1, s)
Write(e, lvl, s) ==
  LET t == CASE Op(e) = "n" -> PickFrom(s, 701, NumForms(e[2]))
             [] Op(e) = "s" -> IF e[2] = "pi" THEN PickFrom(s, 702, <<"pi", Uni(960), "PI", "Pi">>) ELSE IF e[2] = "e" THEN PickFrom(s, 702, <<"e", "E">>) ELSE e[2]
             [] Op(e) = "+" -> Terms(e[2], 1, s)
             [] Op(e) = "-" -> Write(e[2], 0, Split(s, 1)) \o Sp(Split(s, 3)) \o "-" \o Sp(Split(s, 4)) \o Write(e[3], 1, Split(s, 2))
             [] Op(e) = "*" -> Facs(e[2], Len(e[2]), s)
             [] Op(e) = "/" -> Write(e[2], 1, Split(s, 1)) \o Sp(Split(s, 3)) \o "/" \o Sp(Split(s, 4)) \o Write(e[3], 2, Split(s, 2))
             [] Op(e) = "neg" -> "-" \o Sp(Split(s, 3)) \o Write(e[2], 2, Split(s, 1))
             [] Op(e) = "^" -> Write(e[2], 4, Split(s, 1)) \o Sp(Split(s, 3)) \o PickFrom(s, 703, <<"^", "^", "**">>) \o Sp(Split(s, 4)) \o Write(e[3], 2, Split(s, 2))
             [] Op(e) = "f" -> (IF e[2] = "sin" THEN PickFrom(s, 704, <<"sin", "sin", "sen">>) ELSE e[2]) \o (IF Pick(s, 705, 6) = 0 THEN " " ELSE "") \o Par(ArgList(e[3], 1, s), s)
      need == LevelOf(e) < lvl
  IN IF need \/ Pick(s, 706, 9) = 0 THEN Par(t, Split(s, 9)) ELSE IF lvl <= 2 /\ Pick(s, 707, 25) = 0 THEN "+" \o t ELSE t
RECURSIVE DropEnd(_)
DropEnd(q) == IF q # <<>> /\ q[Len(q)] = ")" THEN DropEnd(SubSeq(q, 1, Len(q) - 1)) ELSE q
RECURSIVE DropStart(_)
DropStart(q) == IF q # <<>> /\ q[1] = "(" THEN DropStart(Tail(q)) ELSE q
Text(e, s) == LET t == Write(e, 0, s) q == Chars(t) IN
  CASE Pick(s, 708, 10) = 0 -> Join(DropEnd(q)) [] Pick(s, 708, 10) = 1 -> Join(DropStart(q)) [] Pick(s, 708, 10) = 2 -> " " \o t \o " " [] OTHER -> t
P(t) == [c |-> "parse", s |-> t, known |-> KnownT, fns |-> FnsT, ref |-> TRUE]
JobW(i) == LET s == Split(Seed, i) e == RT(Split(s, 5), 1 + Pick(s, 6, 4), GT) IN
  [id |-> i, stack |-> 2, cmds |-> [k \in 1..4 |-> LET t == Text(e, Split(s, 30 + k)) IN P(t) @@ [e |-> e]]]

(* lexemes: everything that can appear in a formula, and some that cannot *)
Lex0 == <<"x", "y", "2", "3.5", ".5", "1e5", "2e", "2E-", "1_0", "1..2", "(", ")", "(", ")", "(", ")", "+", "-", "*", "/", "^", "**", ",", " ", "  ", "\t", "e", "pi", Uni(960), "sin", "cos(", "sin(", "log(", "atan2(",
          "f", "f(", "h(", "foo(", "ab", "alpha", "exa", "xsin(", "abx", "xy", "foox", "exp(", "ln(", "2exp(", "_", "__a", "x_1", "spherical_harmonic(", "ynm(", "asinh(", "e3", "E", "polygamma(", "beta(x,", "sqrt", "sen(",
          "x)", "(x", "x,", "-x", "+2", "x^2", "/y", "*3", "x+", "y*">>
Odd == <<"!", "=", "#", "$", "%", "&", "@", ";", ":", "[", "]", "{", "}", "<", ">", "?", "'", "|", "~", "`", "\\", "\"", Uni(952), Uni(945), Uni(233), Uni(178), Uni(8321), Uni(160), Uni(8706), Uni(8734), Uni(8730), Uni(183), Uni(215),
         Uni(8722), Uni(65288), Uni(65289), Uni(12354), Uni(128512), Uni(768), Uni(0), Uni(7), Uni(11), Uni(127), Uni(8203), Uni(65279), Uni(1632)>>
Ders == LET d == Uni(8706) IN <<d \o "_f(x)/" \o d \o "_x", d \o "^2_f(x)/" \o d \o "_x^2", d \o "^2_h(x, y)/" \o d \o "_y^2", d \o "_(x^2)/" \o d \o "_x", d \o "_f(x)/" \o d \o "_x^2", d \o "^2_f(x)/" \o d \o "_x",
         d \o "_f(x,)/" \o d \o "_x", d \o "_f(x/" \o d \o "_x", d \o "_f/" \o d \o "_x", d \o "_/" \o d \o "_x", d \o "_f(x)/" \o d, d \o "f(x)/" \o d \o "x", d \o "^_f(x)/" \o d \o "_x", d \o "^101_f(x)/" \o d \o "_x^101", d \o "_f(2x+y)/" \o d \o "_x",
         d \o "_f(" \o d \o "_f(x)/" \o d \o "_x)/" \o d \o "_x", d \o "_(x,y)/" \o d \o "_x", d \o "_f(x)/" \o d \o "_", d \o "^99999999999_f(x)/" \o d \o "_x^99999999999", d, d \o "_", d \o "_f(((x)))/" \o d \o "_x", d \o "_f(+)/" \o d \o "_x"
         >>
Lexeme(s) == CASE Pick(s, 730, 30) = 0 -> PickFrom(s, 731, Odd) [] Pick(s, 730, 30) = 1 -> PickFrom(s, 732, Ders) [] OTHER -> PickFrom(s, 733, Lex0)
Soup(s) == LET n == 1 + Pick(s, 734, 9) IN Join([i \in 1..n |-> Lexeme(Split(s, i))])
\* a well-formed text with one character changed, removed or doubled
Damage(t, s) == LET q == Chars(t) IN IF q = <<>> THEN t ELSE LET k == 1 + Pick(s, 740, Len(q)) IN
  Join(CASE Pick(s, 741, 5) = 0 -> SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
         [] Pick(s, 741, 5) = 1 -> SubSeq(q, 1, k) \o SubSeq(q, k, Len(q))
         [] Pick(s, 741, 5) = 2 -> SubSeq(q, 1, k - 1) \o Chars(Lexeme(s)) \o SubSeq(q, k + 1, Len(q))
         [] Pick(s, 741, 5) = 3 -> SubSeq(q, 1, k) \o Chars(Lexeme(s)) \o SubSeq(q, k + 1, Len(q))
         [] OTHER -> SubSeq(q, 1, k))
KnownSets == <<<<>>, <<"x", "y">>, <<"ab", "a">>, <<"xy", "x">>, <<"sin">>, <<"f", "x">>, <<"alpha", "al">>, <<"exp", "ex">>, <<"foox">>>>
FnSets == <<<<>>, <<"f", "h", "foo">>, <<"sin", "g">>, <<"x">>, <<"alpha">>>>
JobS(i) == LET s == Split(Seed, i) IN
  [id |-> i, stack |-> 2, cmds |-> [k \in 1..10 |-> LET u == Split(s, k) IN
     [c |-> "parse", s |-> IF Pick(u, 750, 4) = 0 THEN Damage(Text(RT(Split(u, 5), 1 + Pick(u, 6, 3), GT), u), u) ELSE Soup(u),
      known |-> PickFrom(u, 751, KnownSets), fns |-> PickFrom(u, 752, FnSets), ref |-> TRUE]]]

RECURSIVE Rep(_, _)
Rep(t, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN t ELSE LET h == Rep(t, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN t ELSE "")
Shapes == <<<<"(", "x", ")">>, <<"-", "x", "">>, <<"x^", "x", "">>, <<"sin(", "x", ")">>, <<"2*(x+", "x", ")">>, <<"(", "", "">>, <<"", "", ")">>, <<"x^-", "x", "">>, <<"x/", "x", "">>, <<"x*", "x", "">>, <<"x+", "x", "">>,
           <<"f(", "x", ")">>, <<"h(x,", "x", ")">>, <<"x ", "", "">>, <<"x", "", "">>, <<"1", "", "">>, <<"1e", "5", "">>, <<"xsin(", "", "">>, <<",", "", "">>, <<"+", "x", "">>, <<"1/(1+", "x", ")">>, <<"(x+1)", "", "">>, <<"x-(", "y", ")">>,
           <<Uni(8706) \o "_f(", "x", ")/" \o Uni(8706) \o "_x">>, <<Uni(8706) \o "_(", "x", ")/" \o Uni(8706) \o "_x">>, <<"_", "", "">>, <<".", "", "">>, <<Uni(952), "", "">>, <<"ab", "", "">>, <<"2(", "x", ")">>, <<"x**", "2", "">>, <<"e^(", "x", ")">>, <<"atan2(x,y)+", "1", "">>>>
Lens == IF IOEnv.TIER = "quick" THEN <<50, 290, 410, 1000, 20000>> ELSE <<10, 100, 299, 399, 400, 401, 1000, 5000, 60000>>
JobsD == FlattenSeq([i \in 1..Len(Shapes) |-> [k \in 1..Len(Lens) |->
           LET h == Shapes[i] n == Lens[k] m == IF n > 3000 /\ h[1] \in {"x", "ab", "x ", "x*", Uni(952), "(x+1)"} THEN 3000 ELSE n IN
           [id |-> 0, stack |-> 2, cmds |-> <<[c |-> "parse", s |-> Rep(h[1], m) \o h[2] \o Rep(h[3], m), known |-> <<"x", "a">>, fns |-> <<"f">>, deep |-> n, notree |-> TRUE, to |-> 0]>>]]])
\* the one documented exception: one-argument log is read
JobLog == [id |-> 0, cmds |-> <<[c |-> "parse", s |-> "log(x)", known |-> <<"x">>, fns |-> <<>>, exp |-> "err"]>>]

All == CASE IOEnv.MODE = "write" -> [i \in 1..N0 |-> JobW(i)]
         [] IOEnv.MODE = "soup" -> [i \in 1..N0 |-> JobS(i)]
         [] OTHER -> Append(JobsD, JobLog)
VARIABLE written
Init == written = N0 /\ ndJsonSerialize(IOEnv.OUT, All)
Next == FALSE /\ written' = written
=============================================================================
