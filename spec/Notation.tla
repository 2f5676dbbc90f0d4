------------------------------ MODULE Notation -------------------------------
(***************************************************************************)
(* Reading the LaTeX and Unicode forms with the conventions of those       *)
(* notations.  ReadLatex(s) and ReadUnicode(s, known, fns) give            *)
(*   [k |-> "e", e |-> expression]  or  [k |-> "err"]                      *)
(* Symbols come out under the glyph they are written with; LatexGlyphs and *)
(* UniGlyphs rename an expression's symbols the same way.                  *)
(***************************************************************************)
EXTENDS Expr
Syn == INSTANCE Syntax

GreekPairs == <<<<"alpha", 945>>, <<"beta", 946>>, <<"gamma", 947>>, <<"delta", 948>>, <<"epsilon", 949>>, <<"zeta", 950>>, <<"eta", 951>>, <<"theta", 952>>,
  <<"iota", 953>>, <<"kappa", 954>>, <<"lambda", 955>>, <<"mu", 956>>, <<"nu", 957>>, <<"xi", 958>>, <<"omicron", 959>>, <<"rho", 961>>, <<"sigma", 963>>, <<"tau", 964>>,
  <<"upsilon", 965>>, <<"phi", 966>>, <<"chi", 967>>, <<"psi", 968>>, <<"omega", 969>>, <<"varepsilon", 949>>, <<"vartheta", 977>>, <<"varphi", 966>>, <<"varrho", 961>>, <<"varsigma", 962>>>>
Greek == {GreekPairs[i][1] : i \in 1..Len(GreekPairs)}
GlyphOf(n) == Uni(GreekPairs[CHOOSE i \in 1..Len(GreekPairs) : GreekPairs[i][1] = n][2])
UniName(n) == IF n \in Greek THEN GlyphOf(n) ELSE n
LatexName(n) == IF n \in Greek THEN "\\" \o n ELSE n
Written(notation, n) == IF notation = "latex" THEN LatexName(n) ELSE UniName(n)
RECURSIVE Rename(_, _)
Rename(e, Nm) ==
  CASE Op(e) = "n" -> e
    [] Op(e) = "s" -> <<"s", Written(Nm, e[2])>>
    [] Op(e) = "f" -> <<"f", e[2], [i \in 1..Len(e[3]) |-> Rename(e[3][i], Nm)]>>
    [] Op(e) \in {"+", "*"} -> <<Op(e), [i \in 1..Len(e[2]) |-> Rename(e[2][i], Nm)]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Rename(e[2], Nm), Rename(e[3], Nm)>>
    [] Op(e) = "neg" -> <<"neg", Rename(e[2], Nm)>>
    [] Op(e) = "d" -> <<"d", Rename(e[2], Nm), Written(Nm, e[3]), e[4]>>

(***************************************************************************)
(* Unicode: minus sign, middle dot, superscripts and the partial           *)
(* derivative are rewritten to the input language, which then reads it.    *)
(***************************************************************************)
MinusC == Uni(8722)
DotC == Uni(183)
DelC == Uni(8706)
Sups == <<8304, 185, 178, 179, 8308, 8309, 8310, 8311, 8312, 8313>>
SupOf == [c \in {Uni(Sups[i]) : i \in 1..10} \cup {Uni(8315)} |-> IF c = Uni(8315) THEN "-" ELSE ToString((CHOOSE i \in 1..10 : Uni(Sups[i]) = c) - 1)]
IsSup(c) == c \in DOMAIN SupOf
RECURSIVE SupEnd(_, _)
SupEnd(q, i) == IF i <= Len(q) /\ IsSup(q[i]) THEN SupEnd(q, i + 1) ELSE i
RECURSIVE NmEnd(_, _)
NmEnd(q, i) == IF i <= Len(q) /\ ~IsSup(q[i]) /\ Syn!IsCont(q[i]) THEN NmEnd(q, i + 1) ELSE i
SupText(q, i, j) == Join([k \in 1..(j - i) |-> SupOf[q[i + k - 1]]])
RECURSIVE Plain(_, _, _)
Plain(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE IF q[i] = DelC THEN
       (IF i > 1 /\ q[i - 1] = "/"
        THEN LET j == NmEnd(q, i + 1) k == SupEnd(q, j) IN
             Plain(q, k, acc \o DelC \o "_" \o Join(SubSeq(q, i + 1, j - 1)) \o (IF k > j THEN "^" \o SupText(q, j, k) ELSE ""))
        ELSE LET k == SupEnd(q, i + 1) IN Plain(q, k, acc \o DelC \o (IF k > i + 1 THEN "^" \o SupText(q, i + 1, k) ELSE "") \o "_"))
  ELSE IF IsSup(q[i]) THEN LET k == SupEnd(q, i) IN Plain(q, k, acc \o "^(" \o SupText(q, i, k) \o ")")
  ELSE Plain(q, i + 1, acc \o (IF q[i] = MinusC THEN "-" ELSE IF q[i] = DotC THEN "*" ELSE q[i]))
ReadUnicode(s, known, fns) == Syn!Read(Plain(Chars(s), 1, ""), known, fns)

(***************************************************************************)
(* LaTeX.  Tokens: <<"cmd", name>>, <<"num", text>>, <<"id", name>>,       *)
(* <<"word", text>> (\text, \operatorname, \mathrm), <<"l", delimiter>>,   *)
(* <<"r", delimiter>> (\left, \right) and <<character>>.                   *)
(***************************************************************************)
At(q, i) == IF i >= 1 /\ i <= Len(q) THEN q[i] ELSE ""
RECURSIVE AlphaEnd(_, _)
AlphaEnd(q, i) == IF i <= Len(q) /\ CharClass(q[i]) = "alpha" THEN AlphaEnd(q, i + 1) ELSE i
RECURSIVE NumTo(_, _)
NumTo(q, i) == IF i <= Len(q) /\ (Syn!IsDigit(q[i]) \/ q[i] = ".") THEN NumTo(q, i + 1) ELSE i
RECURSIVE BraceEnd(_, _)
BraceEnd(q, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = "}" THEN i ELSE BraceEnd(q, i + 1)
RECURSIVE Unescape(_, _)
Unescape(q, i) == IF i > Len(q) THEN "" ELSE IF q[i] = "\\" THEN Unescape(q, i + 1) ELSE q[i] \o Unescape(q, i + 1)
RECURSIVE Lex(_, _, _)
Lex(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET c == q[i] IN
  IF c = " " THEN Lex(q, i + 1, acc)
  ELSE IF c = "\\" THEN
       LET j == AlphaEnd(q, i + 1) w == Join(SubSeq(q, i + 1, j - 1)) IN
       IF w \in {"left", "right"} THEN Lex(q, j + 1, Append(acc, <<IF w = "left" THEN "l" ELSE "r", At(q, j)>>))
       ELSE IF w \in {"text", "operatorname", "mathrm"} /\ At(q, j) = "{" /\ BraceEnd(q, j) # 0
            THEN Lex(q, BraceEnd(q, j) + 1, Append(acc, <<"word", Unescape(SubSeq(q, j + 1, BraceEnd(q, j) - 1), 1)>>))
       ELSE Lex(q, IF j = i + 1 THEN j + 1 ELSE j, Append(acc, <<"cmd", w>>))
  ELSE IF Syn!IsDigit(c) THEN LET j == NumTo(q, i) IN Lex(q, j, Append(acc, <<"num", Join(SubSeq(q, i, j - 1))>>))
  ELSE IF CharClass(c) = "alpha" THEN LET j == Syn!NameEnd(q, i)
            \* the index of a special function is not part of a name
            k == IF At(q, i + 1) = "_" /\ At(q, i + 2) = "{" THEN i + 1 ELSE j
       IN Lex(q, k, Append(acc, <<"id", Join(SubSeq(q, i, k - 1))>>))
  ELSE Lex(q, i + 1, Append(acc, <<c>>))

Fail == <<>>
Is(T, i, t) == i <= Len(T) /\ T[i] = t
IsCmd(T, i, w) == Is(T, i, <<"cmd", w>>)
WordFn == [sech |-> "sech", csch |-> "csch", arsinh |-> "asinh", arcosh |-> "acosh", artanh |-> "atanh", arcoth |-> "acoth", arsech |-> "asech", arcsch |-> "acsch", sgn |-> "signum"]
CmdFn == [sin |-> "sin", cos |-> "cos", tan |-> "tan", cot |-> "cot", sec |-> "sec", csc |-> "csc", sinh |-> "sinh", cosh |-> "cosh", tanh |-> "tanh", coth |-> "coth",
          ln |-> "ln", exp |-> "exp", Gamma |-> "gamma", arcsin |-> "asin", arccos |-> "acos", arctan |-> "atan"]
IdxFn == [J |-> "besselj", Y |-> "bessely", I |-> "besseli", K |-> "besselk", H |-> "hermite"]
RECURSIVE LSum(_, _)
RECURSIVE LSums(_, _)
RECURSIVE LTerm(_, _)
RECURSIVE LTerms(_, _)
RECURSIVE LUnary(_, _)
RECURSIVE LPower(_, _)
RECURSIVE LAtom(_, _)
RECURSIVE LArgs(_, _, _)
\* X between braces at i
Braced(T, i) == IF ~Is(T, i, <<"{">>) THEN Fail ELSE LET r == LSum(T, i + 1) IN IF r = Fail \/ (r # Fail /\ ~Is(T, r[2], <<"}">>)) THEN Fail ELSE <<r[1], r[2] + 1>>
Delim(T, i, close) == LET r == LSum(T, i) IN IF r = Fail \/ (r # Fail /\ ~Is(T, r[2], close)) THEN Fail ELSE <<r[1], r[2] + 1>>
\* the arguments in \left( ... \right) at i: <<sequence, position after>>
LCall(T, i) == IF ~Is(T, i, <<"l", "(">>) THEN Fail ELSE IF Is(T, i + 1, <<"r", ")">>) THEN <<<<>>, i + 2>> ELSE LArgs(T, i + 1, <<>>)
LArgs(T, i, acc) == LET a == LSum(T, i) IN
  IF a = Fail THEN Fail
  ELSE IF Is(T, a[2], <<",">>) THEN LArgs(T, a[2] + 1, Append(acc, a[1]))
  ELSE IF Is(T, a[2], <<"r", ")">>) THEN <<Append(acc, a[1]), a[2] + 1>> ELSE Fail
\* function f with leading arguments pre, applied to what stands at i
Applied(f, pre, T, i) == LET r == LCall(T, i) IN IF r = Fail THEN Fail ELSE <<Fn(f, pre \o r[1]), r[2]>>
LSum(T, i) == LET l == LTerm(T, i) IN IF l = Fail THEN Fail ELSE LSums(T, l)
LSums(T, l) == IF ~(Is(T, l[2], <<"+">>) \/ Is(T, l[2], <<"-">>)) THEN l
  ELSE LET r == LTerm(T, l[2] + 1) IN IF r = Fail THEN Fail ELSE LSums(T, <<IF T[l[2]] = <<"+">> THEN Add(l[1], r[1]) ELSE Sub(l[1], r[1]), r[2]>>)
LTerm(T, i) == LET l == LUnary(T, i) IN IF l = Fail THEN Fail ELSE LTerms(T, l)
LTerms(T, l) == IF ~IsCmd(T, l[2], "cdot") THEN l
  ELSE LET r == LUnary(T, l[2] + 1) IN IF r = Fail THEN Fail ELSE LTerms(T, <<Mul(l[1], r[1]), r[2]>>)
LUnary(T, i) == IF Is(T, i, <<"-">>) THEN LET r == LUnary(T, i + 1) IN IF r = Fail THEN Fail ELSE <<Neg(r[1]), r[2]>> ELSE LPower(T, i)
LPower(T, i) == LET b == LAtom(T, i) IN
  IF b = Fail \/ ~Is(T, b[2], <<"^">>) THEN b
  ELSE LET x == Braced(T, b[2] + 1) IN
       \* a second exponent on the same base is an error in LaTeX
       IF x = Fail \/ (x # Fail /\ Is(T, x[2], <<"^">>)) THEN Fail ELSE <<Pow(b[1], x[1]), x[2]>>
\* \frac{\partial^n f}{\partial x^n}, T[i] the command
LDer(T, i) ==
  LET n1 == Is(T, i + 3, <<"^">>)
      f == IF n1 THEN (IF i + 5 <= Len(T) /\ T[i + 5][1] = "num" /\ Is(T, i + 6, <<"}">>) THEN LAtom(T, i + 7) ELSE Fail) ELSE LAtom(T, i + 3)
  IN IF f = Fail \/ (f # Fail /\ ~(Is(T, f[2], <<"}">>) /\ Is(T, f[2] + 1, <<"{">>) /\ IsCmd(T, f[2] + 2, "partial"))) THEN Fail
     ELSE LET v == f[2] + 3
              x == IF v > Len(T) THEN "" ELSE IF T[v][1] = "id" THEN T[v][2] ELSE IF T[v][1] = "cmd" THEN "\\" \o T[v][2] ELSE ""
          IN IF x = "" THEN Fail
             ELSE IF n1 THEN (IF Is(T, v + 1, <<"^">>) /\ Is(T, v + 2, <<"{">>) /\ Is(T, v + 3, T[i + 5]) /\ Is(T, v + 4, <<"}">>) /\ Is(T, v + 5, <<"}">>)
                              THEN <<Der(f[1], x, RIntOf(RLit(T[i + 5][2]), 0)), v + 6>> ELSE Fail)
             ELSE IF Is(T, v + 1, <<"}">>) THEN <<Der(f[1], x, 1), v + 2>> ELSE Fail
LAtom(T, i) ==
  IF i > Len(T) THEN Fail ELSE
  LET t == T[i] IN
  CASE t[1] = "num" -> <<Num(t[2]), i + 1>>
    [] t[1] = "l" /\ t[2] = "(" -> Delim(T, i + 1, <<"r", ")">>)
    [] t[1] = "l" /\ t[2] = "|" -> LET r == Delim(T, i + 1, <<"r", "|">>) IN IF r = Fail THEN Fail ELSE <<Fn1("abs", r[1]), r[2]>>
    [] t[1] = "word" -> IF t[2] = "B" THEN Applied("beta", <<>>, T, i + 1)
                        ELSE Applied(IF t[2] \in DOMAIN WordFn THEN WordFn[t[2]] ELSE t[2], <<>>, T, i + 1)
    [] t[1] = "id" ->
         (IF t[2] \in DOMAIN IdxFn \cup {"P"} /\ Is(T, i + 1, <<"_">>) THEN
            LET n == Braced(T, i + 2) IN
            IF n = Fail THEN Fail
            ELSE IF Is(T, n[2], <<"^">>) THEN
                 LET m == Braced(T, n[2] + 1) IN
                 IF m = Fail \/ t[2] \notin {"P", "Y"} THEN Fail ELSE Applied(IF t[2] = "P" THEN "assoc_legendre" ELSE "spherical_harmonic", <<n[1], m[1]>>, T, m[2])
            ELSE IF t[2] = "P" THEN Fail ELSE Applied(IdxFn[t[2]], <<n[1]>>, T, n[2])
          ELSE IF t[2] \in {"K", "E", "W"} /\ Is(T, i + 1, <<"l", "(">>) THEN
            Applied(IF t[2] = "K" THEN "elliptic_k" ELSE IF t[2] = "E" THEN "elliptic_e" ELSE "lambertw", <<>>, T, i + 1)
          ELSE <<Sym(t[2]), i + 1>>)
    [] t[1] = "cmd" ->
         (LET w == t[2] IN
          IF w = "frac" THEN
            (IF Is(T, i + 1, <<"{">>) /\ IsCmd(T, i + 2, "partial") THEN LDer(T, i)
             ELSE LET a == Braced(T, i + 1) IN IF a = Fail THEN Fail ELSE LET b == Braced(T, a[2]) IN IF b = Fail THEN Fail ELSE <<Div(a[1], b[1]), b[2]>>)
          ELSE IF w = "sqrt" THEN
            (IF Is(T, i + 1, <<"[">>) THEN (IF Is(T, i + 2, <<"num", "3">>) /\ Is(T, i + 3, <<"]">>) THEN LET a == Braced(T, i + 4) IN IF a = Fail THEN Fail ELSE <<Fn1("cbrt", a[1]), a[2]>> ELSE Fail)
             ELSE LET a == Braced(T, i + 1) IN IF a = Fail THEN Fail ELSE <<Fn1("sqrt", a[1]), a[2]>>)
          ELSE IF w \in {"lfloor", "lceil"} THEN
            LET r == Delim(T, i + 1, <<"cmd", IF w = "lfloor" THEN "rfloor" ELSE "rceil">>) IN IF r = Fail THEN Fail ELSE <<Fn1(IF w = "lfloor" THEN "floor" ELSE "ceil", r[1]), r[2]>>
          ELSE IF w = "log" THEN
            (IF Is(T, i + 1, <<"_">>) THEN
               (IF Is(T, i + 2, <<"num", "2">>) THEN Applied("log2", <<>>, T, i + 3)
                ELSE LET b == Braced(T, i + 2) IN IF b = Fail THEN Fail ELSE Applied("log", <<b[1]>>, T, b[2]))
             ELSE Applied("log10", <<>>, T, i + 1))
          ELSE IF w = "psi" /\ Is(T, i + 1, <<"_">>) THEN
            (IF Is(T, i + 2, <<"num", "1">>) THEN Applied("trigamma", <<>>, T, i + 3) ELSE IF Is(T, i + 2, <<"num", "2">>) THEN Applied("tetragamma", <<>>, T, i + 3) ELSE Fail)
          ELSE IF w \in {"psi", "zeta"} /\ Is(T, i + 1, <<"^">>) /\ Is(T, i + 2, <<"{">>) /\ Is(T, i + 3, <<"(">>) THEN
            LET n == Delim(T, i + 4, <<")">>) IN IF n = Fail \/ (n # Fail /\ ~Is(T, n[2], <<"}">>)) THEN Fail ELSE Applied(IF w = "psi" THEN "polygamma" ELSE "zeta_deriv", <<n[1]>>, T, n[2] + 1)
          ELSE IF w \in {"psi", "zeta"} /\ Is(T, i + 1, <<"l", "(">>) THEN Applied(IF w = "psi" THEN "digamma" ELSE "zeta", <<>>, T, i + 1)
          ELSE IF w \in DOMAIN CmdFn THEN Applied(CmdFn[w], <<>>, T, i + 1)
          ELSE IF w = "pi" THEN <<Sym("pi"), i + 1>>
          ELSE IF w \in Greek THEN <<Sym("\\" \o w), i + 1>> ELSE Fail)
    [] OTHER -> Fail
ReadLatex(s) == LET T == Lex(Chars(s), 1, <<>>) r == LSum(T, 1) IN IF r = Fail \/ (r # Fail /\ r[2] <= Len(T)) THEN [k |-> "err"] ELSE [k |-> "e", e |-> r[1]]

(***************************************************************************)
(* A reading is compared with the expression under an interpretation that  *)
(* distinguishes every function name and every argument position: each     *)
(* name is a polynomial of its arguments with its own coefficients.        *)
(***************************************************************************)
Formal == <<"#1", "#2", "#3", "#4">>
Coef3(f, i) == ToString(1 + (HashS(f \o ToString(i)) % 13))
AbsFn(f, n) == [ps |-> SubSeq(Formal, 1, n),
  body |-> Sum([i \in 1..n |-> LET a == Sym(Formal[i]) IN Add(Mul(Num(Coef3(f, i)), a), Mul(Div(Num(Coef3(f, i + 10)), Num("7")), Mul(a, Mul(a, a))))] \o <<Num(Coef3(f, 20))>>)]
Kept == {"exp", "abs", "sin", "cos"}
\* derivative notation as a function named after its variable and order
RECURSIVE Flat(_)
Flat(e) ==
  CASE Op(e) \in {"n", "s"} -> e
    [] Op(e) = "f" -> <<"f", e[2], [i \in 1..Len(e[3]) |-> Flat(e[3][i])]>>
    [] Op(e) \in {"+", "*"} -> <<Op(e), [i \in 1..Len(e[2]) |-> Flat(e[2][i])]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Flat(e[2]), Flat(e[3])>>
    [] Op(e) = "neg" -> <<"neg", Flat(e[2])>>
    [] Op(e) = "d" -> Fn1("d/d" \o e[3] \o "^" \o ToString(e[4]), Flat(e[2]))
RECURSIVE AritiesIn(_)
AritiesIn(e) == (IF Op(e) = "f" THEN {<<e[2], Len(e[3])>>} ELSE {}) \cup UNION {AritiesIn(k) : k \in Range1(Kids(e))}
N1(f) == IF f = "ynm" THEN "spherical_harmonic" ELSE f
\* the functions of the reading r are those of a
SameFns(a, r) == {<<N1(q[1]), q[2]>> : q \in AritiesIn(r)} \subseteq {<<N1(q[1]), q[2]>> : q \in AritiesIn(a)} \cup {<<k, 1>> : k \in Kept}
\* an interpretation of all the functions of e
AbsFns(e) ==
  LET A == AritiesIn(e)
      S == {a[1] : a \in A} \ Kept
      T == S \cup {N1(f) : f \in S}
  IN TLCEval([f \in T |-> AbsFn(N1(f), (CHOOSE a \in A : N1(a[1]) = N1(f))[2])])
=============================================================================
