------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The input language: from a text to the expression it denotes.           *)
(*   Read(s, known, fns) = [k |-> "e", e |-> expression]   well-formed     *)
(*                         [k |-> "err"]                   not in the      *)
(*                                                         language        *)
(*                         [k |-> "any"]                   left open       *)
(* known: declared symbols; fns: declared functions.                       *)
(*                                                                         *)
(*   text    ->  balanced text  ->  characters  ->  raw tokens             *)
(*           ->  tokens (names resolved)  ->  tokens with explicit "*"     *)
(*           ->  tree, by this grammar:                                    *)
(*     Sum   = Term { ("+" | "-") Term }                                   *)
(*     Term  = Unary { ("*" | "/") Unary }                                 *)
(*     Unary = ("+" | "-") Unary | Power                                   *)
(*     Power = Atom [ ("^" | "**") Unary ]                                 *)
(*     Atom  = number | name | "(" Sum ")" | function "(" [Sum {"," Sum}] ")" *)
(*           | derivative                                                  *)
(***************************************************************************)
EXTENDS Expr

PiC == Uni(960)
DelC == Uni(8706)
IsStart(c) == c = "_" \/ CharClass(c) = "alpha"
IsCont(c) == c = "_" \/ CharClass(c) \in {"alpha", "digit", "num"}
IsDigit(c) == CharClass(c) = "digit"
IsBlank(c) == CharClass(c) = "blank"
At(q, i) == IF i >= 1 /\ i <= Len(q) THEN q[i] ELSE ""
From(q, i) == SubSeq(q, i, Len(q))

(***************************************************************************)
(* Missing closing parentheses are supplied at the end, missing opening    *)
(* ones at the beginning.                                                  *)
(***************************************************************************)
RECURSIVE Count(_, _, _)
Count(q, c, i) == IF i > Len(q) THEN 0 ELSE (IF q[i] = c THEN 1 ELSE 0) + Count(q, c, i + 1)
RECURSIVE Dips(_, _, _)
Dips(q, i, d) == i <= Len(q) /\ (LET n == d + (IF q[i] = "(" THEN 1 ELSE IF q[i] = ")" THEN -1 ELSE 0) IN n < 0 \/ Dips(q, i + 1, n))
Balance(q) ==
  LET o == Count(q, "(", 1) c == Count(q, ")", 1) IN
  IF o > c THEN q \o [i \in 1..(o - c) |-> ")"]
  ELSE IF o < c THEN [i \in 1..(c - o) |-> "("] \o q
  ELSE IF Dips(q, 1, 0) THEN <<"(">> \o q \o <<")">> ELSE q

(***************************************************************************)
(* Raw tokens: <<"num", literal>>, <<"seq", letters>>, <<"op", c>>,        *)
(* <<"(">>, <<")">>, <<",">>, <<"der", [...]>>.  <<"bad">> ends a text     *)
(* that is not lexical.                                                    *)
(***************************************************************************)
\* position after the number that starts at i
RECURSIVE NumEnd(_, _, _)
NumEnd(q, i, ex) ==
  LET c == At(q, i) IN
  IF c = "" THEN i
  ELSE IF IsDigit(c) \/ c \in {".", "_"} THEN NumEnd(q, i + 1, ex)
  ELSE IF c \in {"e", "E"} /\ ~ex THEN
       (IF At(q, i + 1) # "" /\ IsDigit(At(q, i + 1)) THEN NumEnd(q, i + 2, TRUE)
        ELSE IF At(q, i + 1) \in {"+", "-"} /\ At(q, i + 2) # "" /\ IsDigit(At(q, i + 2)) THEN NumEnd(q, i + 3, TRUE) ELSE i)
  ELSE i
RECURSIVE Without(_, _, _)
Without(q, c, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i] = c THEN <<>> ELSE <<q[i]>>) \o Without(q, c, i + 1)
ExpAt(q) == LET S == {i \in 1..Len(q) : q[i] \in {"e", "E"}} IN IF S = {} THEN Len(q) + 1 ELSE CHOOSE i \in S : TRUE
NumOk(q) == LET x == ExpAt(q) dots == {i \in 1..Len(q) : q[i] = "."} IN
  /\ dots \subseteq 1..(x - 1)
  /\ \A i \in dots, j \in dots : i = j
  /\ \E i \in 1..(x - 1) : IsDigit(q[i])
RECURSIVE NameEnd(_, _)
NameEnd(q, i) == IF i <= Len(q) /\ IsCont(q[i]) THEN NameEnd(q, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(q, i) == IF i <= Len(q) /\ IsDigit(q[i]) THEN DigitsEnd(q, i + 1) ELSE i
RECURSIVE CloseAt(_, _, _)     \* position of the parenthesis that closes depth d, 0 if none
CloseAt(q, i, d) == IF i > Len(q) THEN 0
  ELSE LET n == d + (IF q[i] = "(" THEN 1 ELSE IF q[i] = ")" THEN -1 ELSE 0) IN IF n = 0 THEN i ELSE CloseAt(q, i + 1, n)
RECURSIVE ToInt(_, _, _)
ToInt(q, i, acc) == IF i > Len(q) THEN acc ELSE IF acc > 1000 THEN acc ELSE ToInt(q, i + 1, (10 * acc) + RIntOf(RLit(q[i]), 0))

\* an optional "^digits" at i: <<written, value, position after>>; position 0 when malformed
OrderAt(q, i) == IF At(q, i) # "^" THEN <<FALSE, 1, i>>
  ELSE LET j == DigitsEnd(q, i + 1) IN IF j = i + 1 THEN <<FALSE, 1, 0>> ELSE <<TRUE, ToInt(SubSeq(q, i + 1, j - 1), 1, 0), j>>
\* derivative notation at i (q[i] is the partial sign)
NoDer == [len |-> 0]
DerAt(q, i) ==
  LET lo == OrderAt(q, i + 1) IN
  IF lo[3] = 0 \/ At(q, lo[3]) # "_" THEN NoDer
  ELSE LET f0 == lo[3] + 1
           f1 == NameEnd(q, f0)
           par == At(q, f1) = "("
           cl == IF par THEN CloseAt(q, f1, 0) ELSE f1 - 1
       IN IF cl = 0 \/ (f1 = f0 /\ ~par) THEN NoDer
          ELSE LET d == cl + 1 IN
               IF At(q, d) # "/" \/ At(q, d + 1) # DelC \/ At(q, d + 2) # "_" THEN NoDer
               ELSE LET v0 == d + 3
                        v1 == NameEnd(q, v0)
                        ro == OrderAt(q, v1)
                    IN IF v1 = v0 \/ ro[3] = 0 THEN NoDer
                       ELSE [len |-> ro[3] - i, order |-> lo[2], okOrder |-> lo[2] <= 100 /\ (lo[2] = ro[2] \/ (lo[1] /\ ~ro[1])),
                             f |-> Join(SubSeq(q, f0, f1 - 1)), args |-> IF par THEN SubSeq(q, f1 + 1, cl - 1) ELSE <<>>,
                             x |-> Join(SubSeq(q, v0, v1 - 1))]
RECURSIVE Raw(_, _, _)
Raw(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET c == q[i] IN
       CASE IsBlank(c) -> Raw(q, i + 1, acc)
         [] c \in {"(", ")", ","} -> Raw(q, i + 1, Append(acc, <<c>>))
         [] c \in {"+", "-", "/", "^"} -> Raw(q, i + 1, Append(acc, <<"op", c>>))
         [] c = "*" -> IF At(q, i + 1) = "*" THEN Raw(q, i + 2, Append(acc, <<"op", "^">>)) ELSE Raw(q, i + 1, Append(acc, <<"op", "*">>))
         [] IsDigit(c) \/ c = "." -> LET j == NumEnd(q, i, FALSE) t == Without(SubSeq(q, i, j - 1), "_", 1) IN
              IF NumOk(t) THEN Raw(q, j, Append(acc, <<"num", Join(t)>>)) ELSE Append(acc, <<"bad">>)
         [] c = DelC -> LET d == DerAt(q, i) IN
              IF d.len = 0 \/ ~d.okOrder THEN Append(acc, <<"bad">>) ELSE Raw(q, i + d.len, Append(acc, <<"der", d>>))
         [] c = PiC -> Raw(q, i + 1, Append(acc, <<"seq", <<"p", "i">>>>))
         [] IsStart(c) -> LET j == NameEnd(q, i) IN Raw(q, j, Append(acc, <<"seq", SubSeq(q, i, j - 1)>>))
         [] OTHER -> Append(acc, <<"bad">>)

(***************************************************************************)
(* Names.  A run of letters is, in this order: a declared symbol; a        *)
(* constant; a built-in or declared function (before a parenthesis); a     *)
(* name followed by a built-in function; a declared symbol followed by     *)
(* something else; a new symbol.                                           *)
(***************************************************************************)
FnNames == Builtins \cup {"sen"}
Canon(f) == IF f = "sen" THEN "sin" ELSE f
Least(S) == CHOOSE m \in S : \A n \in S : m <= n
RECURSIVE Names(_, _, _, _)
Names(q, known, fns, paren) ==
  LET w == Join(q)
      suf == {k \in 2..Len(q) : Join(From(q, k)) \in FnNames}
      pre == {k \in 1..(Len(q) - 1) : Join(SubSeq(q, 1, k)) \in known}
  IN IF w \in known \/ ConstName(w) # "" THEN <<<<"id", w>>>>
     ELSE IF paren /\ w \in FnNames THEN <<<<"fn", Canon(w)>>>>
     ELSE IF paren /\ w \in fns THEN <<<<"id", w>>>>
     ELSE IF paren /\ suf # {} THEN LET k == Least(suf) IN
          Names(SubSeq(q, 1, k - 1), known, fns, FALSE) \o <<<<"fn", Canon(Join(From(q, k)))>>>>
     ELSE IF pre # {} THEN LET k == Least(pre) IN <<<<"id", Join(SubSeq(q, 1, k))>>>> \o Names(From(q, k + 1), known, fns, FALSE)
     ELSE <<<<"id", w>>>>

(***************************************************************************)
(* Adjacent operands are multiplied.                                       *)
(***************************************************************************)
Adjacent(a, b, fns) ==
  \/ a[1] \in {"num", "id", ")"} /\ b[1] \in {"id", "fn"}
  \/ a[1] \in {"num", ")"} /\ b[1] = "("
  \/ a[1] = "id" /\ b[1] = "(" /\ a[2] \notin fns
  \/ a[1] \in {"id", ")"} /\ b[1] = "num"
RECURSIVE Explicit(_, _, _, _)
Explicit(T, fns, i, acc) ==
  IF i > Len(T) THEN acc
  ELSE Explicit(T, fns, i + 1, acc \o (IF i > 1 /\ Adjacent(T[i - 1], T[i], fns) THEN <<<<"op", "*">>, T[i]>> ELSE <<T[i]>>))
RECURSIVE Resolve(_, _, _, _, _)
Resolve(R, known, fns, i, acc) ==
  IF i > Len(R) THEN acc
  ELSE Resolve(R, known, fns, i + 1,
         acc \o (IF R[i][1] = "seq" THEN Names(R[i][2], known, fns, i < Len(R) /\ R[i + 1][1] = "(") ELSE <<R[i]>>))
Tokens(q, known, fns) == Resolve(Raw(q, 1, <<>>), known, fns, 1, <<>>)

(***************************************************************************)
(* The grammar.  A parse is <<expression, position after>>, or Fail.       *)
(***************************************************************************)
Fail == <<>>
Open == <<"any">>        \* subtree whose meaning is left open
IsOp(T, i, S) == i <= Len(T) /\ T[i][1] = "op" /\ T[i][2] \in S
Is(T, i, c) == i <= Len(T) /\ T[i][1] = c
RECURSIVE PSum(_, _, _)
RECURSIVE PSums(_, _, _)
RECURSIVE PTerm(_, _, _)
RECURSIVE PTerms(_, _, _)
RECURSIVE PUnary(_, _, _)
RECURSIVE PPower(_, _, _)
RECURSIVE PAtom(_, _, _)
RECURSIVE PArgs(_, _, _, _)
RECURSIVE Parsed(_, _, _, _)
PSum(T, i, c) == LET l == PTerm(T, i, c) IN IF l = Fail THEN Fail ELSE PSums(T, l, c)
PSums(T, l, c) ==
  IF ~IsOp(T, l[2], {"+", "-"}) THEN l
  ELSE LET r == PTerm(T, l[2] + 1, c) IN
       IF r = Fail THEN Fail ELSE PSums(T, <<IF T[l[2]][2] = "+" THEN Add(l[1], r[1]) ELSE Sub(l[1], r[1]), r[2]>>, c)
PTerm(T, i, c) == LET l == PUnary(T, i, c) IN IF l = Fail THEN Fail ELSE PTerms(T, l, c)
PTerms(T, l, c) ==
  IF ~IsOp(T, l[2], {"*", "/"}) THEN l
  ELSE LET r == PUnary(T, l[2] + 1, c) IN
       IF r = Fail THEN Fail ELSE PTerms(T, <<IF T[l[2]][2] = "*" THEN Mul(l[1], r[1]) ELSE Div(l[1], r[1]), r[2]>>, c)
PUnary(T, i, c) ==
  IF IsOp(T, i, {"+"}) THEN PUnary(T, i + 1, c)
  ELSE IF IsOp(T, i, {"-"}) THEN LET r == PUnary(T, i + 1, c) IN IF r = Fail THEN Fail ELSE <<Neg(r[1]), r[2]>>
  ELSE PPower(T, i, c)
PPower(T, i, c) ==
  LET b == PAtom(T, i, c) IN
  IF b = Fail \/ ~IsOp(T, b[2], {"^"}) THEN b
  ELSE LET x == PUnary(T, b[2] + 1, c) IN IF x = Fail THEN Fail ELSE <<Pow(b[1], x[1]), x[2]>>
\* arguments from i up to the closing parenthesis: <<sequence, position after it>>
PArgs(T, i, c, acc) ==
  LET a == PSum(T, i, c) IN
  IF a = Fail THEN Fail
  ELSE IF Is(T, a[2], ",") THEN PArgs(T, a[2] + 1, c, Append(acc, a[1]))
  ELSE IF Is(T, a[2], ")") THEN <<Append(acc, a[1]), a[2] + 1>> ELSE Fail
Call(T, i, c) == IF Is(T, i + 1, ")") THEN <<<<>>, i + 2>> ELSE PArgs(T, i + 1, c, <<>>)
PAtom(T, i, c) ==
  IF i > Len(T) THEN Fail
  ELSE LET t == T[i] IN
  CASE t[1] = "num" -> <<Num(t[2]), i + 1>>
    [] t[1] = "id" -> IF ~Is(T, i + 1, "(") THEN <<Sym(t[2]), i + 1>>
                      ELSE LET r == Call(T, i + 1, c) IN IF r = Fail THEN Fail ELSE <<Fn(t[2], r[1]), r[2]>>
    [] t[1] = "fn" -> IF ~Is(T, i + 1, "(") THEN Fail
                      ELSE LET r == Call(T, i + 1, c) IN
                           IF r = Fail \/ (r # Fail /\ Len(r[1]) # Arity(t[2]) /\ ~(t[2] = "log" /\ Len(r[1]) = 1)) THEN Fail
                           ELSE IF Len(r[1]) # Arity(t[2]) THEN <<Open, r[2]>> ELSE <<Fn(t[2], r[1]), r[2]>>
    [] t[1] = "(" -> LET r == PSum(T, i + 1, c) IN IF r = Fail \/ (r # Fail /\ ~Is(T, r[2], ")")) THEN Fail ELSE <<r[1], r[2] + 1>>
    [] t[1] = "der" ->
         LET d == t[2]
             A == Parsed(d.args, c.known, c.fns, TRUE)
         IN IF A = Fail THEN Fail
            ELSE LET as == IF A[1] = <<>> THEN <<Sym(d.x)>> ELSE A[1] IN
                 IF d.f = "" THEN (IF Len(as) = 1 THEN <<Der(as[1], d.x, d.order), i + 1>> ELSE Fail)
                 ELSE IF d.f \in Builtins /\ Len(as) # Arity(d.f) THEN <<Open, i + 1>>
                 ELSE <<Der(Fn(d.f, as), d.x, d.order), i + 1>>
    [] OTHER -> Fail
\* a whole text: <<tree>>, or with list = TRUE <<sequence of trees>> separated by commas (possibly none)
RECURSIVE Whole(_, _, _, _)
Whole(T, i, c, acc) == LET a == PSum(T, i, c) IN
  IF a = Fail THEN Fail ELSE IF a[2] > Len(T) THEN <<Append(acc, a[1])>> ELSE IF Is(T, a[2], ",") THEN Whole(T, a[2] + 1, c, Append(acc, a[1])) ELSE Fail
Parsed(q, known, fns, list) ==
  LET T0 == Tokens(q, known, fns)
      c == [known |-> known, fns |-> fns]
  IN IF \E i \in 1..Len(T0) : T0[i][1] = "bad" THEN Fail
     ELSE LET T == Explicit(T0, fns, 1, <<>>) IN
          IF list THEN (IF T = <<>> THEN <<<<>>>> ELSE Whole(T, 1, c, <<>>))
          ELSE LET r == PSum(T, 1, c) IN IF r = Fail \/ (r # Fail /\ r[2] <= Len(T)) THEN Fail ELSE <<r[1]>>
RECURSIVE HasOpen(_)
HasOpen(e) == Op(e) = "any" \/ (Op(e) # "any" /\ \E k \in Range1(Kids(e)) : HasOpen(k))
Nesting(q) == Count(q, "(", 1) + Count(q, "-", 1) + Count(q, "^", 1) + Count(q, "/", 1)
MaxNesting == 300      \* deeper input may be refused
Read(s, known, fns) ==
  LET q == Balance(Chars(s))
      r == Parsed(q, known, fns, FALSE)
  IN IF Nesting(q) > MaxNesting THEN [k |-> "any"]
     ELSE IF r = Fail THEN [k |-> "err"]
     ELSE IF HasOpen(r[1]) THEN [k |-> "any"] ELSE [k |-> "e", e |-> r[1]]
=============================================================================
