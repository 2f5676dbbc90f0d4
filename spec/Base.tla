------------------------------- MODULE Base ---------------------------------
(***************************************************************************)
(* The state of a session, sample points, and when two expressions denote  *)
(* the same function there.                                                *)
(***************************************************************************)
EXTENDS Expr, FiniteSets, Json, IOUtils
Syn == INSTANCE Syntax
Not == INSTANCE Notation
Rg == INSTANCE Registry

Has(r, k) == k \in DOMAIN r
GetOr(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Emp == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
ToSet(q) == {q[i] : i \in 1..Len(q)}

\* rg: the possible contents of the registry and the contexts (Registry.tla)
\* regs: expressions; evs: compiled evaluators; txt: printed forms; an: anonymous symbols; covs: covariance matrices
St0 == [regs |-> Emp, evs |-> Emp, eqs |-> {}, rg |-> {Rg!Reg0}, txt |-> Emp, an |-> Emp, covs |-> Emp]

(***************************************************************************)
(* Sample points.  Coordinates are dyadic, generic (odd numerators), and a *)
(* fixed function of the point number and the symbol's name.               *)
(***************************************************************************)
PointKinds == <<"pos", "mix", "small", "pos", "msmall", "mix">>
Coord(p, kind, name) ==
  LET h == HashS(name)
      a == Pick((p * 131) + (h % 1000003), 11, 181)
      s == IF Pick((p * 131) + (h % 1000003), 12, 2) = 0 THEN 1 ELSE -1
  IN CASE kind = "pos" -> RRat(2*a + 41, 128)
       [] kind = "mix" -> RRat(s * (2*a + 41), 128)
       [] kind = "small" -> RRat((2*(a % 110)) + 5, 256)
       [] kind = "msmall" -> RRat(s * ((2*(a % 110)) + 5), 256)
EnvAt(p, kind, names) == [n \in names |-> Coord(p, kind, n)]

(* interpretation of the function names that have no built-in meaning *)
A1 == Sym("#1")
A2 == Sym("#2")
Opaque == [f |-> [ps |-> <<"#1">>, body |-> Add(Fn1("sin", A1), Mul(Num("3"), Pow(A1, Num("2"))))],
           g |-> [ps |-> <<"#1">>, body |-> Add(Fn1("exp", Mul(Num("0.5"), A1)), Mul(Num("2"), A1))],
           h |-> [ps |-> <<"#1", "#2">>, body |-> Sum(<<Mul(A1, Fn1("sin", A2)), Pow(A2, Num("2")), Mul(Num("3"), A1)>>)],
           k |-> [ps |-> <<"#1", "#2">>, body |-> Add(Mul(A1, A1), Mul(Num("2"), Mul(A1, A2)))],
           F |-> [ps |-> <<"#1">>, body |-> Sub(Fn1("cos", A1), Mul(Num("2"), A1))]]

MaxJudge == 900     \* larger expressions are not evaluated

TenM12 == RLit("1e-12")
Ten12 == RLit("1e12")
Cfg(fns, env, k) == [env |-> env, fns |-> fns, k |-> k]
NamesOf(e) == {n \in SymsOf(e) : ConstName(n) = ""}
HasSpecial(e) == FnsOf(e) \cap Special # {}

(***************************************************************************)
(* Does expression b denote the same as a?  Returns a set of reasons.      *)
(*   "value"  defined and different;  "undef" a defined, b undefined       *)
(*   "def"    a undefined, b defined                                       *)
(***************************************************************************)
DiffAt(a, b, C1, C2) ==
  LET va == Eval(a, C1) vb == Eval(b, C2) IN
  IF RTag(va) = 0 /\ RTag(vb) = 0 THEN (IF RDisjoint(va, vb) THEN {"value"} ELSE IF RSharp(va) THEN {"ok"} ELSE {})
  ELSE IF RTag(va) = 0 /\ RTag(vb) = 1 THEN {"undef"}
  ELSE IF RTag(va) = 1 /\ RTag(vb) = 0 THEN {"def"}
  ELSE {}
(* one: where the two are compared; Good(e, C) selects the points *)
Compare(a, b, fns, kinds, k, Good(_, _)) ==
  LET na == NamesOf(a) \cup NamesOf(b) IN
  IF Size(a) > MaxJudge \/ Size(b) > MaxJudge THEN {}
  ELSE UNION {LET env == EnvAt(p, kinds[p], na)
                  C0 == Cfg(fns, env, 0)
              IN IF Good(a, C0) THEN DiffAt(a, b, Cfg(fns, env, k), C0) ELSE {} : p \in 1..Len(kinds)}
AllPts(e, C) == TRUE
Sharp(a, fns) == LET kinds == PointKinds IN
  Size(a) <= MaxJudge /\ \E p \in 1..Len(kinds) : RSharp(Eval(a, Cfg(fns, EnvAt(p, kinds[p], NamesOf(a)), 0)))
(* where default simplification must preserve the value: everything under a root, a logarithm or *)
(* in the base of a non-integer power is built from positive parts                                *)
RECURSIVE PosTerm(_, _)
PosTerm(e, C) ==
  CASE Op(e) = "n" -> TRUE
    [] Op(e) = "*" -> \A i \in 1..Len(e[2]) : PosTerm(e[2][i], C)
    [] Op(e) = "neg" -> PosTerm(e[2], C)
    [] Op(e) = "/" -> PosTerm(e[2], C) /\ PosTerm(e[3], C)
    [] Op(e) = "^" -> PosTerm(e[2], C)
    [] Op(e) = "+" -> RCmp(Eval(e, C), Zero) = 1 /\ \A i \in 1..Len(e[2]) : PosTerm(e[2][i], C)
    [] Op(e) = "-" -> RCmp(Eval(e, C), Zero) = 1 /\ PosTerm(e[2], C) /\ PosTerm(e[3], C)
    [] Op(e) = "f" -> RCmp(Eval(e, C), Zero) = 1 /\ \A i \in 1..Len(e[3]) : PosTerm(e[3][i], C)
    [] OTHER -> RCmp(Eval(e, C), Zero) = 1
RECURSIVE PosParts(_, _)
PosParts(e, C) ==
  CASE Op(e) = "*" -> \A i \in 1..Len(e[2]) : PosParts(e[2][i], C)
    [] Op(e) = "/" -> PosParts(e[2], C) /\ PosParts(e[3], C)
    [] Op(e) = "^" -> PosParts(e[2], C)
    [] OTHER -> RCmp(Eval(e, C), Zero) = 1 /\ PosTerm(e, C)
IsIntLit(e) == Op(e) = "n" /\ RIntOf(RLit(e[2]), 100000) # 100000
RECURSIVE PosOk(_, _)
\* inverse trigonometric functions undo their function on the principal branch
TrigFns == {"sin", "cos", "tan", "cot", "sec", "csc"}
Principal(f, a, C) ==
  \/ FnsOf(a) \cap TrigFns = {}
  \/ /\ Op(a) = "f" /\ FnsOf(a[3][1]) \cap TrigFns = {}
     /\ LET u == Eval(a[3][1], C) h == RMul(Half, Pi) IN
        \/ <<f, a[2]>> \in {<<"asin", "sin">>, <<"atan", "tan">>} /\ RCmp(RFun1("abs", u), h) = -1
        \/ <<f, a[2]>> = <<"acos", "cos">> /\ RCmp(u, Zero) = 1 /\ RCmp(u, Pi) = -1
PosOk(e, C) ==
  /\ (Op(e) = "^" /\ ~IsIntLit(e[3])) => PosParts(e[2], C)
  /\ (Op(e) = "f" /\ e[2] \in {"sqrt", "cbrt", "ln", "log10", "log2", "log"}) => \A i \in 1..Len(e[3]) : PosParts(e[3][i], C)
  /\ (Op(e) = "f" /\ e[2] \in {"asin", "acos", "atan", "acot", "asec", "acsc"}) => Principal(e[2], e[3][1], C)
  /\ \A k \in Range1(Kids(e)) : PosOk(k, C)
(* the library treats constants closer than 1e-14 as equal: expressions whose constants come near *)
(* that scale are outside of what is compared                                                     *)
Tiny(w) == LET v == RFun1("abs", w) IN RTag(v) = 0 /\ ((RCmp(v, TenM12) = -1 /\ RCmp(v, Zero) # 0) \/ RCmp(v, Ten12) = 1)
RECURSIVE Coef(_)
RECURSIVE CoefP(_, _)
CoefP(q, i) == IF i > Len(q) THEN One ELSE RMul(Coef(q[i]), CoefP(q, i + 1))
C0none == Cfg(<<>>, <<>>, 0)
Coef(e) ==   \* the constant factor of e
  IF NamesOf(e) = {} THEN LET v == Eval(e, C0none) IN (IF RTag(v) = 0 THEN v ELSE One)
  ELSE CASE Op(e) = "*" -> CoefP(e[2], 1)
         [] Op(e) = "neg" -> Coef(e[2])
         [] Op(e) = "/" -> RDiv(Coef(e[2]), Coef(e[3]))
         [] Op(e) = "^" /\ NamesOf(e[3]) = {} -> RPow(RFun1("abs", Coef(e[2])), Eval(e[3], C0none))
         [] OTHER -> One
RECURSIVE Extreme(_)
Extreme(e) ==
  IF NamesOf(e) = {} THEN Tiny(Eval(e, C0none)) \/ (Op(e) # "n" /\ \E k \in Range1(Kids(e)) : Extreme(k))
  ELSE Tiny(Coef(e)) \/ \E k \in Range1(Kids(e)) : Extreme(k)

(* numeric agreement of a double with a value *)
NumAt(v, bits) == IF RTag(v) # 0 THEN {} ELSE IF ~RContains(v, bits) THEN {"value"} ELSE IF RSharp(v) THEN {"ok"} ELSE {}

Fns(c, st) == IF Has(c, "sem") THEN [n \in DOMAIN Opaque \cup DOMAIN c.sem |-> IF Has(c.sem, n) THEN c.sem[n] ELSE Opaque[n]] ELSE Opaque

ConstTree(e) == Op(e) = "n"

EnvOf2(rec) == [n \in DOMAIN rec |-> RLit(rec[n])]
=============================================================================
