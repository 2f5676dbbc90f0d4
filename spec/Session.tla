------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A session with the library: registers hold expressions, names hold      *)
(* compiled evaluators, and every public call is a transition.             *)
(*                                                                         *)
(* The abstract state after a call is the meaning the call must have.      *)
(* For an observed call (command c, outcome o) in abstract state st:       *)
(*   Judge(st, c, o)  - the set of properties the outcome contradicts      *)
(*   After(st, c, o)  - the abstract state afterwards (the outcome, once   *)
(*                      judged, is the state the next call starts from)    *)
(* Trace.tla replays recorded sessions through these; Gen.tla produces     *)
(* the commands.                                                           *)
(***************************************************************************)
EXTENDS Evaluate

(***************************************************************************)
(* Per-call judgements.  V(pid, S) tags reasons with the property.         *)
(***************************************************************************)
V(pid, S) == {<<pid, s>> : s \in S}
Panicky == {"panic", "crash", "hang"}
PidOf(c) ==
  CASE c.c \in {"build", "tree"} -> "E01"
    [] c.c = "parse" -> "P01"
    [] c.c = "reparse" -> "D01"
    [] c.c = "show" -> "D02"
    [] c.c \in {"q", "visit"} -> "E03"
    [] c.c = "eq" -> "E02"
    [] c.c \in {"diff", "diffstr"} -> "F01"
    [] c.c \in {"simp", "simpstr"} -> "M01"
    [] c.c \in {"subst", "eval", "evalstr", "evalpts"} -> "E04"
    [] c.c \in {"comp", "cev"} -> "V01"
    [] c.c = "allways" -> "V02"
    [] c.c \in {"batch", "pbatch", "evalf64"} -> "V03"
    [] c.c = "evp" -> "V04"
    [] c.c \in {"grad", "hess", "jac", "gradstr", "hessstr", "jacstr"} -> "F03"
    [] c.c \in {"unc", "rel"} -> "U01"
    [] c.c = "cov" -> "U02"
    [] c.c = "par" -> "S02"
    [] c.c = "cx" -> "S03"
    [] c.c \in {"dual", "dual2"} -> "N01"
    [] c.c = "both" -> "N02"
    [] OTHER -> "S01"

Loc(r, x) == r[x]

\* constants beyond the documented tolerance excuse a difference in value
Tol(e, S) == IF S \cap {"value", "undef"} # {} /\ Extreme(e) THEN {} ELSE S
JBuild(st, c, o) ==
  IF o.t = "e" THEN (IF ~Has(o, "e") THEN {} ELSE LET e == Conc(st, c.e) IN V("E01", Tol(e, Compare(e, o.e, Fns(c, st), PointKinds, 0, AllPts) \ {"def"})))
  ELSE IF o.t = "err" THEN V("E01", {"error"}) ELSE {}

\* ref: the text is judged by the specification's own reader; e (optional) is what it was written from
JText(st, c, o) ==
  LET cx == IF Has(c, "cx") /\ st.rg # {} THEN CHOOSE r \in st.rg : TRUE ELSE Rg!Reg0
      r == Syn!Read(c.s, ToSet(c.known) \cup (IF Has(c, "cx") THEN DOMAIN Rg!Store(cx, c.cx) ELSE {}),
                    ToSet(c.fns) \cup (IF Has(c, "cx") THEN DOMAIN Rg!Cx(cx, c.cx).fs ELSE {})) IN
  IF r.k = "any" THEN {}
  ELSE IF r.k = "err" THEN (IF o.t = "e" THEN V("P02", {"accepted"}) ELSE V("P02", {"ok"}))
                           \cup (IF Has(c, "e") THEN V("P01", {"specification: reader rejects its own writer"}) ELSE {})
  ELSE V("P01", (IF o.t = "err" THEN {"rejected"} ELSE IF o.t = "e" THEN Tol(r.e, Compare(r.e, o.e, Fns(c, st), PointKinds, 0, AllPts) \ {"def"}) ELSE {})
                \cup (IF Has(c, "e") /\ "value" \in Compare(c.e, r.e, Fns(c, st), PointKinds, 0, AllPts)
                      THEN {"specification: reader and writer disagree"} ELSE {}))
JParse(st, c, o) ==
  IF GetOr(c, "ref", FALSE) THEN JText(st, c, o)
  ELSE IF Has(c, "exp") /\ c.exp = "err" THEN (IF o.t = "e" THEN V("P02", {"accepted"}) ELSE {})
  ELSE IF Has(c, "e") THEN
       (IF o.t = "e" THEN V("P01", Compare(c.e, o.e, Fns(c, st), PointKinds, 0, AllPts) \ {"def"})
        ELSE IF o.t = "err" THEN V("P01", {"rejected"}) ELSE {})
  ELSE {}

JReparse(st, c, o) ==
  LET e == st.regs[c.r] IN
  IF o.t = "err" THEN V("D01", {"rejected"})
  ELSE IF o.t = "e" THEN V("D01", Compare(e, o.e, Fns(c, st), PointKinds, 0, AllPts) \ {"def"}) ELSE {}

RECURSIVE AllFinite(_)
AllFinite(e) == IF Op(e) = "n" THEN RTag(RLit(e[2])) = 0 ELSE \A k \in Range1(Kids(e)) : AllFinite(k)
(* the three written forms, read back by the specification *)
JShow(st, c, o) ==
  IF o.t # "show" THEN {} ELSE
  LET e == st.regs[c.r]
      fns == FnsOf(e) \ Builtins
      \* w: notation; r: what was read
      Same(w, a, r) ==
        IF r.k = "err" THEN {w \o ": not readable"}
        ELSE IF r.k = "any" THEN {}
        ELSE LET fa == Not!Flat(a) fr == Not!Flat(r.e) IN
             {IF x = "ok" THEN x ELSE w \o ": " \o x : x \in IF ~Not!SameFns(fa, fr) THEN {"other functions"} ELSE Compare(fa, fr, Not!AbsFns(fa), <<"pos", "mix">>, 0, AllPts)}
  IN IF Size(e) > MaxJudge \/ ~AllFinite(e) THEN {}
     ELSE V("D01", IF IOEnv.PID # "D01" \/ SymsOf(e) \cap FnsOf(e) # {} THEN {} ELSE Same("text", e, Syn!Read(o.d, SymsOf(e), fns)))
          \cup V("D02", IF IOEnv.PID # "D02" THEN {} ELSE Same("latex", Not!Rename(e, "latex"), Not!ReadLatex(o.l))
                        \cup Same("unicode", Not!Rename(e, "unicode"), Not!ReadUnicode(o.u, {Not!UniName(n) : n \in SymsOf(e)}, fns)))

JSimp(st, c, o) ==
  LET e == st.regs[c.r] safe == GetOr(c, "safe", FALSE) IN
  IF o.t # "e" THEN (IF o.t = "err" THEN V(IF safe THEN "M02" ELSE "M01", {"error"}) ELSE {})
  ELSE IF Extreme(e) THEN {}
  ELSE LET k == IF HasSpecial(e) THEN 40 ELSE 0 IN
       IF safe THEN V("M02", Compare(e, o.e, Fns(c, st), PointKinds, k, AllPts) \ {"def"})
       ELSE V("M01", Compare(e, o.e, Fns(c, st), PointKinds, k, PosOk) \ {"def"})

JDiff(st, c, o) ==
  LET e == Inline(st.regs[c.r], Fns(c, st)) IN
  IF o.t = "err" THEN (IF Has(c, "exp") THEN {} ELSE V("F01", {"error"}))
  ELSE IF o.t # "e" THEN {}
  ELSE LET d == D(e, XName(st, c))
           raw == GetOr(c, "raw", FALSE)
           Good(a, C) == (raw \/ GetOr(c, "safe", FALSE) \/ (PosOk(e, C) /\ PosOk(d, C))) /\ RTag(Eval(e, C)) = 0
       IN IF "bad" \in {Op(d)} \/ Extreme(e) THEN {}
          ELSE V("F01", Compare(d, o.e, Fns(c, st), PointKinds, IF HasSpecial(d) THEN 40 ELSE 0, Good) \ {"def"})

JSubst(st, c, o) ==
  IF o.t # "e" THEN {}
  ELSE LET e == st.regs[c.r] IN
       V("E04", Compare(Subst(e, [n \in {c.x} |-> st.regs[c.by]]), o.e, Fns(c, st), PointKinds, 0, AllPts) \ {"def"})

JEval(st, c, o) ==
  IF o.t # "e" THEN {}
  ELSE LET e == st.regs[c.r]
           s == Subst(e, [n \in DOMAIN c.env |-> Num(c.env[n])])
           free == NamesOf(s)
       IN V("E04", (Compare(s, o.e, Fns(c, st), PointKinds, 40, AllPts) \ {"def"})
                   \cup (IF NamesOf(o.e) \subseteq free THEN {} ELSE {"free symbols"}))

ParamEnv(ps, pt) == [n \in ToSet(ps) |->
   LET i == CHOOSE i \in 1..Len(ps) : ps[i] = n IN IF i <= Len(pt) THEN RLit(pt[i]) ELSE Zero]

BitsOf(k) == 46
JComp(st, c, o) ==
  IF o.t = "err" THEN (IF GetOr(c, "exp", "") = "err" THEN {} ELSE V("V01", {"error"}))
  ELSE IF o.t = "ev" THEN
       (IF GetOr(c, "exp", "") = "err" THEN V("V03", {"accepted"}) ELSE {})
       \cup (IF GetOr(c, "auto", FALSE) THEN (IF ToSet(o.params) = NamesOf(st.regs[c.r]) /\ o.n = Cardinality(ToSet(o.params)) THEN {} ELSE V("V03", {"auto params"}))
             ELSE IF o.params = c.params THEN {} ELSE V("V03", {"params"}))
  ELSE {}
EvVal(ev, pt, fns, k) == Eval(ev.e, Cfg(fns, ParamEnv(ev.params, pt), k))
JCev(st, c, o) ==
  IF o.t # "v" \/ c.ev \notin DOMAIN st.evs THEN {}
  ELSE LET ev == st.evs[c.ev] IN
       V("V01", UNION {NumAt(EvVal(ev, c.pts[i], Fns(c, st), 46), o.v[i]) : i \in 1..Len(c.pts)})

(* compiled and interpreted value of the same expression *)
JBoth(st, c, o) ==
  IF o.t # "both" THEN {} ELSE
  LET e == st.regs[c.r]
      At(i) == Eval(e, Cfg(Fns(c, st), ParamEnv(c.params, c.pts[i]), 46))
      One2(v, b, w) == IF b = "sym" THEN (IF RTag(v) = 0 THEN {w \o " not evaluated"} ELSE {})
                       ELSE IF RTag(v) = 1 THEN (IF RIsFinite(b) THEN {w \o " finite where undefined"} ELSE {"ok"})
                       ELSE IF RTag(v) = 0 /\ ~RContains(v, b) THEN {w \o " value"} ELSE IF RSharp(v) THEN {"ok"} ELSE {}
      Agree(a, b) == IF b = "sym" THEN (IF RIsFinite(a) THEN {"domains differ"} ELSE {})
                     ELSE IF RIsFinite(a) # RIsFinite(b) THEN {"domains differ"}
                     ELSE IF RIsFinite(a) /\ ~RCloseBits(a, b, 20) THEN {"differ"} ELSE {}
      At2(i) == LET v == At(i) IN One2(v, o.comp[i], "compiled") \cup One2(v, o.interp[i], "interpreted")
                                  \cup (IF RTag(v) = 1 THEN {} ELSE Agree(o.comp[i], o.interp[i]))
  IN V("N02", UNION {{IF w = "ok" THEN "ok" ELSE w \o " at " \o ToString(c.pts[i]) : w \in At2(i)} : i \in 1..Len(c.pts)})

PtOf(cols, i) == [j \in 1..Len(cols) |-> cols[j][i]]
\* n points; the given columns are repeated up to n (o.scalar holds one value per given row)
JAll(st, c, o) ==
  IF o.t # "all" \/ c.ev \notin DOMAIN st.evs THEN {}
  ELSE LET ev == st.evs[c.ev]
           Row(i) == ((i - 1) % Len(o.scalar.v)) + 1
           Same(r) == IF r.t # "v" THEN {"batch error"} ELSE IF Len(r.v) # c.n THEN {"length"}
                      ELSE UNION {IF RCloseBits(o.scalar.v[Row(i)], r.v[i], 40) THEN {"ok"}
                                  ELSE LET v == EvVal(ev, PtOf(c.cols, Row(i)), Fns(c, st), 46) IN
                                       IF RTag(v) = 1 \/ (RTag(v) = 0 /\ RContains(v, o.scalar.v[Row(i)]) /\ RContains(v, r.v[i])) THEN {} ELSE {"differs"} : i \in 1..c.n}
       IN V("V02", Same(o.batch) \cup Same(o.shared) \cup Same(o.par))

(* a tree up to the order of operands of sums and products *)
RECURSIVE Bag(_)
Bag(e) ==
  CASE Op(e) \in {"n", "s"} -> e
    [] Op(e) \in {"+", "*"} -> LET ks == [i \in 1..Len(e[2]) |-> Bag(e[2][i])] IN
                              <<Op(e), [t \in Range1(ks) |-> Cardinality({i \in 1..Len(ks) : ks[i] = t})]>>
    [] Op(e) = "f" -> <<"f", e[2], [i \in 1..Len(e[3]) |-> Bag(e[3][i])]>>
    [] Op(e) \in {"-", "/", "^"} -> <<Op(e), Bag(e[2]), Bag(e[3])>>
    [] Op(e) = "neg" -> <<"neg", Bag(e[2])>>
    [] OTHER -> e
(* equality is an equivalence, equal means same value and same hash *)
JEq(st, c, o) ==
  IF o.t # "eq" THEN {} ELSE
  V("E02", (IF o.eq = o.qe THEN {} ELSE {"not symmetric"}) \cup (IF o.aa /\ o.bb THEN {} ELSE {"not reflexive"})
     \cup (IF o.eq /\ ~(o.h /\ o.hh) THEN {"equal, hashes differ"} ELSE {})
     \cup (IF ~o.eq /\ Bag(st.regs[c.a]) = Bag(st.regs[c.b]) THEN {"reordered operands unequal"} ELSE {})
     \cup (IF ~o.eq /\ \E q \in st.eqs, r \in st.eqs : q[1] = c.a /\ r[2] = c.b /\ q[2] = r[1] THEN {"not transitive"} ELSE {})
     \cup (IF o.eq THEN {IF r = "ok" THEN "ok" ELSE "equal, but " \o r : r \in Compare(st.regs[c.a], st.regs[c.b], Fns(c, st), PointKinds, 0, AllPts)} ELSE {}))

(* A visitor meets the nodes in preorder.  One documented deviation: a sum that is a polynomial in *)
(* some base expression may be walked as that base alone.                                          *)
Label(e) ==
  CASE Op(e) = "n" -> "n" \o e[2] [] Op(e) = "s" -> "s" \o e[2]
    [] Op(e) = "f" -> "f" \o e[2] \o "/" \o ToString(Len(e[3]))
    [] Op(e) \in {"+", "*"} -> Op(e) \o "/" \o ToString(Len(e[2]))
    [] Op(e) = "d" -> "d" \o e[3] \o "/" \o ToString(e[4])
    [] OTHER -> Op(e)
PolyTermIn(t, b) ==
  \/ Op(t) = "n" \/ t = b
  \/ Op(t) = "^" /\ t[2] = b /\ Op(t[3]) = "n"
  \/ Op(t) = "*" /\ Len(t[2]) = 2 /\ \E i \in {1, 2} : Op(t[2][i]) = "n"
     /\ LET u == t[2][3 - i] IN (u = b \/ (Op(u) = "^" /\ u[2] = b /\ Op(u[3]) = "n"))
Core(t) == UNION {{u} \cup (IF Op(u) = "^" THEN {u[2]} ELSE {}) : u \in {t} \cup (IF Op(t) = "*" THEN Range1(t[2]) ELSE {})}
PolyBases(e) == IF Op(e) # "+" THEN {}
                ELSE {b \in UNION {Core(t) : t \in Range1(e[2])} : \A t \in Range1(e[2]) : PolyTermIn(t, b)}
(* positions in walk v at which a walk of e started at one of the positions S can end *)
RECURSIVE Ends(_, _, _)
RECURSIVE EndsAll(_, _, _, _)
EndsAll(q, i, v, S) == IF i > Len(q) \/ S = {} THEN S ELSE EndsAll(q, i + 1, v, Ends(q[i], v, S))
Ends(e, v, S) ==
  LET T == {i \in S : i <= Len(v) /\ v[i] = Label(e)} IN
  EndsAll(Kids(e), 1, v, {i + 1 : i \in T}) \cup UNION {Ends(b, v, S) : b \in PolyBases(e)}
(* what the queries must report for the expression shown by view *)
JQuery(st, c, o) ==
  IF o.t # "q" THEN {} ELSE
  LET e == st.regs[c.r] names == SymsOf(e)
  IN V("E03", Is(o.nodes = Size(e), "node count") \cup Is(o.depth = Height(e), "depth")
       \cup Is(o.vcount = Len(o.walk) /\ Len(o.walk) + 1 \in Ends(e, o.walk, {1}), "visitor count") \cup Is(o.fold = Size(e), "fold count")
       \cup Is(ToSet(o.vars) = names, "variables") \cup Is(ToSet(o.vvars) = names, "visitor variables")
       \cup Is(\A v \in DOMAIN o.cont : o.cont[v] <=> v \in names, "contains")
       \cup Is(o.free <=> (names \ ToSet(c.excl) # {}), "has free variables")
       \cup Is(o.cleq /\ o.clhash /\ o.clsame, "deep clone") \cup Is(o.mapsame = e, "identity map"))
JVisit(st, c, o) == IF o.t # "visit" THEN {} ELSE V("E03", IF Len(o.v) + 1 \in Ends(st.regs[c.r], o.v, {1}) THEN {"ok"} ELSE {"visitor walk"})

(* registry and contexts *)
IsReg(c) == c.c \in {"rg", "cx", "anon"}
JReg(st, c, o) ==
  IF st.rg = {} THEN {}
  ELSE IF \E r \in st.rg : Rg!Ops(r, c, o) = {} THEN V(PidOf(c), {"ok"})
  ELSE V(PidOf(c), Rg!Ops(CHOOSE r \in st.rg : TRUE, c, o))
NReg(st, c, o) == [st EXCEPT !.rg = LET good == {r \in @ : Rg!Ops(r, c, o) = {}} IN {Rg!Nxt(r, c, o) : r \in (IF good = {} THEN @ ELSE good)}]
RegOnly(c) == \A t \in 1..Len(c.threads) : \A i \in 1..Len(c.threads[t]) : IsReg(c.threads[t][i])
NParReg(st, c, o) == [st EXCEPT !.rg = UNION {Rg!Linearize(r, c, o) : r \in @}]

JMain(st, c, o) ==
  CASE c.c = "build" -> JBuild(st, c, o)
    [] IsReg(c) -> JReg(st, c, o)
    [] c.c = "parse" -> JParse(st, c, o)
    [] c.c = "reparse" -> JReparse(st, c, o)
    [] c.c = "show" -> JShow(st, c, o)
    [] c.c = "simp" -> JSimp(st, c, o)
    [] c.c = "diff" -> (IF Has(c, "parts") THEN V("F02", JPartials(st, c, o, Fns(c, st))) ELSE JDiff(st, c, o))
    [] c.c \in {"grad", "hess", "jac"} -> V("F03", JMat(st, c, o, Fns(c, st)))
    [] c.c \in {"gradstr", "hessstr", "jacstr"} -> V("F03", JMatStr(st, c, o, Fns(c, st)))
    [] c.c = "cov" -> V("U02", JCov(c, o))
    [] c.c \in {"unc", "rel"} -> V(PidOf(c), JUnc(st, c, o, Fns(c, st)))
    [] c.c \in {"dual", "dual2"} -> V("N01", JDual(c, o))
    [] c.c = "subst" -> JSubst(st, c, o)
    [] c.c = "eval" -> JEval(st, c, o)
    [] c.c = "comp" -> (IF IOEnv.PID = "V03" THEN V("V03", JCompile(st, c, o)) ELSE JComp(st, c, o))
    [] c.c = "cev" -> JCev(st, c, o)
    [] c.c \in {"batch", "pbatch"} -> V("V03", JBatch(st, c, o, Fns(c, st)))
    [] c.c = "evalf64" -> V("V03", JEvalF64(st, c, o, Fns(c, st)))
    [] c.c = "evp" -> V("V04", JEvp(st, c, o, Fns(c, st)))
    [] c.c = "allways" -> JAll(st, c, o)
    [] c.c = "both" -> JBoth(st, c, o)
    [] c.c = "eq" -> JEq(st, c, o)
    [] c.c = "q" -> JQuery(st, c, o)
    [] c.c = "visit" -> JVisit(st, c, o)
    [] OTHER -> {}

\* lim: a call made for its limits; same: it must repeat an earlier result; only: nothing else is asked of it
Judge0(st, c, o) ==
  (IF Has(c, "lim") THEN V("F04", JLimit(st, c, o)) ELSE {})
  \cup (IF Has(c, "same") THEN V(PidOf(c), JSame(st, c, o)) ELSE {})
  \cup (IF Has(c, "lim") \/ Has(c, "only") THEN {} ELSE JMain(st, c, o))

\* the properties a call can contradict
Charges(c) ==
  CASE c.c = "parse" -> {"P01", "P02"}
    [] c.c = "show" -> {"D01", "D02"}
    [] c.c = "simp" -> {IF GetOr(c, "safe", FALSE) THEN "M02" ELSE "M01"}
    [] c.c = "comp" -> {"V01", "V03"}
    [] OTHER -> {PidOf(c)}
(* c.pid: the property a call is made for, if not the usual one *)
Judge1(st, c, o) ==
  IF o.t \in {"crash", "hang"} THEN V(IOEnv.PID, {o.t})
  ELSE IF o.t = "panic" THEN V(GetOr(c, "pid", PidOf(c)), {o.t})
  ELSE IF o.t = "skip" THEN {}
  ELSE IF Has(c, "pid") THEN (IF c.pid = IOEnv.PID THEN {<<c.pid, q[2]>> : q \in Judge0(st, c, o)} ELSE {})
  ELSE IF IOEnv.PID \notin Charges(c) THEN {} ELSE Judge0(st, c, o)

After1(st, c, o) ==
  CASE o.t = "e" /\ Has(c, "to") /\ ~(c.c = "parse" /\ Has(c, "cx")) /\ Has(o, "e") -> [st EXCEPT !.regs = Upd(st.regs, c.to, o.e)]
    [] o.t = "ev" -> [st EXCEPT !.evs = Upd(st.evs, c.ev, [e |-> st.regs[c.r], params |-> IF GetOr(c, "via", "") = "sym" THEN ParamNames(st, c) ELSE o.params])]
    [] c.c = "comp" -> [st EXCEPT !.evs = [k \in DOMAIN @ \ {c.ev} |-> @[k]]]
    [] o.t = "eq" -> IF o.eq THEN [st EXCEPT !.eqs = @ \cup {<<c.a, c.b>>, <<c.b, c.a>>}] ELSE st
    [] c.c = "anon" /\ o.t = "sym" -> [NReg(st, c, o) EXCEPT !.an = Upd(@, ToString(c.k), o.id)]
    [] o.t = "show" -> [st EXCEPT !.txt = Upd(@, c.r, o.d)]
    [] c.c = "cov" -> [st EXCEPT !.covs = IF o.t = "cov" THEN Upd(@, c.cov, CovOf(c)) ELSE [k \in DOMAIN @ \ {c.cov} |-> @[k]]]
    [] IsReg(c) -> NReg(st, c, o)
    \* a context takes up the symbols of the texts read with it
    [] c.c = "parse" /\ Has(c, "cx") -> [st EXCEPT !.rg = IF o.t = "e" THEN {Rg!TakeUp(r, c.cx, SymsOf(o.e)) : r \in @} ELSE {}]
    [] c.c = "parse" -> [st EXCEPT !.rg = {Rg!Unlisted(r) : r \in @}]
    [] OTHER -> st

(* calls of one thread, one after the other *)
RECURSIVE JSeq(_, _, _, _)
JSeq(st, cs, os, i) == IF i > Len(cs) THEN {} ELSE Judge1(st, cs[i], os[i]) \cup JSeq(After1(st, cs[i], os[i]), cs, os, i + 1)
RECURSIVE NSeq(_, _, _, _)
NSeq(st, cs, os, i) == IF i > Len(cs) THEN st ELSE NSeq(After1(st, cs[i], os[i]), cs, os, i + 1)
OutsOf(c, o, t) == [i \in 1..Len(c.threads[t]) |-> (CHOOSE e \in ToSet(o.ev) : e.th = t /\ e.i = i).o]
(* concurrent calls: of the registry, some order must explain them; others do not see each other *)
JPar(st, c, o) ==
  IF RegOnly(c) THEN
     (IF IOEnv.PID # "S02" \/ st.rg = {} THEN {}
      ELSE V("S02", UNION {IF e.o.t = "panic" THEN {"panic"} ELSE {} : e \in ToSet(o.ev)}
                    \cup (IF NParReg(st, c, o).rg = {} THEN {"no order of the calls explains the results"} ELSE {"ok"})))
  ELSE UNION {JSeq(st, c.threads[t], OutsOf(c, o, t), 1) : t \in 1..Len(c.threads)}
Judge(st, c, o) ==
  IF o.t = "thr" THEN JSeq(st, c.cmds, o.o, 1)
  ELSE IF o.t = "par" THEN JPar(st, c, o)
  ELSE Judge1(st, c, o)
After(st, c, o) ==
  IF o.t = "thr" THEN NSeq(st, c.cmds, o.o, 1)
  ELSE IF o.t = "par" THEN (IF RegOnly(c) THEN NParReg(st, c, o) ELSE st)
  ELSE After1(st, c, o)
=============================================================================
