------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The global symbol registry and the contexts, as maps.                   *)
(*                                                                         *)
(*   r.m     name -> identity: the content of the global registry          *)
(*   r.seen  every identity handed out so far, with the name it was for    *)
(*   r.base  names that were there before the session ({} until listed)    *)
(*   r.cx    context handle -> [s: symbol store, fs: function -> k]:         *)
(*           0 without body, else body x + k and partial derivative k     *)
(*   r.st    symbol store -> (name -> identity); cloned contexts share one *)
(*   r.held  number -> [n, id]: symbols kept by the session                *)
(*                                                                         *)
(* Ops(r, c, o): the reasons why outcome o of call c is impossible in r,   *)
(* Nxt(r, c, o): the content after it.  Histories of several threads are   *)
(* judged by Lin: is there an order, consistent with real time, in which   *)
(* every outcome is possible?                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LOCAL Set(q) == {q[i] : i \in 1..Len(q)}
LOCAL Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
LOCAL Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
LOCAL Nil == [x \in {} |-> 0]
LOCAL Opt(rec, k, d) == IF k \in DOMAIN rec THEN rec[k] ELSE d
LOCAL Chk(b, w) == IF b THEN {} ELSE {w}

Reg0 == [m |-> Nil, seen |-> {}, based |-> FALSE, base |-> {}, cx |-> Nil, st |-> Nil, held |-> Nil]

Ids(r) == {p[1] : p \in r.seen}
\* identity i was never handed out for anything but name n
Free(r, i, n) == \A p \in r.seen : p[1] = i => p[2] = n
New(r, i) == i \notin Ids(r)
See(r, i, n) == [r EXCEPT !.seen = @ \cup {<<i, n>>}]

(* ------------------------------- global -------------------------------- *)
\* fn: names the session uses for functions; they are global names too
JSym(r, n, o) ==
  IF o.t # "sym" THEN {"no symbol"}
  ELSE Chk(o.name = n, "name") \cup
       (IF n \in DOMAIN r.m THEN Chk(o.id = r.m[n], "another identity for a name that exists")
        ELSE Chk(New(r, o.id), "identity handed out before"))
JGlobal(r, c, o) ==
  LET n == Opt(c, "n", "") has == n \in DOMAIN r.m IN
  CASE c.op \in {"symb", "keepsym"} -> JSym(r, n, o)
    [] c.op = "symb_new" -> (IF has THEN Chk(o.t = "err" /\ o.k = "DuplicateName", "strict creation of an existing name") ELSE JSym(r, n, o))
    [] c.op = "symb_get" -> (IF has THEN JSym(r, n, o) ELSE Chk(o.t = "err" /\ o.k = "NotFound", "strict lookup of an absent name"))
    [] c.op = "exists" -> Chk(o.t = "b" /\ o.b = has, "existence")
    [] c.op = "remove" -> Chk(o.t = "b" /\ o.b = has, "removal result")
    [] c.op = "clear" -> Chk(o.t = "u", "clear")
    [] c.op = "expr" -> (IF o.t = "xs" /\ o.s = n /\ o.v = <<n>> THEN JSym(r, n, [t |-> "sym", id |-> o.id, name |-> n]) ELSE {"expression of the symbol"})
    [] c.op = "usesym" -> LET h == r.held[c.k] IN
         (IF h.n \in DOMAIN r.m /\ r.m[h.n] = h.id THEN Chk(o.t = "sym" /\ o.id = h.id /\ o.name = h.n, "held symbol") ELSE {})
    [] c.op = "count" -> (IF r.based THEN Chk(o.t = "i" /\ o.i = Cardinality(r.base \cup DOMAIN r.m), "count") ELSE Chk(o.t = "i" /\ o.i >= Cardinality(DOMAIN r.m), "count"))
    [] c.op = "names" ->
         LET v == Set(o.v) IN
         Chk(o.t = "names", "listing") \cup Chk(Len(o.v) = Cardinality(v), "duplicate names") \cup Chk(DOMAIN r.m \subseteq v, "names missing")
         \cup (IF r.based THEN Chk(v = r.base \cup DOMAIN r.m, "other names") ELSE Chk(\A x \in Set(Opt(c, "pool", <<>>)) : x \in v => x \in DOMAIN r.m, "absent names listed"))
NGlobal(r, c, o) ==
  LET n == Opt(c, "n", "") IN
  CASE o.t = "sym" /\ c.op # "usesym" ->
         LET q == See([r EXCEPT !.m = Put(@, n, o.id)], o.id, n) IN
         IF c.op = "keepsym" THEN [q EXCEPT !.held = Put(@, c.k, [n |-> n, id |-> o.id])] ELSE q
    [] c.op = "expr" -> See([r EXCEPT !.m = Put(@, n, o.id)], o.id, n)
    [] c.op = "remove" -> (IF n \in DOMAIN r.m THEN [r EXCEPT !.m = Cut(@, n)] ELSE r)
    [] c.op = "clear" -> [r EXCEPT !.m = Nil, !.based = FALSE, !.base = {}]
    [] c.op = "names" -> (IF r.based THEN r ELSE [r EXCEPT !.based = TRUE, !.base = Set(o.v) \ DOMAIN r.m])
    [] OTHER -> r

(* ------------------------------ contexts ------------------------------- *)
Cx(r, k) == IF k \in DOMAIN r.cx THEN r.cx[k] ELSE [s |-> k, fs |-> Nil]
Store(r, k) == LET s == Cx(r, k).s IN IF s \in DOMAIN r.st THEN r.st[s] ELSE Nil
WithStore(r, k, m) == [r EXCEPT !.cx = Put(@, k, Cx(r, k)), !.st = Put(@, Cx(r, k).s, m)]
WithFns(r, k, fs) == [r EXCEPT !.cx = Put(@, k, [s |-> Cx(r, k).s, fs |-> fs])]
\* also after the global name was removed or cleared
NameOk(r, n, o) == Chk(o.name = n, "name")
\* "?": added by with_symbol, identity not seen yet
SameCx(r, m, n, o) == Chk(IF m[n] = "?" THEN Free(r, o.id, n) ELSE o.id = m[n], "another identity for a name of the context")
JCx(r, c, o) ==
  LET n == Opt(c, "n", "") m == Store(r, c.cx) fs == Cx(r, c.cx).fs IN
  CASE c.op = "symb" ->
         (IF o.t # "sym" THEN {"no symbol"} ELSE NameOk(r, n, o) \cup
          (IF n \in DOMAIN m THEN SameCx(r, m, n, o)
           ELSE Chk(New(r, o.id) \/ (n \in DOMAIN r.m /\ o.id = r.m[n]), "identity of something else")))
    [] c.op = "get" -> (IF n \in DOMAIN m THEN (IF o.t # "sym" THEN {"symbol not found"} ELSE NameOk(r, n, o) \cup SameCx(r, m, n, o))
                        ELSE Chk(o.t = "none", "symbol that the context does not hold"))
    [] c.op = "contains" -> Chk(o.t = "b" /\ o.b = (n \in DOMAIN m), "contains")
    [] c.op = "remove" -> Chk(o.t = "b" /\ o.b = (n \in DOMAIN m), "removal result")
    [] c.op = "count" -> Chk(o.t = "i" /\ o.i = Cardinality(DOMAIN m), "count")
    [] c.op = "empty" -> Chk(o.t = "b" /\ o.b = (DOMAIN m = {} /\ DOMAIN fs = {}), "empty")
    [] c.op = "names" -> Chk(o.t = "names" /\ Len(o.v) = Cardinality(Set(o.v)) /\ Set(o.v) = DOMAIN m, "listing")
    [] c.op = "hasfn" -> Chk(o.t = "b" /\ o.b = (n \in DOMAIN fs), "has function")
    [] c.op = "hasbody" -> Chk(o.t = "b" /\ o.b = (n \in DOMAIN fs /\ fs[n] # 0), "has body")
    \* f(2), evaluated and simplified where the context is supplied, and the slope of f: what its definition says, or nothing
    [] c.op = "use" ->
         LET k == IF n \in DOMAIN fs THEN fs[n] ELSE 0
             Is(x, v) == IF k = 0 THEN x = "none" ELSE x = ToString(v) IN
         (IF o.t # "use" THEN {"no call"}
          ELSE Chk(Is(o.v, 2 + k) /\ Is(o.p, 2 + k), "value of a function call") \cup Chk(Is(o.s, 2 + k), "simplified function call") \cup Chk(Is(o.d, k), "derivative of a function call")
               \cup (IF o.h THEN Chk(Is(o.hv, 2 + k), "value of a call written earlier") \cup Chk(Is(o.hs, 2 + k), "simplified call written earlier") ELSE {}))
    [] c.op = "rmfn" -> Chk(o.t = "b" /\ o.b = (n \in DOMAIN fs), "function removal result")
    [] c.op = "fnnames" -> Chk(o.t = "names" /\ Len(o.v) = Cardinality(Set(o.v)) /\ Set(o.v) = DOMAIN fs, "function listing")
    [] OTHER -> Chk(o.t = "u", "context call")
TakeUp(r, k, names) == [WithStore(r, k, [n \in DOMAIN Store(r, k) \cup names |-> IF n \in DOMAIN Store(r, k) THEN Store(r, k)[n] ELSE "?"]) EXCEPT !.based = FALSE]
NCx(r, c, o) ==
  LET n == Opt(c, "n", "") m == Store(r, c.cx) fs == Cx(r, c.cx).fs IN
  CASE c.op = "new" -> [r EXCEPT !.cx = Put(@, c.cx, [s |-> c.cx, fs |-> Nil]), !.st = Put(@, c.cx, Nil)]
    [] c.op = "clone" -> [r EXCEPT !.cx = Put(@, c.as, Cx(r, c.cx)), !.st = Put(@, Cx(r, c.cx).s, m)]
    \* the identity a with_symbol call chose shows when it is asked for
    [] c.op = "with" -> (IF n \in DOMAIN m THEN WithStore(r, c.cx, m) ELSE WithStore(r, c.cx, Put(m, n, "?")))
    [] c.op \in {"symb", "get"} /\ o.t = "sym" -> See(WithStore(r, c.cx, Put(m, n, o.id)), o.id, n)
    [] c.op = "remove" -> WithStore(r, c.cx, Cut(m, n))
    [] c.op = "clear" -> WithStore(r, c.cx, Nil)
    [] c.op = "clearall" -> WithFns(WithStore(r, c.cx, Nil), c.cx, Nil)
    [] c.op = "clearfns" -> WithFns(r, c.cx, Nil)
    [] c.op = "rmfn" -> WithFns(r, c.cx, Cut(fs, n))
    [] c.op = "fn" -> WithFns([r EXCEPT !.base = @ \cup {n}], c.cx, Put(fs, n, Opt(c, "k", IF "body" \in DOMAIN c THEN 1 ELSE 0)))
    [] c.op = "fnname" -> WithFns([r EXCEPT !.base = @ \cup {n}], c.cx, IF n \in DOMAIN fs THEN fs ELSE Put(fs, n, 0))
    [] c.op = "use" -> TakeUp(r, c.cx, {"qx"} \cup ({n} \ DOMAIN fs))
    [] OTHER -> r

 
\* other names may have been registered meanwhile
Unlisted(r) == [r EXCEPT !.based = FALSE]
Ops(r, c, o) ==
  IF o.t = "panic" THEN {"panic"}
  ELSE CASE c.c = "rg" -> JGlobal(r, c, o)
         [] c.c = "cx" -> JCx(r, c, o)
         [] c.c = "anon" -> Chk(o.t = "sym" /\ New(r, o.id) /\ o.name = "<anon>", "anonymous symbol")
         [] OTHER -> {}
Nxt(r, c, o) ==
  IF o.t = "panic" THEN r
  ELSE CASE c.c = "rg" -> NGlobal(r, c, o)
         [] c.c = "cx" -> NCx(r, c, o)
         [] c.c = "anon" -> (IF o.t = "sym" THEN See(r, o.id, "") ELSE r)
         [] OTHER -> r

(* ---------------------------- concurrency ------------------------------ *)
(* Configurations: events not yet placed in the order, and the content.    *)
(* Level by level; equal configurations are one.                           *)
RECURSIVE Lin(_, _, _)
Lin(cmds, ev, S) ==
  IF S = {} \/ \E x \in S : x[1] = {} THEN {x[2] : x \in S}
  ELSE Lin(cmds, ev,
        UNION {LET rest == x[1]
                   first == {i \in rest : \A j \in rest : ~(ev[j].b < ev[i].a)}
                   Call(i) == cmds[ev[i].th][ev[i].i]
                   can == {i \in first : Ops(x[2], Call(i), ev[i].o) = {}}
                   \* a call that can stand here and changes nothing may always stand here
                   still == {i \in can : Nxt(x[2], Call(i), ev[i].o) = x[2]}
               IN {<<rest \ {i}, Nxt(x[2], Call(i), ev[i].o)>> : i \in (IF still = {} THEN can ELSE {CHOOSE i \in still : TRUE})} : x \in S})
\* the contents a history can end in ({}: no order explains it)
Linearize(r, c, o) == Lin(c.threads, o.ev, {<<1..Len(o.ev), r>>})
=============================================================================
