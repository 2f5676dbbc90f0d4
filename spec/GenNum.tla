------------------------------- MODULE GenNum -------------------------------
(* Every built-in function over a grid of arguments (and, thorough, seeded *)
(* random ones): compiled and interpreted.                                 *)
EXTENDS Cmds, IOUtils, SequencesExt
Seed == atoi(IOEnv.SEED)
Mags == <<"0", "1e-12", "1e-5", "0.001", "0.0625", "0.1", "0.25", "0.3", "0.36", "0.5", "0.625", "0.75", "0.9", "0.99", "1", "1.0001", "1.1", "1.25", "1.5", "1.75",
          "2", "2.25", "2.5", "2.75", "3", "3.3", "3.75", "4", "4.5", "5", "5.5", "5.75", "6", "6.5", "7", "7.5", "8", "8.5", "9.75", "10", "11.25", "12.5", "13", "15.5", "18", "20.25", "25", "30.5", "40", "55.5", "75", "100", "170.5", "700", "1000.5", "100000", "1e8", "1e12">>
Grid == Mags \o [i \in 1..Len(Mags) |-> "-" \o Mags[i]]
Rand(s) == [i \in 1..40 |-> LET m == Pick(Split(s, i), 1, 30000) IN
              (IF Pick(Split(s, i), 2, 2) = 0 THEN "" ELSE "-") \o ToString(m \div 1000) \o "." \o ToString(1000 + (m % 1000))]
One1 == SetToSeq(Prim1 \cup Derived1)
Two1 == SetToSeq({"polygamma", "zeta_deriv", "besselj", "bessely", "besseli", "besselk", "hermite"})
Orders == <<"0", "1", "2", "3", "4", "5", "7", "10", "-1", "-2", "-3", "0.5">>
Pt(xs, q) == [i \in 1..Len(xs) |-> <<xs[i]>>]
Both(e, ps, pts) == [c |-> "both", r |-> 0, params |-> ps, pts |-> pts, pid |-> "N02"]
J(e, ps, pts) == [id |-> 0, cmds |-> <<[c |-> "build", e |-> e, m |-> "ctor", seed |-> 1, to |-> 0], Both(e, ps, pts)>>]
X == Sym("x")
Xs == IF IOEnv.TIER = "quick" THEN Grid ELSE Grid \o FlattenSeq([k \in 1..40 |-> Rand(Split(Seed, k))])
Extra == FlattenSeq([k \in 1..3 |-> Rand(Split(Seed, 90 + k))])
PPos == [i \in 1..Len(Mags) |-> <<Mags[i]>>]   \* cube roots of negative numbers are a documented extension of compiled code
P1 == [i \in 1..Len(Xs \o Extra) |-> <<(Xs \o Extra)[i]>>]
J1 == [i \in 1..Len(One1) |-> J(Fn1(One1[i], X), <<"x">>, P1)]
J2 == FlattenSeq([i \in 1..Len(Two1) |-> [k \in 1..Len(Orders) |-> J(Fn(Two1[i], <<Num(Orders[k]), X>>), <<"x">>, P1)]])
Small == <<"0", "0.25", "-0.25", "0.75", "-0.9", "1", "-1", "1.5", "-1.5", "2", "-3", "3.25", "5", "-7.5", "10", "30", "1e-5", "-1e8">>
Cross == FlattenSeq([i \in 1..Len(Small) |-> [k \in 1..Len(Small) |-> <<Small[i], Small[k]>>]])
JX == [i \in 1..3 |-> J(Fn(<<"atan2", "log", "beta">>[i], <<X, Sym("y")>>), <<"x", "y">>, Cross)]
LM == FlattenSeq([l \in 1..6 |-> [m \in 1..8 |-> <<ToString(l - 1), IF m <= 6 THEN ToString(m - 1) ELSE "-" \o ToString(m - 6)>>]])
JL == [i \in 1..Len(LM) |-> J(Fn("assoc_legendre", <<Num(LM[i][1]), Num(LM[i][2]), X>>), <<"x">>, [k \in 1..Len(Small) |-> <<Small[k]>>])]
JY == FlattenSeq([i \in 1..Len(LM) |-> <<J(Fn("spherical_harmonic", <<Num(LM[i][1]), Num(LM[i][2]), X, Sym("y")>>), <<"x", "y">>, Cross),
                                         J(Fn("ynm", <<Num(LM[i][1]), Num(LM[i][2]), X, Sym("y")>>), <<"x", "y">>, Cross)>>])
(* powers and exponentials with awkward arguments *)
Pows == <<"2", "3", "-1", "-2", "0.5", "-0.5", "1.5", "0.25", "0", "4", "7", "-3">>
JP == [i \in 1..Len(Pows) |-> J(Pow(X, Num(Pows[i])), <<"x">>, P1)] \o
      <<J(Pow(X, Div(Num("1"), Num("3"))), <<"x">>, PPos), J(Pow(X, Div(Num("2"), Num("3"))), <<"x">>, PPos), J(Pow(X, Sym("y")), <<"x", "y">>, Cross),
        J(Div(X, Sym("y")), <<"x", "y">>, Cross), J(Pow(Num("2"), X), <<"x">>, P1), J(Pow(Sym("e"), X), <<"x">>, P1)>>
AllJobs == J1 \o J2 \o JX \o JL \o JY \o JP
VARIABLE written
Init == written = Len(AllJobs) /\ ndJsonSerialize(IOEnv.OUT, AllJobs)
Next == FALSE /\ written' = written
=============================================================================
