------------------------------- MODULE IReal -------------------------------
(***************************************************************************)
(* Real numbers for TLC.  TLC has no real arithmetic, so the value of an   *)
(* expression at a point is represented by an interval of doubles that is  *)
(* rounded outwards and therefore contains the mathematical value:         *)
(*   <<tag, lo, lo', hi, hi'>>                                             *)
(*   tag 0 : defined and inside the interval                               *)
(*   tag 1 : certainly undefined (division by zero, log of a negative...)  *)
(*   tag 2 : not decided; if defined and in range, inside the interval     *)
(* The operators below are implemented by verif.IReal (Java).  Everything  *)
(* a *property* says is written in TLA+ on top of them; these are only the *)
(* real-number axioms.                                                     *)
(***************************************************************************)
EXTENDS Integers

RLit(s) == CHOOSE v : TRUE        \* decimal literal, or "0x" ++ 16 hex digits of a double
RRat(p, q) == CHOOSE v : TRUE     \* p/q
RConst(n) == CHOOSE v : TRUE      \* "pi", "e"
RAdd(a, b) == CHOOSE v : TRUE
RSub(a, b) == CHOOSE v : TRUE
RNeg(a) == CHOOSE v : TRUE
RMul(a, b) == CHOOSE v : TRUE
RDiv(a, b) == CHOOSE v : TRUE
RPow(a, b) == CHOOSE v : TRUE     \* real power; negative base only with integer exponent
RFun1(n, a) == CHOOSE v : TRUE    \* sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh
                                  \* exp ln sqrt abs floor ceil round signum erf erfc gamma
                                  \* lambertw elliptic_k elliptic_e
RFun2(n, a, b) == CHOOSE v : TRUE \* atan2 polygamma zeta_deriv besselj bessely besseli besselk
RWiden(a, mag, k) == CHOOSE v : TRUE   \* a widened by 2^-k * max(|a|,|mag|)
RTag(a) == CHOOSE v : TRUE
RDisjoint(a, b) == CHOOSE v : TRUE     \* no common real, with relative slack 1e-9
RSharp(a) == CHOOSE v : TRUE           \* defined and narrow
RContains(a, bits) == CHOOSE v : TRUE  \* the double lies in the interval
RIsFinite(bits) == CHOOSE v : TRUE
RIsNaN(bits) == CHOOSE v : TRUE
RSameBits(a, b) == CHOOSE v : TRUE     \* same number or both NaN
RCloseBits(a, b, k) == CHOOSE v : TRUE \* equal up to relative 2^-k
RCmp(a, b) == CHOOSE v : TRUE          \* -1, 0, 1, 2 = unknown
RShow(a) == CHOOSE v : TRUE
RShowBits(b) == CHOOSE v : TRUE
RIntOf(a, dflt) == CHOOSE v : TRUE
Pick(seed, tag, n) == CHOOSE v : v \in 0..(n-1)  \* seeded choice
Split(seed, tag) == CHOOSE v : v \in Nat         \* derived seed
HashS(s) == CHOOSE v : v \in Nat         \* a fixed hash of a string
Chars(s) == CHOOSE v : TRUE            \* string -> sequence of one-character strings
Join(q) == CHOOSE v : TRUE             \* sequence of strings -> string
CharClass(c) == CHOOSE v : TRUE        \* "blank", "digit", "alpha", "num" or "other"
Uni(n) == CHOOSE v : TRUE              \* the one-character string of a code point
=============================================================================
