#!/usr/bin/env python3
"""Rewrites the fixed: lines of known-findings.txt from the fix commits in /repo."""
import subprocess,os
V=os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
R=os.path.join(os.path.dirname(V),"repo")
M={
"evaluate_parallel bound":("V04","evaluate_parallel never bound anonymous or context variables, and substituted expressions into one another in sequence"),
"dual numbers lost":("N01","dual powf was NaN for a negative base with an integral exponent; powi(0) had a NaN derivative at zero"),
"uncertainty came out negative":("U01","propagated uncertainty was negative for some arguments: sqrt(u^2) was reduced to u"),
"polynomial division looped":("M03","simplifying fractions of polynomials looped forever on infinite coefficients, took billions of steps for high degrees, and panicked or wrapped for degrees beyond u32"),"print nested powers":("D01","printed text of nested powers, polynomial terms and repeated negative factors parsed back to another value (D02 likewise)"),
"valid LaTeX":("D02","LaTeX of floor, ceil and derivative orders above nine was malformed or wrong"),
"parser rejects trailing":("P02","trailing tokens after a complete expression were silently ignored; nested derivative notation was not read"),
"report too many":("P02","surplus arguments of built-in functions were silently accepted"),
"substitution, mapping":("E04","substitution, mapping, counting and copying of polynomial and quotient nodes lost structure (E02, E03 likewise)"),
"operand order":("E02","products containing polynomials compared unequal after reordering"),
"derivative of cbrt":("F01","derivative of cbrt undefined at negative arguments"),
"domain-safe":("M02","domain-safe simplification changed values or domains at negative arguments of roots and powers"),
"erf of large":("N02","erf(x) and erfc(x) diverged for |x| above about 3"),
"complete elliptic":("N02","elliptic_e returned wrong values"),
"tetragamma":("N02","tetragamma was wrong everywhere; trigamma/polygamma looped without end at very negative arguments"),
"zeta between":("N02","zeta(s) off by N^-s for 1 < s <= 1.5"),
"derivatives of zeta":("N02","zeta_deriv inaccurate near 1 and meaningless for higher orders below 1"),
"zeta of small":("N02","zeta(s) undefined for -1e-10 < s < 0; gamma(x) infinite for 143 < x < 171"),
"Bessel functions of higher":("N02","besseli of order 2 and above wrong by the factor I0/cosh; overflow for small arguments"),
"coefficients of Bessel":("N02","besselk and large-argument j0, y0 used wrong coefficients; besselk(1,x) used ln x instead of ln(x/2)"),
"eval_batch reserves":("V02","eval_batch with a reused SIMD buffer sized for a smaller evaluator wrote past its end (heap overrun)"),
"sinh, tanh, coth and csch recognised":("M01","(e^-x - e^x) forms recognised as hyperbolic functions lost their sign"),
"letter e after":("P01","2e, 2exp(x) and 2e^x were rejected: e after a number was always read as an exponent"),
"long runs of one-letter":("P02","a long run of one-letter known symbols overflowed the stack"),
"deeply nested input":("P02","deeply nested input (parentheses, signs, powers, calls, quotients) overflowed the stack"),
"trailing comma":("P02","a trailing comma in derivative notation was silently ignored"),
"wrong number of arguments no longer":("P02","log(10): evaluating a built-in function with a wrong number of arguments panicked"),
"LaTeX derivative notation":("D02","LaTeX derivative notation lost the grouping of its operand and the Greek form of its variable"),
"symb() returned the removed":("S01","symb() kept returning the removed identity (stale thread-local cache) after remove_symbol or clear_symbols"),
"clear_symbols took the names":("S03","clear_symbols erased the names of anonymous and context symbols"),
"built-in functions were not recognised":("S01","after clear_symbols or remove_symbol of its name a built-in function was no longer recognised"),
"symbol_count counted":("S01","symbol_count counted unnamed and context symbols; counts and listings mixed moments of concurrent registrations (S02)"),
"asking a context for a function":("S03","Context::has_function and friends registered the asked name globally"),
"removing or clearing global names":("S03","removing or clearing global names erased the names of symbols still used by contexts and expressions"),
"derivatives with respect to context":("F01","derivatives with respect to context or anonymous symbols were zero; partials of user functions were ignored inside polynomials (F02, F03 likewise)"),
"a depth limit also cut":("F04","max_depth also cut the simplifier's recursion and changed results of inputs within the limit"),
"functions stopped working":("S03","user functions of a context lost their derivative, value and body once their global name was removed"),
"lengths of long columns":("V03","eval_f64 panicked or dropped data when a later column of 256 points or more had another length"),
"did not accept its symbols by name":("V03","an expression parsed with a context could not be compiled with its own parameter names"),
"compiled acot":("N02","compiled acot(x) differed from the interpreted one by pi for negative x")}
L=["# known: property=<id> match={...}   a genuine defect that is recorded, not repaired (suppressed by exact match)",
   "# fixed: property=<id> <commit> <what failed>   a repaired defect (suppresses nothing)"]
for l in subprocess.run(['git','-C',R,'log','--reverse','--format=%h %s','5213f5d..HEAD'],capture_output=True,text=True).stdout.splitlines():
    h,t=l.rstrip('\n').split(' ',1)
    for k,(p,w) in M.items():
        if k in t: L.append(f"fixed: property={p} {h} {w}"); break
    else: print("unmatched",t)
try: old=[l.rstrip('\n') for l in open(V+'/known-findings.txt') if l.startswith('known:')]
except FileNotFoundError: old=[]
open(V+'/known-findings.txt','w').write('\n'.join(L+old)+'\n')
