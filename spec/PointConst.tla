------------------------------ MODULE PointConst ------------------------------
(* Design model for C20: how the constant of a pointwise loss is found.  The *)
(* loss is the huberized hinge, whose slope is piecewise linear, on a grid   *)
(* of K points per unit, so every step can be enumerated.  Newton's steps    *)
(* are counted (at most MaxK); a step out of the bracket of points already    *)
(* known to lie on either side of the best constant is replaced by bisection. *)
(* With Bracket = FALSE this is the plain iteration, which runs away.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS K, Rows, Span, MaxK, Bracket
VARIABLES prob, c, lo, hi, k, g, h, delta, pc
vars == <<prob, c, lo, hi, k, g, h, delta, pc>>
None == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(f(_), n) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* a row: target, score (in steps of K / 2), weight
Row == [y : {-1, 1}, f : {s * (K \div 2) : s \in 0 - Span..Span}, w : 0..2]
Margin(r, x) == r.y * (r.f + x)
SlopeOf(m) == IF m >= K THEN 0 ELSE IF m >= 0 THEN K - m ELSE K
CurvOf(m) == IF m >= 0 /\ m < K THEN 1 ELSE 0
G(x) == Sum(LAMBDA i : prob[i].w * prob[i].y * SlopeOf(Margin(prob[i], x)), Len(prob))
H(x) == Sum(LAMBDA i : prob[i].w * CurvOf(Margin(prob[i], x)), Len(prob))
Init == /\ prob \in {p \in [1..Rows -> Row] : \A i \in 1..(Rows - 1) : p[i].f <= p[i + 1].f}
        /\ c = 0 /\ lo = None /\ hi = None /\ k = 0 /\ g = 0 /\ h = 0 /\ delta = 0 /\ pc = "eval"
Eval == /\ pc = "eval"
        /\ g' = G(c) /\ h' = H(c)
        /\ lo' = IF g' > 0 THEN c ELSE lo
        /\ hi' = IF g' < 0 THEN c ELSE hi
        /\ pc' = "step" /\ UNCHANGED <<prob, c, k, delta>>
Newton == IF h = 0 THEN 0 ELSE Trunc(g, h)
Done == g = 0 \/ (h > 0 /\ Abs(Newton) <= 1)
Inside(x) == (lo # None => x > lo) /\ (hi # None => x < hi)
Step == /\ pc = "step"
        /\ LET out == Bracket /\ ~Done /\ lo # None /\ hi # None /\ ~Inside(c + Newton)
               d == IF out THEN lo + ((hi - lo) \div 2) - c ELSE Newton
           IN /\ delta' = d /\ c' = c + d
              /\ k' = IF out THEN k ELSE k + 1
              /\ pc' = IF Abs(d) > 1 /\ k' < MaxK THEN "eval" ELSE "done"
        /\ UNCHANGED <<prob, lo, hi, g, h>>
Next == Eval \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the sign of the slope brackets the best constant
Bracketed == (lo # None => G(lo) > 0) /\ (hi # None => G(hi) < 0) /\ (lo # None /\ hi # None => lo < hi)
Balanced == pc = "done" => h = 0 \/ Abs(g) <= 2 * h
Finishes == <>(pc = "done")
=============================================================================
