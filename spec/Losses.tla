------------------------------- MODULE Losses --------------------------------
(* Loss functions (C19, C20) in units of 1e-4.  The logistic function is an  *)
(* uninterpreted table: s stands for 1 / (1 + exp(margin)).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 10000
\* product of two numbers in units; |a| any, |b| < 200000
Mul(a, b) == (a \div U) * b + ((a % U) * b) \div U
Logistic(s) == <<s, (s * (U - s)) \div U>>
\* huberized hinge of the margin e: slope (negated) and curvature
Hinge(e) == IF e >= U THEN <<0, 0>> ELSE IF e >= 0 THEN <<U - e, U>> ELSE <<U, 0>>
\* squared hinge of a target difference and a score difference
SquaredHinge(dt, df) == IF dt > df THEN <<dt - df, U>> ELSE <<0, 0>>
\* what a pair with target difference dt2 (halves) and score difference df8
\* (eighths) contributes before weighting
PairGH(loss, dt2, df8, s) ==
  CASE loss = "custom" -> <<dt2 * 10000 - df8 * 1250, 10000 + dt2 * 2500>>
    [] loss = "auc" -> Hinge(df8 * 1250)
    [] loss = "gbrank" -> SquaredHinge(dt2 * 5000, df8 * 1250)
    [] OTHER -> Logistic(s)
\* the loss of a pair; lg stands for log(1 + exp(-df))
PairLoss(loss, dt2, df8, lg) ==
  LET m == df8 * 1250   gap == 4 * dt2 - df8
  IN CASE loss = "custom" -> U
       [] loss = "auc" -> IF m >= U THEN 0 ELSE IF m >= 0 THEN ((U - m) * (U - m)) \div (2 * U) ELSE U \div 2 - m
       [] loss = "gbrank" -> IF gap <= 0 THEN 0 ELSE IF gap > 400 THEN 20000000 ELSE (gap * gap * 625) \div 4
       [] OTHER -> lg
=============================================================================
