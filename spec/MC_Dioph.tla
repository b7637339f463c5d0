------------------------------ MODULE MC_Dioph ------------------------------
(* C13: the algorithm solves every equation with small coefficients.        *)
EXTENDS Solve
CONSTANTS MaxCoef, MaxLen, MaxRhs
VARIABLES a, done
Coef == (-MaxCoef..MaxCoef) \ {0}
Init == /\ a \in UNION {[1..n -> Coef] : n \in 1..MaxLen}
        /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, done>>

Dioph == LET r == DiophantineImpl(a, 0)
             zsOK == SoundBasis(a, r.zs) /\ SpansKernel(a, r.zs)
         IN  /\ zsOK
             /\ \A c \in -MaxRhs..MaxRhs :
                  LET s == DiophantineImpl(a, c)
                  IN  IF s.none THEN ~Solvable(a, c)
                      ELSE Solvable(a, c) /\ Dot(a, s.x0) = c /\ s.zs = r.zs
GcdOK == Len(a) = 2 =>
           LET g == ExtGcd(a[1], a[2])
           IN  ExtGcdOK(a[1], a[2], g[1], g[2], g[3]) /\ Abs(g[1]) = Gcd(a[1], a[2])
\* the completeness criterion means what it says: every solution of the
\* homogeneous equation in a box is a combination of the basis (two unknowns)
Spans == (Len(a) = 2 /\ done) =>
           LET z == DiophantineImpl(a, 0).zs[1]
           IN  \A x \in -6..6, y \in -6..6 :
                 a[1] * x + a[2] * y = 0 =>
                   \E t \in -6..6 : x = t * z[1] /\ y = t * z[2]
=============================================================================
