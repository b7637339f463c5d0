------------------------------- MODULE PyBase -------------------------------
(***************************************************************************)
(* Python integer arithmetic and small sequence helpers shared by all the  *)
(* modules of the gcs specification.                                       *)
(*                                                                         *)
(* Array element values are opaque tokens (integers assigned by the trace  *)
(* recorder, injective modulo Python equality).  NIL is the token of None. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NIL == -1000000

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
Sgn(a)     == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1

\* evaluate once (TLC evaluates function constructors lazily otherwise)
E(x) == TLCEval(x)

\* violated clauses are collected in sets of names
If(b, name) == IF b THEN {} ELSE {name}

\* Python's // and % (floor semantics for divisors of either sign)
PyDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
PyMod(a, b) == a - b * PyDiv(a, b)

Product(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
Dot(x, y)  == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])

Const(n, v) == [i \in 1..n |-> v]
Iota(n)     == [i \in 1..n |-> i - 1]          \* <<0, ..., n-1>>
Divides(d, a) == IF d = 0 THEN a = 0 ELSE PyMod(a, d) = 0

IsStrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
IsNonDecreasing(s)      == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]

\* strict lexicographic order of integer tuples of equal length
LexLess(x, y) ==
  \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]

\* the subsequence of s at which Test holds, in order
Filter(s, Test(_)) == SelectSeq(s, Test)
=============================================================================
