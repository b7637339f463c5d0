----------------------------- MODULE Diophantine -----------------------------
(***************************************************************************)
(* Linear Diophantine equations  a[1]*x[1] + ... + a[n]*x[n] = c.           *)
(***************************************************************************)
EXTENDS PyBase

RECURSIVE GcdR(_, _)
\* (quantifying over a singleton makes TLC evaluate the remainder once)
GcdR(a, b) == IF b = 0 THEN a ELSE CHOOSE g \in {GcdR(b, m) : m \in {a % b}} : TRUE
Gcd(a, b) == GcdR(Abs(a), Abs(b))
GcdSeq(s) == FoldLeft(Gcd, 0, s)

\* extgcd(a, b) = <<g, x, y>>
ExtGcdOK(a, b, g, x, y) ==
  /\ a * x + b * y = g
  /\ Divides(g, a) /\ Divides(g, b)

\* transcription of slice_tools.extgcd
RECURSIVE ExtGcd(_, _)
ExtGcd(a, b) ==
  IF a = 0 THEN <<b, 0, 1>>
  ELSE CHOOSE t \in {<<r[1], r[3] - PyDiv(b, a) * r[2], r[2]>> :
                       r \in {ExtGcd(m, a) : m \in {PyMod(b, a)}}} : TRUE

Solvable(a, c) == Divides(GcdSeq(a), c)

DropCol(row, i) == [j \in 1..(Len(row) - 1) |-> IF j < i THEN row[j] ELSE row[j + 1]]

RECURSIVE Det(_)
Det(m) ==
  IF Len(m) = 0 THEN 1
  ELSE SumSeq([i \in 1..Len(m) |->
         LET minor == E([r \in 1..(Len(m) - 1) |-> E(DropCol(m[r + 1], i))])
         IN  (IF i % 2 = 1 THEN 1 ELSE -1) * m[1][i]
             * (IF m[1][i] = 0 THEN 0 ELSE Det(minor))])

\* maximal minors of the (n-1) x n matrix of basis vectors, with signs
Minors(zs, n) ==
  [i \in 1..n |->
     (IF i % 2 = 1 THEN 1 ELSE -1) *
       Det(E([r \in 1..(n - 1) |-> E(DropCol(zs[r], i))]))]

\* The basis vectors solve the homogeneous equation and generate ALL its
\* integer solutions: by the theory of lattices this is so iff the signed
\* maximal minors are, up to a common sign, the coefficients divided by gcd
SpansKernel(a, zs) ==
  LET n == Len(a)
      g == GcdSeq(a)
      mn == E(Minors(zs, n))
      pr == [i \in 1..n |-> PyDiv(a[i], g)]
  IN  \/ \A i \in 1..n : mn[i] = pr[i]
      \/ \A i \in 1..n : mn[i] = -pr[i]

SoundBasis(a, zs) ==
  /\ Len(zs) = Len(a) - 1
  /\ \A j \in 1..Len(zs) : Len(zs[j]) = Len(a) /\ Dot(a, zs[j]) = 0

(* ---- the same for integers of any size, given by residues --------------- *)
\* TLC integers have 32 bits.  An integer is represented by its residues
\* modulo the primes below (their product has 238 bits); equations are
\* checked modulo each of them.
Primes == <<32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653,
            32647, 32633, 32621, 32611, 32609, 32603, 32587, 32579>>

RECURSIVE DetMod(_, _)
DetMod(m, p) ==
  IF Len(m) = 0 THEN 1
  ELSE FoldLeft(LAMBDA acc, i :
         IF m[1][i] = 0 THEN acc
         ELSE LET minor == E([r \in 1..(Len(m) - 1) |-> E(DropCol(m[r + 1], i))])
                  t == (m[1][i] * DetMod(minor, p)) % p
              IN  IF i % 2 = 1 THEN (acc + t) % p ELSE (acc - t + p) % p,
         0, [i \in 1..Len(m) |-> i])

\* residues modulo the k-th prime of a sequence of residue vectors
Mod(xs, k) == E([i \in 1..Len(xs) |-> xs[i][k]])
DotMod(x, y, p) == FoldLeft(LAMBDA acc, i : (acc + x[i] * y[i]) % p, 0, [i \in 1..Len(x) |-> i])

\* a: coefficients, c: right-hand side, x0: particular solution
ParticularMod(a, c, x0) ==
  /\ Len(x0) = Len(a)
  /\ \A k \in 1..Len(Primes) : DotMod(Mod(a, k), Mod(x0, k), Primes[k]) = c[k]

SoundBasisMod(a, zs) ==
  /\ Len(zs) = Len(a) - 1
  /\ \A j \in 1..Len(zs) :
       /\ Len(zs[j]) = Len(a)
       /\ \A k \in 1..Len(Primes) : DotMod(Mod(a, k), Mod(zs[j], k), Primes[k]) = 0

\* pr: the coefficients divided by their gcd; the sign is common to all primes
SpansKernelMod(pr, zs) ==
  LET n == Len(pr)
      mn(k) == E([i \in 1..n |->
                 LET d == DetMod(E([r \in 1..(n - 1) |-> E(DropCol(Mod(zs[r], k), i))]), Primes[k])
                 IN  IF i % 2 = 1 THEN d ELSE (Primes[k] - d) % Primes[k]])
      all == E([k \in 1..Len(Primes) |-> mn(k)])
  IN  \/ \A k \in 1..Len(Primes) : \A i \in 1..n : all[k][i] = pr[i][k]
      \/ \A k \in 1..Len(Primes) : \A i \in 1..n :
            all[k][i] = (Primes[k] - pr[i][k]) % Primes[k]

DiophantineOK(a, c, none, x0, zs) ==
  IF none THEN ~Solvable(a, c)
  ELSE /\ Solvable(a, c)
       /\ Len(x0) = Len(a) /\ Dot(a, x0) = c
       /\ SoundBasis(a, zs)
       /\ SpansKernel(a, zs)
=============================================================================
