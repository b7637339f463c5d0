-------------------------------- MODULE Solve --------------------------------
(***************************************************************************)
(* Transcription of slice_tools.init_diophantine and solve_index: finding  *)
(* the index of the element at a given position of a strided layout by     *)
(* solving a linear Diophantine equation within a box.                     *)
(***************************************************************************)
EXTENDS Layout, Diophantine

(* _init_diophantine(a): sequence of records, outermost last, as the list of *)
(* tuples (d, x0, y0, xs, ys, z0, ds) built by the recursive helper.         *)
RECURSIVE InitD(_)
InitD(a) ==
  IF Len(a) <= 1 THEN <<>>
  ELSE LET g   == ExtGcd(a[1], a[2])
           d   == g[1]
           x0  == g[2]
           y0  == g[3]
           xs  == -PyDiv(a[2], d)
           ys  == PyDiv(a[1], d)
           nxt == E(InitD(<<d>> \o SubSeq(a, 3, Len(a))))
           zs  == IF nxt = <<>> THEN <<<<>>>> ELSE nxt[Len(nxt)].ds
           z   == IF nxt = <<>> THEN <<1>> ELSE nxt[Len(nxt)].z0
           s0  == <<xs>> \o E([i \in 1..Len(zs[1]) |-> x0 * zs[1][i]])
           s1  == <<ys>> \o E([i \in 1..Len(zs[1]) |-> y0 * zs[1][i]])
           sr  == E([i \in 1..(Len(zs) - 1) |-> <<0>> \o zs[i + 1]])
           z0  == <<x0 * z[1], y0 * z[1]>> \o SubSeq(z, 2, Len(z))
       IN  Append(nxt, [d |-> d, z0 |-> z0, ds |-> <<s0, s1>> \o sr])

\* transpose of a sequence of equally long sequences
Transpose(m) == E([j \in 1..Len(m[1]) |-> E([i \in 1..Len(m) |-> m[i][j]])])

(* the matrix A, columns 1..2N, right-hand sides in columns 2N+1, 2N+2 *)
Matrix(N, zs, z0, shape, hasShape) ==
  LET n == Len(zs)
      Row(i) ==
        LET top == i <= N
            r == IF top THEN i ELSE i - N
        IN  E([j \in 1..(2 * N + (IF hasShape THEN 2 ELSE 1)) |->
              IF j <= n THEN (IF top THEN zs[j][r] ELSE -zs[j][r])
              ELSE IF j <= 2 * N THEN (IF i = j - n THEN 1 ELSE 0)
              ELSE IF j = 2 * N + 1 THEN (IF top THEN -z0[r] ELSE z0[r])
              ELSE (IF top THEN 0 ELSE -shape[r] + 1)])
  IN  E([i \in 1..(2 * N) |-> Row(i)])

\* one step of the integral elimination: clear column i of all the other rows.
\* TLC's integers have 32 bits: unlike the code, a row is divided by the gcd of
\* its entries.  The scale of a row does not influence the other rows but for
\* their scale, and Normal removes it.
ClearColumn(A, i) ==
  E([k \in 1..Len(A) |->
     IF k = i \/ A[k][i] = 0 THEN A[k]
     ELSE LET aki == A[k][i]
              aii == A[i][i]
              row == E([j \in 1..Len(A[k]) |-> A[i][j] * aki - A[k][j] * aii])
              g == GcdSeq(row)
          IN  IF g <= 1 THEN row ELSE E([j \in 1..Len(row) |-> PyDiv(row[j], g)])])

Eliminate(A) == FoldLeft(ClearColumn, A, [i \in 1..Len(A) |-> i])

\* row-wise unit gcd, positive diagonal as in the code
Normal(A, n, N) ==
  LET m == Len(A[1])
      G(i) == FoldLeft(LAMBDA g, j : ExtGcd(g, A[i][j])[1], A[i][i],
                       [j \in 1..(m - 2 * N) |-> 2 * N + j])
  IN  E([i \in 1..n |->
         LET g == G(i)
         IN  [D |-> PyDiv(A[i][i], g), b |-> PyDiv(A[i][2 * N + 1], g),
              s |-> IF m > 2 * N + 1 THEN PyDiv(A[i][2 * N + 2], g) ELSE 0]])

\* init_diophantine(a, shape): [d, z0, zs, rows]; rows: D, b, s of each t
InitDiophantine(a, shape, hasShape) ==
  IF Len(a) = 0 THEN [d |-> 1, z0 |-> <<>>, zs |-> <<>>, rows |-> <<>>]
  ELSE IF hasShape /\ \E i \in 1..Len(shape) : shape[i] = 0
  THEN [d |-> 1, z0 |-> Const(Len(a), 0), zs |-> <<>>, rows |-> <<>>]
  ELSE IF Len(a) = 1 THEN [d |-> a[1], z0 |-> <<1>>, zs |-> <<>>, rows |-> <<>>]
  ELSE LET data == E(InitD(a))
           last == data[Len(data)]
           zs == Transpose(last.ds)
           N == Len(a)
           n == Len(zs)
           A == E(Eliminate(Matrix(N, zs, last.z0, shape, hasShape)))
       IN  [d |-> data[1].d, z0 |-> last.z0, zs |-> zs, rows |-> Normal(A, n, N)]

\* diophantine(a, c): [none, x0, zs]
\* (the eliminated rows play no role here)
DiophantineImpl(a, c) ==
  LET data == E(InitD(a))
      last == data[Len(data)]
      r == IF Len(a) = 1 THEN [d |-> a[1], z0 |-> <<1>>, zs |-> <<>>]
           ELSE [d |-> data[1].d, z0 |-> last.z0, zs |-> Transpose(last.ds)]
  IN  IF PyMod(c, r.d) # 0 THEN [none |-> TRUE, x0 |-> <<>>, zs |-> <<>>]
      ELSE [none |-> FALSE, zs |-> r.zs,
            x0 |-> E([i \in 1..Len(r.z0) |-> r.z0[i] * PyDiv(c, r.d)])]

\* solve_index(pos, shape, strides, data): <<-1>> is None.  The dt loop tries
\* the rounded-down parameters and those off by one, first axis slowest.
SolveWith(data, pos, shape) ==
  IF shape = <<>> /\ pos # 0 THEN <<-1>>
  ELSE IF PyMod(pos, data.d) # 0 THEN <<-1>>
  ELSE LET k == PyDiv(pos, data.d)
           n == Len(data.zs)
           t0 == E([i \in 1..n |-> PyDiv(data.rows[i].b * k + data.rows[i].s, data.rows[i].D)])
           Try(dt) == E([i \in 1..Len(shape) |->
                        k * data.z0[i] + SumSeq([j \in 1..n |-> (t0[j] + dt[j]) * data.zs[j][i]])])
           tries == E([q \in 1..(2 ^ n) |-> Try(Unrank(q - 1, Const(n, 2)))])
           ok == {q \in 1..(2 ^ n) : InShape(tries[q], shape)}
       IN  IF ok = {} THEN <<-1>> ELSE tries[CHOOSE q \in ok : \A r \in ok : q <= r]

SolveIndex(pos, shape, strides) ==
  SolveWith(E(InitDiophantine(strides, shape, TRUE)), pos, shape)

\* what a lookup has to answer
Lookup(pos, shape, strides) ==
  LET ps == StridedPositions(shape, strides, 0)
      h  == {q \in 1..Len(ps) : ps[q] = pos}
  IN  IF h = {} THEN <<-1>> ELSE Unrank((CHOOSE q \in h : TRUE) - 1, shape)
=============================================================================
