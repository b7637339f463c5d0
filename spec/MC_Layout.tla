------------------------------ MODULE MC_Layout ------------------------------
(* C09, C21: dimensionality reduction is one-to-one; composition of slices.  *)
(* One initial state per shape; the axes are permuted, partitioned and sliced *)
(* by transitions.                                                            *)
EXTENDS Layout
CONSTANTS MaxDim, MaxSize, MaxElems
VARIABLES shape, parts, phase
vars == <<shape, parts, phase>>

Shapes == {s \in UNION {[1..n -> 0..MaxSize] : n \in 1..MaxDim} : Product(s) <= MaxElems}
Perms(n) == {p \in [1..n -> 0..(n - 1)] : {p[i] : i \in 1..n} = 0..(n - 1)}
\* increasing sequences of cuts of 1..n-1
Cuts(n) == {SetToSortSeq(S, LAMBDA x, y : x < y) : S \in SUBSET (1..(n - 1))}

Init == shape \in Shapes /\ parts = <<>> /\ phase = 0
Map == /\ phase = 0 /\ phase' = 1
       /\ \E d \in Perms(Len(shape)), c \in Cuts(Len(shape)) : parts' = Parts(d, c)
       /\ UNCHANGED shape
Next == Map
Spec == Init /\ [][Next]_vars

(* ---- row-major numbering -------------------------------------------------- *)
RankUnrank ==
  LET N == Product(shape)
  IN  /\ \A q \in 0..(N - 1) : InShape(Unrank(q, shape), shape) /\ Rank(Unrank(q, shape), shape) = q
      /\ StridedPositions(shape, CStrides(shape), 0) = Iota(N)
      /\ \A q \in 1..(N - 1) : LexLess(Unrank(q - 1, shape), Unrank(q, shape))

(* ---- reduction ------------------------------------------------------------ *)
\* transcription of get_rposition / reduce_index / promote_index
ImplReduce(index) ==
  [k \in 1..Len(parts) |->
     LET st == PartStrides(shape, parts[k])
     IN  SumSeq([i \in 1..Len(parts[k]) |-> index[parts[k][i] + 1] * st[i]])]
ImplPromote(rindex) ==
  LET put(acc, k) ==
        LET sh == PartShape(shape, parts[k])
            st == CStrides(sh)
        IN  [a \in 1..Len(shape) |->
               IF \E i \in 1..Len(parts[k]) : parts[k][i] = a - 1
               THEN LET i == PlaceOf(parts[k], a - 1) IN PyMod(PyDiv(rindex[k], st[i]), sh[i])
               ELSE acc[a]]
  IN  FoldLeft(put, Const(Len(shape), -1), [k \in 1..Len(parts) |-> k])

Reduction ==
  phase = 1 =>
    LET N == Product(shape)
        rs == ReducedShape(shape, parts)
        sp == StoragePositions(shape, parts)
    IN  /\ Product(rs) = N
        /\ \A q \in 0..(N - 1) :
             LET i == Unrank(q, shape)
                 r == ReduceIndex(i, shape, parts)
                 j == Unrank(q, rs)
             IN  /\ InShape(r, rs)
                 /\ ImplReduce(i) = r
                 /\ PromoteIndex(r, shape, parts) = i
                 /\ ImplPromote(j) = PromoteIndex(j, shape, parts)
                 /\ InShape(PromoteIndex(j, shape, parts), shape)
                 /\ ReduceIndex(PromoteIndex(j, shape, parts), shape, parts) = j
                 /\ sp[q + 1] = Rank(r, rs)
        /\ Len(sp) = N /\ Range(sp) = 0..(N - 1)
        \* each storage axis walks its part in row-major order
        /\ \A k \in 1..Len(parts) :
             \A i, j \in {Unrank(q, shape) : q \in 0..(N - 1)} :
               LET pi == [m \in 1..Len(parts[k]) |-> i[parts[k][m] + 1]]
                   pj == [m \in 1..Len(parts[k]) |-> j[parts[k][m] + 1]]
               IN  LexLess(pi, pj) =>
                     ReduceIndex(i, shape, parts)[k] < ReduceIndex(j, shape, parts)[k]
=============================================================================
