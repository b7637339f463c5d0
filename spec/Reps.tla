-------------------------------- MODULE Reps --------------------------------
(***************************************************************************)
(* What the stored representation of an array has to satisfy: sorted and   *)
(* unique indices of the sparse formats (C08), the mapping of a DM array   *)
(* (C09).  A representation is a record                                    *)
(*   k, shape, vals; COO: rows, n; FlatCOO: f, n; CSR: crow, cols, n;      *)
(*   DM: g, rs, ro (dimensions, strides, offsets of the reduction) and     *)
(*   inner, a sequence of the representation of the storage.               *)
(***************************************************************************)
EXTENDS ArrayHeap

(* ---- well-formed representations (C08) ---------------------------------- *)
Column(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]

CooOK(r) ==
  /\ Len(r.rows) = Len(r.shape)
  /\ \A i \in 1..Len(r.rows) : Len(r.rows[i]) = r.n
  /\ \A j \in 1..r.n : InShape(Column(r.rows, j), r.shape)
  /\ \A j \in 1..(r.n - 1) : LexLess(Column(r.rows, j), Column(r.rows, j + 1))

FlatOK(r) ==
  /\ Len(r.f) = r.n
  /\ IsStrictlyIncreasing(r.f)
  /\ \A i \in 1..r.n : r.f[i] \in 0..(Product(r.shape) - 1)

CsrOK(r) ==
  /\ Len(r.shape) = 2
  /\ Len(r.crow) = r.shape[1] + 1
  /\ r.crow[1] = 0 /\ r.crow[Len(r.crow)] = r.n
  /\ IsNonDecreasing(r.crow)
  /\ Len(r.cols) = r.n
  /\ \A i \in 1..r.n : r.cols[i] \in 0..(r.shape[2] - 1)
  /\ \A row \in 1..r.shape[1] :
        IsStrictlyIncreasing(SubSeq(r.cols, r.crow[row] + 1, r.crow[row + 1]))

RECURSIVE WellFormed(_)
WellFormed(r) ==
  CASE r.k = "COO"     -> CooOK(r)
    [] r.k = "FlatCOO" -> FlatOK(r)
    [] r.k = "CSR"     -> CsrOK(r)
    [] r.k = "DM"      -> WellFormed(r.inner[1])
    [] OTHER           -> TRUE

\* flat positions of the stored indices, in storage order
StoredPositions(r) ==
  CASE r.k = "COO"     -> [j \in 1..r.n |-> Rank(Column(r.rows, j), r.shape)]
    [] r.k = "FlatCOO" -> r.f
    [] r.k = "CSR"     ->
         LET rows == FoldLeft(LAMBDA a, row : a \o E(Const(r.crow[row + 1] - r.crow[row], row - 1)),
                              <<>>, E([row \in 1..r.shape[1] |-> row]))
         IN  [j \in 1..r.n |-> r.cols[j] + r.shape[2] * rows[j]]

(* ---- the mapping of a DM array (C09) ------------------------------------- *)
\* r.g, r.rs, r.ro: reduction dimensions, strides, offsets; r.inner[1]: storage
PartPositions(r, k) ==
  StridedPositions(r.shape,
    [i \in 1..Len(r.shape) |->
       LET js == SelectSeq([j \in 1..Len(r.g[k]) |-> j], LAMBDA j : r.g[k][j] = i - 1)
       IN  IF js = <<>> THEN 0 ELSE r.rs[k][js[1]]], r.ro[k])

\* the axes of the groups are exactly the axes of the array, each once
GroupsOK(r) ==
  /\ Len(r.rs) = Len(r.g) /\ Len(r.ro) = Len(r.g)
  /\ \A k \in 1..Len(r.g) : Len(r.rs[k]) = Len(r.g[k])
  /\ IsPermutation(FlattenSeq(r.g), Len(r.shape))

RECURSIVE MapOK(_, _)
MapOK(r, vals) ==
  r.k = "DM" =>
    /\ GroupsOK(r)
    /\ LET s == r.inner[1]
           cs == CStrides(s.shape)
           pp == E([k \in 1..Len(r.g) |-> PartPositions(r, k)])
       IN  /\ Len(s.shape) = Len(r.g)
           /\ \A q \in 1..Len(vals) :
                /\ \A k \in 1..Len(r.g) : pp[k][q] \in 0..(s.shape[k] - 1)
                /\ s.vals[SumSeq([k \in 1..Len(r.g) |-> pp[k][q] * cs[k]]) + 1] = vals[q]
           /\ MapOK(s, s.vals)

\* a DM array made from dims/partitioning: documented parts and layout
FreshMapOK(r, o, vals) ==
  LET parts == o.d[1].g
      s == r.inner[1]
      sp == StoragePositions(r.shape, parts)
  IN  /\ r.g = parts
      /\ Len(vals) = Product(r.shape)
      /\ s.shape = ReducedShape(r.shape, parts)
      /\ Len(s.vals) = Len(vals)
      /\ \A q \in 1..Len(vals) : s.vals[sp[q] + 1] = vals[q]
=============================================================================
