------------------------------ MODULE MC_Solve ------------------------------
(* C12: position lookup inverts the strided positions of every slice of     *)
(* every small row-major layout.                                            *)
EXTENDS Solve
CONSTANTS MaxDim,    \* number of axes
          MaxSize,   \* size of an axis
          MaxElems   \* number of elements of the array
VARIABLES shape, index, done

Shapes == {s \in UNION {[1..n -> 0..MaxSize] : n \in 1..MaxDim} : Product(s) <= MaxElems}

\* normalized items of an axis, one per distinct layout
Items(size) ==
  {NONE} \cup {INT(i) : i \in 0..(size - 1)}
  \cup {Reduced(SLICE(x, y, c), size) : x \in -size..size, y \in -(size + 1)..size,
                                        c \in (-size..size) \ {0}}
  \cup {SLICE(0, 0, 1)}
ItemTable == [n \in 0..MaxSize |-> Items(n)]

Init == /\ shape \in Shapes
        /\ index = <<>>
        /\ done = FALSE
\* choose the items of the index axis by axis
Extend == /\ Len(index) < Len(shape)
          /\ \E it \in ItemTable[shape[Len(index) + 1]] : index' = Append(index, it)
          /\ UNCHANGED <<shape, done>>
Next == Extend
Spec == Init /\ [][Next]_<<shape, index, done>>

Complete == Len(index) = Len(shape)

\* all positions around the slice, relative to its offset
LookupInverse ==
  Complete =>
    LET ix == IndexStrided(index, shape, CStrides(shape), 0)
        data == E(InitDiophantine(ix.strides, ix.shape, TRUE))
        ps == StridedPositions(ix.shape, ix.strides, 0)
        N == Product(shape)
    IN  \A pos \in (-ix.offset - 1)..(N - ix.offset + 1) :
          LET h == {q \in 1..Len(ps) : ps[q] = pos}
          IN  SolveWith(data, pos, ix.shape)
                = IF h = {} THEN <<-1>> ELSE Unrank((CHOOSE q \in h : TRUE) - 1, ix.shape)

\* a position occupied by the slice is occupied by one element only
Unique ==
  Complete =>
    LET ix == IndexStrided(index, shape, CStrides(shape), 0)
        ps == StridedPositions(ix.shape, ix.strides, 0)
    IN  Cardinality(Range(ps)) = Len(ps)

\* C11: index arithmetic addresses the selected elements
Addresses ==
  Complete =>
    /\ AddressesOK(IndexStrided(index, shape, CStrides(shape), 0), index, shape, CStrides(shape), 0)
    /\ LET odd == [i \in 1..Len(shape) |-> (IF i % 2 = 1 THEN 1 ELSE -1) * (i + 4)]
       IN  AddressesOK(IndexStrided(index, shape, odd, 3), index, shape, odd, 3)
=============================================================================
