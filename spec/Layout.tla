------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Shapes, strides, indices of multidimensional arrays.                    *)
(*                                                                         *)
(* An array of shape s is described by the row-major sequence of its       *)
(* elements; "flat position" q is the 0-based place in that sequence.      *)
(***************************************************************************)
EXTENDS Slices

CStrides(shape) == E([i \in 1..Len(shape) |-> Product(SubSeq(shape, i + 1, Len(shape)))])

Unrank(q, shape) ==
  LET cs == CStrides(shape) IN E([i \in 1..Len(shape) |-> (q \div cs[i]) % shape[i]])

Rank(index, shape) == Dot(index, CStrides(shape))

InShape(index, shape) ==
  /\ Len(index) = Len(shape)
  /\ \A i \in 1..Len(shape) : 0 <= index[i] /\ index[i] < shape[i]

\* all indices in row-major order
AllIndices(shape) == [q \in 1..Product(shape) |-> Unrank(q - 1, shape)]

\* row-major sequence of sums, one item of each axis' sequence:
\* RowMajorSum(<<A, B>>) lists A[i] + B[j] with j running fastest
RowMajorSum(axes) ==
  FoldLeft(LAMBDA acc, ax :
             E([q \in 1..(Len(acc) * Len(ax)) |->
                acc[((q - 1) \div Len(ax)) + 1] + ax[((q - 1) % Len(ax)) + 1]]),
           <<0>>, E(axes))

\* positions of all the indices of `shape` in a strided layout, row-major order
StridedPositions(shape, strides, offset) ==
  LET ps == RowMajorSum([i \in 1..Len(shape) |->
                           E([c \in 1..shape[i] |-> (c - 1) * strides[i]])])
  IN  IF offset = 0 THEN ps ELSE E([q \in 1..Len(ps) |-> ps[q] + offset])

(* ---- multidimensional index expressions -------------------------------- *)
\* complete a possibly short index expression
FullIndex(index, n) == index \o [i \in 1..(n - Len(index)) |-> NONE]

FixedAxes(index) == {i \in 1..Len(index) : IsInt(index[i])}

\* is the complete index an element index?
IsElementIndex(index) == \A i \in 1..Len(index) : IsInt(index[i])

\* selected positions per axis
Sels(index, shape) == E([i \in 1..Len(shape) |-> PySel(index[i], shape[i])])

\* the axes that are not fixed by an integer, in order
FreeAxes(index) == SelectSeq([i \in 1..Len(index) |-> i], LAMBDA i : ~IsInt(index[i]))

\* shape of the indexed array
SliceShape(index, shape) ==
  LET fa == FreeAxes(index)
  IN  [j \in 1..Len(fa) |-> Len(PySel(index[fa[j]], shape[fa[j]]))]

\* flat positions (in the array of the given shape) of the elements of the
\* indexed array, in row-major order of the latter: list slicing semantics
SliceSources(index, shape) ==
  LET cs == CStrides(shape)
      sl == Sels(index, shape)
  IN  RowMajorSum([i \in 1..Len(shape) |-> E([j \in 1..Len(sl[i]) |-> sl[i][j] * cs[i]])])

\* an integer index must be within the axis (negative counts from the end)
IndexOK(index, shape) ==
  /\ Len(index) = Len(shape)
  /\ \A i \in 1..Len(shape) :
        /\ IsInt(index[i]) => (-shape[i] <= index[i][2] /\ index[i][2] < shape[i])
        /\ IsSlice(index[i]) => Step(index[i]) # 0

(* ---- transcription of slice_tools.index_strided ------------------------ *)
NormIndex(index, shape) == [i \in 1..Len(shape) |-> NormItem(index[i], shape[i])]

IndexStrided(nindex, shape, strides, offset) ==
  LET fa == FreeAxes(nindex)
      off(i) == IF IsInt(nindex[i]) THEN strides[i] * nindex[i][2]
                ELSE IF IsNone(nindex[i]) \/ shape[i] = 0 THEN 0
                ELSE strides[i] * (nindex[i][3] % shape[i])
  IN  [ shape   |-> [j \in 1..Len(fa) |-> IF IsNone(nindex[fa[j]]) THEN shape[fa[j]]
                                          ELSE NItems(nindex[fa[j]])],
        strides |-> [j \in 1..Len(fa) |-> IF IsNone(nindex[fa[j]]) THEN strides[fa[j]]
                                          ELSE strides[fa[j]] * nindex[fa[j]][7]],
        offset  |-> offset + SumSeq([i \in 1..Len(shape) |-> off(i)]) ]

\* what an index computation has to satisfy (C11): r is the claimed result
AddressesOK(r, index, shape, strides, offset) ==
  LET src == SliceSources(index, shape)
      pos == StridedPositions(shape, strides, offset)
  IN  /\ r.shape = SliceShape(index, shape)
      /\ Len(r.strides) = Len(r.shape)
      /\ StridedPositions(r.shape, r.strides, r.offset)
           = [q \in 1..Len(src) |-> pos[src[q] + 1]]

(* ---- dimensions mapping ------------------------------------------------ *)
\* The documented mapping.  parts is the sequence of axis sequences (0-based
\* axes) obtained by splitting the permuted dimensions at the partitioning.
Parts(dims, part) ==
  LET cuts == <<0>> \o part \o <<Len(dims)>>
  IN  [k \in 1..(Len(part) + 1) |-> SubSeq(dims, cuts[k] + 1, cuts[k + 1])]

PartShape(shape, axes) == [j \in 1..Len(axes) |-> shape[axes[j] + 1]]
PartStrides(shape, axes) == CStrides(PartShape(shape, axes))
ReducedShape(shape, parts) == [k \in 1..Len(parts) |-> Product(PartShape(shape, parts[k]))]

ReduceIndex(index, shape, parts) ==
  [k \in 1..Len(parts) |->
     Rank([j \in 1..Len(parts[k]) |-> index[parts[k][j] + 1]], PartShape(shape, parts[k]))]

\* the part and place of an axis
PartOf(parts, axis) == CHOOSE k \in 1..Len(parts) : \E j \in 1..Len(parts[k]) : parts[k][j] = axis
PlaceOf(p, axis)    == CHOOSE j \in 1..Len(p) : p[j] = axis

PromoteIndex(rindex, shape, parts) ==
  [i \in 1..Len(shape) |->
     LET k == PartOf(parts, i - 1)
         j == PlaceOf(parts[k], i - 1)
     IN  Unrank(rindex[k], PartShape(shape, parts[k]))[j]]

\* flat position in the storage array of each element, row-major order of the
\* unreduced array
StoragePositions(shape, parts) ==
  LET rs == CStrides(ReducedShape(shape, parts))
      w(i) == LET k == PartOf(parts, i - 1)
              IN  PartStrides(shape, parts[k])[PlaceOf(parts[k], i - 1)] * rs[k]
  IN  StridedPositions(shape, [i \in 1..Len(shape) |-> w(i)], 0)

IsPermutation(dims, n) == Len(dims) = n /\ {dims[i] : i \in 1..Len(dims)} = 0..(n - 1)
=============================================================================
