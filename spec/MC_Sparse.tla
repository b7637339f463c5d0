------------------------------ MODULE MC_Sparse ------------------------------
(* SparseHeap (arrays as lists of their specified elements) agrees with     *)
(* ArrayHeap (all elements in row-major order): every pattern of specified  *)
(* elements of small arrays, every index.                                   *)
EXTENDS SparseHeap
CONSTANTS Shapes1, Steps
VARIABLES kind, shape, pat, u, parts, index
vars == <<kind, shape, pat, u, parts, index>>

ShapesQuick == {<<4>>, <<2, 2>>, <<1, 3>>, <<2, 1, 2>>}
ShapesThorough == {<<5>>, <<0, 2>>, <<3, 1>>, <<2, 3>>, <<2, 1, 2>>, <<3, 2>>, <<1, 2, 2>>}

StepsQuick == {1, -1, 2, -2}
StepsThorough == {1, -1, 2, -2, 3, -3}

Items(n) ==
  {NONE} \cup {INT(i) : i \in -n..(n - 1)}
  \cup {SLICE(x, y, c) : x \in -(n + 1)..n, y \in -(n + 1)..n, c \in Steps}
  \cup {<<2, 0, 0, 0, 0, 1, c>> : c \in Steps}
\* one item of each meaning, for arrays of several axes
ItemsOf(n) == {CHOOSE it \in Items(n) : PySel(it, n) = sel /\ IsInt(it) = int :
                 <<sel, int>> \in {<<PySel(it, n), IsInt(it)>> : it \in Items(n)}}
ItemTable == [n \in 0..6 |-> ItemsOf(n)]
FirstTable == [n \in 0..6 |-> Items(n)]

PartsOf(s) == IF Len(s) = 1 THEN {<< <<0>> >>}
              ELSE IF Len(s) = 2 THEN {<<<<0, 1>>>>, <<<<1, 0>>>>, <<<<0>>, <<1>>>>, <<<<1>>, <<0>>>>}
              ELSE {<<<<0, 2>>, <<1>>>>, <<<<2>>, <<1, 0>>>>, <<<<1, 0, 2>>>>}

Init == /\ shape \in Shapes1
        /\ kind \in {"COO", "FlatCOO"} \cup (IF Len(shape) = 2 THEN {"CSR"} ELSE {}) \cup {"DM"}
        /\ pat \in [1..Product(shape) -> BOOLEAN]
        /\ u \in {9, 1}           \* 1: the first stored element has the value of the marker
        /\ parts \in IF kind = "DM" THEN PartsOf(shape) ELSE {<<>>}
        /\ index = <<>>
Extend == /\ Len(index) < Len(shape)
          /\ \E it \in (IF Len(shape) = 1 THEN FirstTable ELSE ItemTable)[shape[Len(index) + 1]] :
               index' = Append(index, it)
          /\ UNCHANGED <<kind, shape, pat, u, parts>>
Spec == Init /\ [][Extend]_vars

\* the array in both representations: element number i of the heap has value i
Base == IF kind = "DM" THEN ReducedShape(shape, parts) ELSE shape
N == Product(Base)
Ps == SelectSeq([q \in 1..N |-> q - 1], LAMBDA q : pat[q + 1])
Hp == [i \in 1..Len(Ps) |-> i]
BKind == IF kind = "DM" THEN "COO" ELSE kind
Buf == MkObj(0, 1, "Buffer", Plain("Buffer"), <<Len(Ps)>>, u, Hp, [i \in 1..Len(Ps) |-> TRUE], "new").obj
Big0 == SparseOver(Buf, BKind, Base, Ps)
Sml0 == SNew(0, 1, BKind, Base, u, [i \in 1..Len(Ps) |-> Unrank(Ps[i], Base)], Hp).obj
Big == IF kind = "DM" THEN DMOver(Big0, shape, parts) ELSE Big0
Sml == IF kind = "DM" THEN SDMOver(Sml0, shape, parts) ELSE Sml0

CellOf(s, t) == LET h == {i \in 1..Len(s.idx) : s.idx[i] = t}
                IN  IF h = {} THEN 0 ELSE s.cells[CHOOSE i \in h : TRUE]
\* same elements; shared cells are the same cells
Agree(b, bhp, s, shp, shared) ==
  /\ b.k = s.k /\ b.d = s.d /\ b.shape = s.shape /\ b.u = s.u
  /\ Cardinality(Range(s.idx)) = Len(s.idx)
  /\ Cardinality({q \in 1..Len(b.cells) : b.cells[q] # 0}) = Len(s.idx)
  /\ \A q \in 1..Len(b.cells) :
       LET c == CellOf(s, Unrank(q - 1, s.shape))
       IN  /\ (c = 0) = (b.cells[q] = 0)
           /\ c # 0 => (IF shared THEN c = b.cells[q] ELSE shp[c] = bhp[b.cells[q]])
           /\ SRead(shp, s, Unrank(q - 1, s.shape)) = ReadCell(bhp, b, b.cells[q])
  /\ s.k # "DM" => \A i \in 1..(Len(s.idx) - 1) : LexLess(s.idx[i], s.idx[i + 1])

Complete == Len(index) = Len(shape)

SameMade == index = <<>> => Agree(Big, Hp, Sml, Hp, TRUE)
SameSlice ==
  (Complete /\ ~IsElementIndex(index)) =>
    LET b == SliceObj(Hp, 2, Big, index)
        s == SSlice(Hp, 2, Sml, index)
    IN  /\ (b.new = <<>>) = (s.new = <<>>)
        /\ Agree(b.obj, Hp \o b.new, s.obj, Hp \o s.new, SharesSlice(Big.d, FixedAxes(index)))
        /\ Range(s.obj.cells) \subseteq (IF SharesSlice(Big.d, FixedAxes(index)) THEN 1..Len(Hp)
                                         ELSE (Len(Hp) + 1)..(Len(Hp) + Len(s.new)))
SameRead ==
  (Complete /\ IsElementIndex(index)) =>
    ReadElement(Hp, Big, index) = SRead(Hp, Sml, [i \in 1..Len(index) |-> index[i][2] % shape[i]])
SameSet ==
  (Complete /\ Product(shape) # 0) =>
    LET n == Product(SliceShape(index, shape))
        e == [h |-> 1, vh |-> 0, index |-> index, vals |-> [q \in 1..n |-> 100 + q]]
    IN  AssignHeap(Hp, Big, index, e.vals) = SWritten(Hp, <<Sml>>, e)
SameCopy ==
  index = <<>> =>
    /\ LET b == CopyObj(Hp, 2, Big, 7)
           s == SCopy(Hp, 2, Sml, 7)
       IN  Agree(b.obj, Hp \o b.new, s.obj, Hp \o s.new, FALSE)
    /\ \A k \in {"COO", "FlatCOO"} \cup (IF Len(shape) = 2 THEN {"CSR"} ELSE {}) :
         kind \in {"COO", "FlatCOO"} =>
           LET b == ConvObj(Hp, 2, Big, k, Plain(k), shape, u, [q \in 1..N |-> Big.cells[q] # 0], "conv")
               s == SConv(Hp, 2, Sml, k)
           IN  Agree(b.obj, Hp \o b.new, s.obj, Hp \o s.new, FALSE)

\* reading through the big integer side of BigInt: places and counts
BigCounts ==
  \A a \in 1..Len(index) :
    LET it == index[a]
        bit == [t |-> it[1], v |-> IF IsInt(it) THEN BInt(it[2]) ELSE B0,
                ha |-> IF IsSlice(it) THEN it[2] ELSE 0, a |-> IF IsSlice(it) THEN BInt(it[3]) ELSE B0,
                hb |-> IF IsSlice(it) THEN it[4] ELSE 0, b |-> IF IsSlice(it) THEN BInt(it[5]) ELSE B0,
                hc |-> IF IsSlice(it) THEN it[6] ELSE 0, c |-> IF IsSlice(it) THEN BInt(it[7]) ELSE B0]
        n == BInt(shape[a])
        sel == PySel(it, shape[a])
    IN  IF IsInt(it) THEN BNormInt(bit.v, n) = BInt(sel[1])
        ELSE /\ \A c \in 0..(shape[a] + 1) : BCountOK(bit, n, BInt(c)) = (c = Len(sel))
             /\ sel # <<>> => BBounds(bit, n)[1] = BInt(sel[1])
===============================================================================
