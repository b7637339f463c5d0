------------------------------ MODULE ArrayHeap ------------------------------
(***************************************************************************)
(* Observable semantics of gcs.storage: arrays of all formats over one     *)
(* heap of element cells.                                                  *)
(*                                                                         *)
(* heap : sequence of cells, a cell holds one value                        *)
(* objs : sequence of live array objects (handles), each a record          *)
(*   k      format: Buffer Strided COO FlatCOO CSR DM                      *)
(*   d      storage chain, outermost first: sequence of [k, g]; g is the   *)
(*          sequence of axis groups (0-based axes) of a DM level           *)
(*   shape  shape                                                          *)
(*   u      unspecified marker                                             *)
(*   cells  row-major sequence: the cell holding each element, 0 when the  *)
(*          element is unspecified.  Two objects share an element iff they *)
(*          name the same cell: this is where views and copies differ.     *)
(*   base   for Buffer: cells of the whole underlying sequence             *)
(*   off    for Buffer: offset of the window                               *)
(*   root   the object whose creation allocated the cells                  *)
(*   org    how the root was made: new conv copy slice                     *)
(*   contig TRUE for arrays made by building, converting or copying (their *)
(*          layout is a function of the content), FALSE for slices         *)
(*   ov     TRUE for explicit strides under which elements overlap         *)
(*                                                                         *)
(* The operators XxxObj compute the object made by an operation; actions   *)
(* are the only places where heap and objs change.  GCSTrace replays       *)
(* recorded executions of the real code through the same operators, Formats *)
(* refines them by transcriptions of the code's algorithms.                *)
(***************************************************************************)
EXTENDS Layout

DenseKinds  == {"Buffer", "Strided"}
SparseKinds == {"COO", "FlatCOO", "CSR"}
Kinds       == DenseKinds \cup SparseKinds \cup {"DM"}

(* ---- reading ------------------------------------------------------------ *)
ReadCell(hp, o, c) == IF c = 0 THEN o.u ELSE hp[c]
Vals(hp, o) == E([q \in 1..Len(o.cells) |-> ReadCell(hp, o, o.cells[q])])

NElems(o) == Len(o.cells)
Specified(o) == {q \in 1..Len(o.cells) : o.cells[q] # 0}
StorageKind(o) == o.d[Len(o.d)].k
IsDenseObj(o) == StorageKind(o) \in DenseKinds

\* flat positions (0-based) enumerated by elements(), in order
Enumerated(o) ==
  IF o.k \in SparseKinds
  THEN SelectSeq(E(Iota(Len(o.cells))), LAMBDA q : o.cells[q + 1] # 0)
  ELSE E(Iota(Len(o.cells)))

IsFull(o) == IsDenseObj(o) \/ \A q \in 1..Len(o.cells) : o.cells[q] # 0
\* number of stored elements; a DM array reports its storage, see GCSTrace
SizeOf(o) == IF o.k \in SparseKinds THEN Cardinality(Specified(o)) ELSE NElems(o)

\* elements() as a set of <<index, value>> pairs
ElementSet(hp, o) ==
  LET v == Vals(hp, o)
  IN  {<<Unrank(q, o.shape), v[q + 1]>> : q \in Range(Enumerated(o))}

EqualElements(hp, a, b) == ElementSet(hp, a) = ElementSet(hp, b)

\* same content: everything a user can read from the object
SameContent(hp, a, b) ==
  a.k = b.k /\ a.shape = b.shape /\ a.u = b.u /\ Vals(hp, a) = Vals(hp, b)

(* ---- making ------------------------------------------------------------- *)
\* fresh cells n+1, n+2, ... for the positions where spec[q] holds
FreshCells(n, spec) ==
  LET upto(q) == Cardinality({p \in 1..q : spec[p]})
  IN  [q \in 1..Len(spec) |-> IF spec[q] THEN n + upto(q) ELSE 0]

\* the same by folding, halves of long sequences separately: <<next, cells>>
RECURSIVE FreshCellsOf(_, _)
FreshCellsOf(n, spec) ==
  IF Len(spec) <= 64
  THEN FoldLeft(LAMBDA acc, b : IF b THEN <<acc[1] + 1, Append(acc[2], acc[1] + 1)>>
                                     ELSE <<acc[1], Append(acc[2], 0)>>,
                <<n, <<>>>>, spec)
  ELSE LET m == Len(spec) \div 2
           a == E(FreshCellsOf(n, SubSeq(spec, 1, m)))
           b == E(FreshCellsOf(a[1], SubSeq(spec, m + 1, Len(spec))))
       IN  <<b[1], a[2] \o b[2]>>
FreshCellsFold(n, spec) == FreshCellsOf(n, spec)[2]

SpecifiedVals(vals, spec) ==
  LET ps == E(SelectSeq(E(Iota(Len(vals))), LAMBDA q : spec[q + 1]))
  IN  E([i \in 1..Len(ps) |-> vals[ps[i] + 1]])

\* [obj, new]: an object with fresh cells where spec holds, and their values
MkObj(n, id, kind, d, shape, u, vals, spec, org) ==
  LET cells == FreshCellsFold(n, spec)
  IN  [ new |-> SpecifiedVals(vals, spec),
        obj |-> [ k |-> kind, d |-> d, shape |-> shape, u |-> u, cells |-> cells,
                  base |-> IF kind = "Buffer" THEN cells ELSE <<>>, off |-> 0,
                  root |-> id, org |-> org, contig |-> TRUE, ov |-> FALSE ] ]

\* which elements of an array with the given storage kind get a cell
SpecPattern(skind, vals, u) ==
  E([q \in 1..Len(vals) |-> skind \in DenseKinds \/ vals[q] # u])

\* None and the source's marker become the new marker
Remark(vals, old, new) == E([q \in 1..Len(vals) |-> IF vals[q] = old THEN new ELSE vals[q]])

\* fromobject(nested sequence, unspecified=u)
NewObj(n, id, kind, d, shape, u, input) ==
  LET vals == Remark(input, NIL, u)
  IN  MkObj(n, id, kind, d, shape, u, vals, SpecPattern(d[Len(d)].k, vals, u), "new")

\* chains of storage levels of a DM array made by fromobject
DMChain(levels, skind) == levels \o <<[k |-> skind, g |-> <<>>]>>
Plain(kind) == <<[k |-> kind, g |-> <<>>]>>

(* ---- explicit construction over an existing buffer ----------------------- *)
\* Strided(shape, strides, b[shift:])
StridedOverPositions(b, shape, strides, shift) ==
  StridedPositions(shape, strides, b.off + shift)
StridedOver(b, shape, strides, shift) ==
  LET ps == StridedOverPositions(b, shape, strides, shift)
  IN  [ b EXCEPT !.k = "Strided", !.d = Plain("Strided"), !.shape = shape,
                 !.cells = E([q \in 1..Len(ps) |-> b.base[ps[q] + 1]]),
                 !.base = <<>>, !.off = 0, !.contig = FALSE,
                 !.ov = Cardinality(Range(ps)) < Len(ps) ]

\* COO/FlatCOO/CSR over the buffer b, element number i at flat position ps[i]
SparseOver(b, kind, shape, ps) ==
  [ b EXCEPT !.k = kind, !.d = Plain(kind), !.shape = shape,
             !.cells = FoldLeft(LAMBDA cs, i : [cs EXCEPT ![ps[i] + 1] = b.cells[i]],
                                E(Const(Product(shape), 0)), E([i \in 1..Len(ps) |-> i])),
             !.base = <<>>, !.off = 0, !.contig = TRUE ]

\* DM(shape, parts, ..., storage)
DMOver(s, shape, parts) ==
  LET sp == StoragePositions(shape, parts)
  IN  [ s EXCEPT !.k = "DM", !.d = <<[k |-> "DM", g |-> parts]>> \o s.d, !.shape = shape,
                 !.cells = E([q \in 1..Len(sp) |-> s.cells[sp[q] + 1]]),
                 !.base = <<>>, !.off = 0 ]

(* ---- slicing -------------------------------------------------------------- *)
\* groups of a DM level all of whose axes are fixed
FixedGroups(g, fx) == {k \in 1..Len(g) : \A j \in 1..Len(g[k]) : g[k][j] + 1 \in fx}

RECURSIVE SharesSlice(_, _)
SharesSlice(d, fx) ==
  IF d[1].k = "DM"
  THEN LET fg == FixedGroups(d[1].g, fx)
       IN  fg = {} \/ SharesSlice(Tail(d), fg)
  ELSE d[1].k \in DenseKinds

\* slicing a CSR array with a fixed axis goes through a conversion, which
\* does not store elements equal to the marker
RECURSIVE DropsMarked(_, _)
DropsMarked(d, fx) ==
  IF d[1].k = "DM"
  THEN LET fg == FixedGroups(d[1].g, fx) IN fg # {} /\ DropsMarked(Tail(d), fg)
  ELSE d[1].k = "CSR" /\ fx # {}

\* axis renumbering when the axes fx (1-based) are removed
NewAxis(a, fx) == a - Cardinality({f \in fx : f - 1 < a})

RECURSIVE SliceChain(_, _)
SliceChain(d, fx) ==
  IF d[1].k = "DM"
  THEN LET g == d[1].g
           fg == FixedGroups(g, fx)
           keep(k) == LET free == SelectSeq(g[k], LAMBDA a : a + 1 \notin fx)
                      IN  [j \in 1..Len(free) |-> NewAxis(free[j], fx)]
           ng == SelectSeq([k \in 1..Len(g) |-> keep(k)], LAMBDA x : x # <<>>)
       IN  <<[k |-> "DM", g |-> ng]>> \o (IF fg = {} THEN Tail(d) ELSE SliceChain(Tail(d), fg))
  ELSE IF d[1].k = "CSR" /\ fx # {} THEN Plain("COO") ELSE d

\* o[index]; index is complete and selects an array, not an element.
\* Views keep the cells; otherwise fresh cells are made where Keep holds.
SliceWith(hp, id, o, index, Keep(_, _)) ==
  LET fx == FixedAxes(index)
      src == SliceSources(index, o.shape)
      d == SliceChain(o.d, fx)
      shape == SliceShape(index, o.shape)
      cells == E([q \in 1..Len(src) |-> o.cells[src[q] + 1]])
  IN  IF SharesSlice(o.d, fx)
      THEN [ new |-> <<>>,
             obj |-> [o EXCEPT !.k = d[1].k, !.d = d, !.shape = shape, !.cells = cells,
                               !.contig = FALSE] ]
      ELSE LET vals == E([q \in 1..Len(cells) |-> ReadCell(hp, o, cells[q])])
           IN  [ MkObj(Len(hp), id, d[1].k, d, shape, o.u, vals,
                       E([q \in 1..Len(cells) |-> cells[q] # 0 /\ Keep(q, vals[q])]), "slice")
                 EXCEPT !.obj.contig = d[1].k # "DM" ]

SliceObj(hp, id, o, index) ==
  LET drop == DropsMarked(o.d, FixedAxes(index))
  IN  SliceWith(hp, id, o, index, LAMBDA q, v : ~(drop /\ v = o.u))

\* value of an element read
ReadElement(hp, o, index) == ReadCell(hp, o, o.cells[SliceSources(index, o.shape)[1] + 1])

(* ---- Buffer windows --------------------------------------------------------- *)
\* b[start:stop:step]: <<"ok", offset, size>> or <<"IndexError">>
Window(b, it) ==
  LET len == Len(b.base)
      start == b.off + (IF it[2] = 0 THEN 0 ELSE it[3])
      stop  == b.off + (IF it[4] = 0 THEN NElems(b) ELSE it[5])
      sel   == RangeLen(start, stop, Step(it))
  IN  IF start < 0 \/ start >= len \/ stop <= 0 \/ stop > len THEN <<"IndexError">>
      ELSE IF Step(it) # 1 /\ sel # 0 /\ ~(Step(it) > 0 /\ len = 1) THEN <<"IndexError">>
      ELSE IF sel = 0 THEN <<"ok", 0, 0>>
      ELSE <<"ok", start, sel>>

WindowObj(b, off, size) ==
  [b EXCEPT !.off = off, !.cells = SubSeq(b.base, off + 1, off + size),
            !.shape = <<size>>, !.contig = TRUE]

\* Buffer(size, off, sequence, u): the sequence as it is
BufferOver(n, id, input, off, size, u) ==
  LET m == MkObj(n, id, "Buffer", Plain("Buffer"), <<Len(input)>>, u, input,
                 E(Const(Len(input), TRUE)), "new")
  IN  [m EXCEPT !.obj = WindowObj(m.obj, off, size)]

(* ---- converting and copying -------------------------------------------------- *)
\* the result of as_<kind>(unspecified=u); pattern: which elements are stored.
\* Elements equal to the new marker need not be stored but those already
\* stored in a sparse source may stay stored (index structures are reused).
ConvPatternOK(hp, o, skind, u, spec) ==
  LET vals == Remark(Vals(hp, o), o.u, u)
  IN  /\ Len(spec) = Len(vals)
      /\ \A q \in 1..Len(spec) :
           IF skind \in DenseKinds THEN spec[q]
           ELSE /\ vals[q] # u => spec[q]
                /\ spec[q] => (vals[q] # u \/ o.cells[q] # 0)

ConvObj(hp, id, o, kind, d, shape, u, spec, org) ==
  MkObj(Len(hp), id, kind, d, shape, u, Remark(Vals(hp, o), o.u, u), spec, org)

ConvShape(o, kind) == IF kind = "Buffer" THEN <<NElems(o)>> ELSE o.shape

CopyObj(hp, id, o, u) ==
  LET r == ConvObj(hp, id, o, o.k, o.d, o.shape, u,
                   [q \in 1..NElems(o) |-> o.cells[q] # 0], "copy")
  IN  IF o.k = "DM" THEN [r EXCEPT !.obj.contig = o.contig] ELSE r

(* ---- assigning ---------------------------------------------------------------- *)
\* heap after o[index] = vals (vals: row-major, one per selected element);
\* unspecified elements cannot be assigned and stay unspecified
AssignHeap(hp, o, index, vals) ==
  LET src == SliceSources(index, o.shape)
  IN  FoldLeft(LAMBDA h, q : LET c == o.cells[src[q] + 1]
                             IN  IF c = 0 THEN h ELSE [h EXCEPT ![c] = vals[q]],
               hp, E([q \in 1..Len(src) |-> q]))

\* b[i] = v on a Buffer, i relative to the window
BufferAssignHeap(hp, b, i, v) == [hp EXCEPT ![b.base[b.off + i + 1]] = v]

(* ---- invariants ------------------------------------------------------------------ *)
ObjOK(hp, o) ==
  /\ o.k \in Kinds /\ o.d[1].k = o.k
  /\ Len(o.cells) = Product(o.shape)
  /\ \A q \in 1..Len(o.cells) : o.cells[q] \in 0..Len(hp)
  /\ IsDenseObj(o) => \A q \in 1..Len(o.cells) : o.cells[q] # 0
  /\ o.k = "CSR" => Len(o.shape) = 2

\* distinct elements of an object never share a cell
Injective(o) ==
  LET cs == E(SelectSeq(o.cells, LAMBDA c : c # 0))
  IN  Cardinality(Range(cs)) = Len(cs)

SharesCell(a, b) ==
  (Range(a.cells) \cap Range(b.cells)) \ {0} # {}
=============================================================================
