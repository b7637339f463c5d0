------------------------------- MODULE SparseHeap -------------------------------
(***************************************************************************)
(* ArrayHeap for sparse arrays of any shape: an array lists its specified  *)
(* elements (idx, cells) only.  Index items are 32-bit; products of the    *)
(* axes may be of any size.  See SparseTrace; MC_Sparse relates it to       *)
(* ArrayHeap on small shapes.                                               *)
(***************************************************************************)
EXTENDS ArrayHeap, Compress, BigInt

Fresh(n, m) == [i \in 1..m |-> n + i]

\* pairs <<index tuple, x>> in lexicographic order
SortPairs(ps) == SortSeq(ps, LAMBDA a, b : LexLess(a[1], b[1]))

SObj(id, kind, d, shape, u, idx, cells, org) ==
  [k |-> kind, d |-> d, shape |-> shape, u |-> u, idx |-> idx, cells |-> cells, root |-> id, org |-> org]

\* constructed from its specified elements, in order
SNew(n, id, kind, shape, u, idx, vals) ==
  [new |-> vals, obj |-> SObj(id, kind, Plain(kind), shape, u, idx, Fresh(n, Len(idx)), "new")]

SRead(hp, o, t) ==
  LET h == {i \in 1..Len(o.idx) : o.idx[i] = t}
  IN  IF h = {} THEN o.u ELSE hp[o.cells[CHOOSE i \in h : TRUE]]

(* ---- dimension mapping ------------------------------------------------------ *)
SDMOver(s, shape, parts) ==
  [ s EXCEPT !.k = "DM", !.d = <<[k |-> "DM", g |-> parts]>> \o s.d, !.shape = shape,
             !.idx = E([i \in 1..Len(s.idx) |-> PromoteIndex(s.idx[i], shape, parts)]) ]

(* ---- slicing ----------------------------------------------------------------- *)
\* place of position v in the selection of item it, -1 if not selected
AxisPlace(it, n, v) ==
  IF IsInt(it) THEN (IF v = it[2] % n THEN 0 ELSE -1)
  ELSE IF IsNone(it) THEN v
  ELSE LET r == SliceIndices(it, n)
           s == r[3]
           d == v - r[1]
           c == RangeLen(r[1], r[2], s)
           \* |s| may exceed the axis; d is within it
           q == IF s > 0 THEN d \div s ELSE (-d) \div (-s)
       IN  IF (IF s > 0 THEN d < 0 \/ d % s # 0 ELSE d > 0 \/ (-d) % (-s) # 0) THEN -1
           ELSE IF q < c THEN q ELSE -1

SelLen(it, n) == IF IsNone(it) THEN n
                 ELSE LET r == SliceIndices(it, n) IN RangeLen(r[1], r[2], r[3])
SSliceShape(index, shape) ==
  LET fa == FreeAxes(index) IN [j \in 1..Len(fa) |-> SelLen(index[fa[j]], shape[fa[j]])]

\* places of index t in the slice, one per axis; selected if none is -1
Places(index, shape, t) == E([a \in 1..Len(shape) |-> AxisPlace(index[a], shape[a], t[a])])
Selected(p) == \A a \in 1..Len(p) : p[a] # -1

SSlice(hp, id, o, index) ==
  LET fx == FixedAxes(index)
      fa == FreeAxes(index)
      d == SliceChain(o.d, fx)
      drop == DropsMarked(o.d, fx)
      all == [i \in 1..Len(o.idx) |-> <<Places(index, o.shape, o.idx[i]), o.cells[i]>>]
      sel == SelectSeq(all, LAMBDA p : Selected(p[1]) /\ ~(drop /\ hp[p[2]] = o.u))
      cut == E([i \in 1..Len(sel) |-> <<[j \in 1..Len(fa) |-> sel[i][1][fa[j]]], sel[i][2]>>])
      ps == IF d[1].k = "DM" THEN cut ELSE E(SortPairs(cut))
      idx == [i \in 1..Len(ps) |-> ps[i][1]]
      shape == SSliceShape(index, o.shape)
  IN  IF SharesSlice(o.d, fx)
      THEN [new |-> <<>>, obj |-> [o EXCEPT !.k = d[1].k, !.d = d, !.shape = shape, !.idx = idx,
                                            !.cells = [i \in 1..Len(ps) |-> ps[i][2]]]]
      ELSE [new |-> [i \in 1..Len(ps) |-> hp[ps[i][2]]],
            obj |-> SObj(id, d[1].k, d, shape, o.u, idx, Fresh(Len(hp), Len(ps)), "slice")]

(* ---- converting among the sparse formats, copying ------------------------------ *)
SConv(hp, id, o, kind) ==
  [new |-> [i \in 1..Len(o.cells) |-> hp[o.cells[i]]],
   obj |-> SObj(id, kind, Plain(kind), o.shape, o.u, o.idx, Fresh(Len(hp), Len(o.idx)), "conv")]

SCopy(hp, id, o, u) ==
  [new |-> [i \in 1..Len(o.cells) |-> IF hp[o.cells[i]] = o.u THEN u ELSE hp[o.cells[i]]],
   obj |-> SObj(id, o.k, o.d, o.shape, u, o.idx, Fresh(Len(hp), Len(o.idx)), "copy")]

(* ---- assigning --------------------------------------------------------------------- *)
\* o[index] = v, v: array e.vh or the row-major values e.vals
SWritten(hp, ob, e) ==
  LET o == ob[e.h]
      index == FullIndex(e.index, Len(o.shape))
      fa == FreeAxes(index)
      shape == E(SSliceShape(index, o.shape))
      new(p) == LET t == [j \in 1..Len(fa) |-> p[fa[j]]]
                IN  IF e.vh # 0 THEN SRead(hp, ob[e.vh], t) ELSE e.vals[Rank(t, shape) + 1]
  IN  FoldLeft(LAMBDA h, i : LET p == Places(index, o.shape, o.idx[i])
                             IN  IF Selected(p) THEN [h EXCEPT ![o.cells[i]] = new(p)] ELSE h,
               hp, [i \in 1..Len(o.idx) |-> i])
===============================================================================
