-------------------------------- MODULE Formats --------------------------------
(***************************************************************************)
(* The storage formats of gcs.storage as they are implemented: what each   *)
(* format stores and how it reads, slices, converts, copies, assigns and   *)
(* enumerates.  TLC checks (MC_Formats) that these algorithms refine       *)
(* ArrayHeap: every operation sequence of the formats shows exactly what   *)
(* ArrayHeap allows.                                                       *)
(*                                                                         *)
(* mem: the Python lists underlying the buffers, a sequence of sequences.  *)
(* A representation is a record with k and shape, and                      *)
(*   Buffer  l (list number), off, size, u                                 *)
(*   Strided strides, data (Buffer)                                        *)
(*   COO     rows (sequence of index rows), n, data                        *)
(*   FlatCOO f, n, data            CSR  crow, cols, n, data                *)
(*   DM      g, rs, ro, data (any representation)                          *)
(* The index structures of the sparse formats are never written to, hence  *)
(* they are values here.                                                   *)
(***************************************************************************)
EXTENDS Reps, Solve, Compress

Buf(l, off, size, u) ==
  [k |-> "Buffer", shape |-> <<size>>, l |-> l, off |-> off, size |-> size, u |-> u]

RECURSIVE UOf(_)
UOf(r) == IF r.k = "Buffer" THEN r.u ELSE UOf(r.data)

StridesOf(r) == IF r.k = "Strided" THEN r.strides ELSE CStrides(r.shape)

\* a new list and a buffer over it
NewBuf(m, vals, u) == [m |-> Append(m, vals), r |-> Buf(Len(m) + 1, 0, Len(vals), u)]
BufVals(m, b) == SubSeq(m[b.l], b.off + 1, b.off + b.size)
\* Buffer.copy(unspecified=u)
CopyBuf(m, b, u) == NewBuf(m, Remark(BufVals(m, b), b.u, u), u)

(* ---- finding elements ----------------------------------------------------- *)
\* get_coo_position, get_flatcoo_position, get_csr_position; -1: None
CooPosition(r, idx) ==
  LET cmp(pos) ==
        LET df == {j \in 1..Len(r.shape) : r.rows[j][pos + 1] # idx[j]}
        IN  IF df = {} THEN 0 ELSE LET j == Min(df) IN Sgn(r.rows[j][pos + 1] - idx[j])
  IN  BinSearch(cmp, 0, r.n - 1)
FlatPosition(r, idx) ==
  LET t == Dot(idx, CStrides(r.shape))
  IN  BinSearch(LAMBDA pos : Sgn(r.f[pos + 1] - t), 0, r.n - 1)
CsrPosition(r, idx) ==
  BinSearch(LAMBDA pos : Sgn(r.cols[pos + 1] - idx[2]),
            r.crow[idx[1] + 1], r.crow[idx[1] + 2] - 1)

SparsePosition(r, idx) ==
  CASE r.k = "COO" -> CooPosition(r, idx)
    [] r.k = "FlatCOO" -> FlatPosition(r, idx)
    [] r.k = "CSR" -> CsrPosition(r, idx)

\* reduce_index: the index of an element in the storage of a DM array
DMIndex(r, idx) ==
  [k \in 1..Len(r.g) |->
     r.ro[k] + SumSeq([i \in 1..Len(r.g[k]) |-> idx[r.g[k][i] + 1] * r.rs[k][i]])]

NOWHERE == <<0, 0>>
\* <<list, place>> of an element, NOWHERE if unspecified
RECURSIVE Addr(_, _)
Addr(r, idx) ==
  CASE r.k = "Buffer" -> <<r.l, r.off + idx[1] + 1>>
    [] r.k = "Strided" -> <<r.data.l, r.data.off + Dot(idx, r.strides) + 1>>
    [] r.k = "DM" -> Addr(r.data, DMIndex(r, idx))
    [] OTHER -> LET p == SparsePosition(r, idx)
                IN  IF p = -1 THEN NOWHERE ELSE <<r.data.l, r.data.off + p + 1>>

GetEl(m, r, idx) ==
  LET a == Addr(r, idx) IN IF a = NOWHERE THEN UOf(r) ELSE m[a[1]][a[2]]

ReadAll(m, r) == E([q \in 1..Product(r.shape) |-> GetEl(m, r, Unrank(q - 1, r.shape))])
Addrs(r) == E([q \in 1..Product(r.shape) |-> Addr(r, Unrank(q - 1, r.shape))])

(* ---- enumerating elements -------------------------------------------------- *)
CsrRow(r, j) == CHOOSE row \in 0..(r.shape[1] - 1) : r.crow[row + 1] < j /\ j <= r.crow[row + 2]

\* indices, in the order of indices_and_data_position()
EnumIdx(r) ==
  CASE r.k = "COO" -> E([j \in 1..r.n |-> [i \in 1..Len(r.rows) |-> r.rows[i][j]]])
    [] r.k = "FlatCOO" -> E([j \in 1..r.n |-> Lookup(r.f[j], r.shape, CStrides(r.shape))])
    [] r.k = "CSR" ->       \* row by row
         FlattenSeq(E([row \in 1..r.shape[1] |->
           E([c \in 1..(r.crow[row + 1] - r.crow[row]) |->
              <<row - 1, r.cols[r.crow[row] + c]>>])]))
    [] OTHER -> E([q \in 1..Product(r.shape) |-> Unrank(q - 1, r.shape)])

\* the places of these elements
EnumAddrs(r) ==
  IF r.k \in SparseKinds THEN E([j \in 1..r.n |-> <<r.data.l, r.data.off + j>>])
  ELSE Addrs(r)

Elements(m, r) ==
  LET ix == EnumIdx(r)
      ad == EnumAddrs(r)
  IN  E([j \in 1..Len(ix) |->
         <<ix[j], IF ad[j] = NOWHERE THEN UOf(r) ELSE m[ad[j][1]][ad[j][2]]>>])

(* ---- building from values ---------------------------------------------------- *)
Rows(ixs, dims) == E([a \in 1..dims |-> E([j \in 1..Len(ixs) |-> ixs[j][a]])])

CooRep(shape, ixs, data) ==
  [k |-> "COO", shape |-> shape, rows |-> Rows(ixs, Len(shape)), n |-> Len(ixs), data |-> data]
FlatRep(shape, f, data) ==
  [k |-> "FlatCOO", shape |-> shape, f |-> f, n |-> Len(f), data |-> data]
CsrRep(shape, rows, cols, data) ==
  [k |-> "CSR", shape |-> shape, crow |-> E(CompressLoop(rows, shape[1])), cols |-> cols,
   n |-> Len(cols), data |-> data]

\* the common loop of the fromobject methods; vals: row-major
FromVals(m, kind, shape, vals, u) ==
  LET keep == SelectSeq(E([q \in 1..Len(vals) |-> q]), LAMBDA q : vals[q] # u)
      kv == E([j \in 1..Len(keep) |-> vals[keep[j]]])
      ixs == E([j \in 1..Len(keep) |-> Unrank(keep[j] - 1, shape)])
      all == E(NewBuf(m, vals, u))
      st == E(NewBuf(m, kv, u))
  IN  CASE kind = "Buffer" -> all
        [] kind = "Strided" ->
             [m |-> all.m, r |-> [k |-> "Strided", shape |-> shape, strides |-> CStrides(shape),
                                  data |-> all.r]]
        [] kind = "COO" -> [m |-> st.m, r |-> CooRep(shape, ixs, st.r)]
        [] kind = "FlatCOO" ->
             [m |-> st.m, r |-> FlatRep(shape, E([j \in 1..Len(ixs) |-> Dot(ixs[j], CStrides(shape))]), st.r)]
        [] kind = "CSR" ->     \* through COO
             LET c == E(CopyBuf(st.m, st.r, u))
             IN  [m |-> c.m, r |-> CsrRep(shape, E([j \in 1..Len(ixs) |-> ixs[j][1]]),
                                          E([j \in 1..Len(ixs) |-> ixs[j][2]]), c.r)]

\* DM.fromobject; levels: sequence of axis groups, the last storage has kind skind
RECURSIVE FromValsDM(_, _, _, _, _, _)
FromValsDM(m, levels, skind, shape, vals, u) ==
  IF levels = <<>> THEN FromVals(m, skind, shape, vals, u)
  ELSE LET g == levels[1]
           rshape == ReducedShape(shape, g)
           moved == E([q \in 1..Len(vals) |->
                       vals[Rank(PromoteIndex(Unrank(q - 1, rshape), shape, g), shape) + 1]])
           s == E(FromValsDM(m, Tail(levels), skind, rshape, moved, u))
       IN  [m |-> s.m, r |-> [k |-> "DM", shape |-> shape, g |-> g,
                              rs |-> E([k \in 1..Len(g) |-> PartStrides(shape, g[k])]),
                              ro |-> Const(Len(g), 0), data |-> s.r]]

NewRep(m, kind, levels, skind, shape, u, input) ==
  LET vals == E(Remark(input, NIL, u))
  IN  IF kind = "DM" THEN FromValsDM(m, levels, skind, shape, vals, u)
      ELSE FromVals(m, kind, shape, vals, u)

(* ---- converting ---------------------------------------------------------------- *)
\* as_<kind>(unspecified=u) of an array; ue: an explicit marker was given
ConvRep(m, r, kind, levels, skind, ue, u) ==
  LET eu == IF ue THEN u ELSE UOf(r)
      vals == E(Remark(ReadAll(m, r), UOf(r), eu))
      cp == E(CopyBuf(m, r.data, r.data.u))
  IN  IF ~ue /\ kind = r.k /\ kind # "DM" THEN [m |-> m, r |-> r]
      ELSE IF ~ue /\ kind = "COO" /\ r.k = "FlatCOO"
      THEN [m |-> cp.m, r |-> CooRep(r.shape, E([j \in 1..r.n |->
                                                Lookup(r.f[j], r.shape, CStrides(r.shape))]), cp.r)]
      ELSE IF ~ue /\ kind = "FlatCOO" /\ r.k = "COO"
      THEN LET ix == EnumIdx(r)
           IN  [m |-> cp.m, r |-> FlatRep(r.shape, E([j \in 1..r.n |-> Dot(ix[j], CStrides(r.shape))]), cp.r)]
      ELSE IF ~ue /\ kind = "CSR" /\ r.k = "COO"
      THEN [m |-> cp.m, r |-> CsrRep(r.shape, r.rows[1], r.rows[2], cp.r)]
      ELSE IF ~ue /\ kind = "CSR" /\ r.k = "FlatCOO"      \* COO.fromobject(r).as_CSR()
      THEN LET c2 == E(CopyBuf(cp.m, cp.r, cp.r.u))
               ix == E([j \in 1..r.n |-> Lookup(r.f[j], r.shape, CStrides(r.shape))])
           IN  [m |-> c2.m, r |-> CsrRep(r.shape, Rows(ix, 2)[1], Rows(ix, 2)[2], c2.r)]
      ELSE IF kind = "DM" THEN FromValsDM(m, levels, skind, r.shape, vals, eu)
      ELSE FromVals(m, kind, r.shape, vals, eu)

RECURSIVE CopyRep(_, _, _)
CopyRep(m, r, u) ==
  CASE r.k = "Buffer" -> CopyBuf(m, r, u)
    [] r.k = "Strided" -> FromVals(m, "Strided", r.shape, E(Remark(ReadAll(m, r), UOf(r), u)), u)
    [] OTHER -> LET c == E(CopyRep(m, r.data, u)) IN [m |-> c.m, r |-> [r EXCEPT !.data = c.r]]

(* ---- slicing ---------------------------------------------------------------------- *)
\* Buffer.__getitem__ with a slice: <<rep>> or <<>> for IndexError
WinRep(m, b, it) ==
  LET len == Len(m[b.l])
      start == b.off + (IF it[2] = 0 THEN 0 ELSE it[3])
      stop  == b.off + (IF it[4] = 0 THEN b.size ELSE it[5])
      s == Reduced(<<2, 1, start, 1, stop, it[6], it[7]>>, len)
  IN  IF start < 0 \/ start >= len \/ stop <= 0 \/ stop > len \/ s[7] # 1 THEN <<>>
      ELSE <<Buf(b.l, s[3], s[5] - s[3], b.u)>>

\* elements of a slice of a sparse array: sequence of [i (slice index), a (address)], sorted
SliceEls(r, ix) ==
  LET st == CStrides(r.shape)
      en == EnumIdx(r)
      ad == EnumAddrs(r)
      all == E([j \in 1..Len(en) |->
                [i |-> Lookup(Dot(en[j], st) - ix.offset, ix.shape, ix.strides), a |-> ad[j]]])
  IN  SelectSeq(all, LAMBDA x : x.i # <<-1>>)
SortedEls(r, ix) ==
  SortSeq(E(SliceEls(r, ix)), LAMBDA x, y : Rank(x.i, ix.shape) < Rank(y.i, ix.shape))

RECURSIVE SliceRep(_, _, _)
\* index: normalized, selects an array
SliceRep(m, r, index) ==
  CASE r.k = "Strided" ->
         LET ix == IndexStrided(index, r.shape, r.strides, 0)
             w == IF Product(ix.shape) = 0 THEN <<r.data>>
                  ELSE WinRep(m, r.data, <<2, 1, ix.offset, 0, 0, 0, 0>>)
         IN  [m |-> m, r |-> [k |-> "Strided", shape |-> ix.shape, strides |-> ix.strides,
                              data |-> w[1]]]
    [] r.k = "CSR" /\ FixedAxes(index) # {} ->
         LET c == E(ConvRep(m, r, "COO", <<>>, "", FALSE, 0))
         IN  SliceRep(c.m, c.r, index)
    [] r.k \in SparseKinds /\ ~(r.k = "CSR" /\ FixedAxes(index) # {}) ->
         LET ix == IndexStrided(index, r.shape, CStrides(r.shape), 0)
             els == E(SortedEls(r, ix))
             b == E(NewBuf(m, E([j \in 1..Len(els) |-> m[els[j].a[1]][els[j].a[2]]]), r.data.u))
             ixs == E([j \in 1..Len(els) |-> els[j].i])
         IN  [m |-> b.m,
              r |-> CASE r.k = "COO" -> CooRep(ix.shape, ixs, b.r)
                      [] r.k = "FlatCOO" ->
                           FlatRep(ix.shape, E([j \in 1..Len(ixs) |-> Dot(ixs[j], CStrides(ix.shape))]), b.r)
                      [] r.k = "CSR" -> CsrRep(ix.shape, Rows(ixs, 2)[1], Rows(ixs, 2)[2], b.r)]
    [] r.k = "DM" ->
         LET ks == E([k \in 1..Len(r.g) |->
                      IndexStrided(E([i \in 1..Len(r.g[k]) |-> index[r.g[k][i] + 1]]),
                                   PartShape(r.shape, r.g[k]), r.rs[k], 0)])
             fx == FixedAxes(index)
             keep == SelectSeq(E([k \in 1..Len(r.g) |-> k]), LAMBDA k : ks[k].shape # <<>>)
             ng(k) == LET free == SelectSeq(r.g[k], LAMBDA a : a + 1 \notin fx)
                      IN  E([j \in 1..Len(free) |-> free[j] - Cardinality({f \in fx : f - 1 < free[j]})])
             dindex == E([k \in 1..Len(r.g) |->
                          IF ks[k].shape # <<>> THEN NONE ELSE INT(r.ro[k] + ks[k].offset)])
             data == E(IF Len(keep) = Len(r.g) THEN [m |-> m, r |-> r.data]
                       ELSE SliceRep(m, r.data, E(NormIndex(dindex, r.data.shape))))
         IN  [m |-> data.m,
              r |-> [k |-> "DM", shape |-> SliceShape(index, r.shape),
                     g |-> E([j \in 1..Len(keep) |-> ng(keep[j])]),
                     rs |-> E([j \in 1..Len(keep) |-> ks[keep[j]].strides]),
                     ro |-> E([j \in 1..Len(keep) |-> r.ro[keep[j]] + ks[keep[j]].offset]),
                     data |-> data.r]]

(* ---- assigning ---------------------------------------------------------------------- *)
\* places written by r[index] = value: sequence of [i (index of the value), a]
RECURSIVE Writes(_, _)
Writes(r, index) ==
  LET ix == IndexStrided(index, r.shape, StridesOf(r), 0)
  IN  CASE r.k = "Strided" ->
             E([q \in 1..Product(ix.shape) |->
                LET i == Unrank(q - 1, ix.shape)
                IN  [i |-> i, a |-> <<r.data.l, r.data.off + ix.offset + Dot(i, ix.strides) + 1>>]])
        [] r.k = "Buffer" -> <<[i |-> <<>>, a |-> <<r.l, r.off + index[1][2] + 1>>]>>
        [] r.k = "DM" ->      \* data[rindex] = value for each selected element
             LET en == EnumIdx(r)
                 st == CStrides(r.shape)
                 one(j) ==
                   LET si == Lookup(Dot(en[j], st) - ix.offset, ix.shape, ix.strides)
                   IN  IF si = <<-1>> THEN <<>>
                       ELSE LET di == DMIndex(r, en[j])
                                w == Writes(r.data, E([k \in 1..Len(di) |-> INT(di[k])]))
                            IN  E([x \in 1..Len(w) |-> [i |-> si, a |-> w[x].a]])
             IN  FlattenSeq(E([j \in 1..Len(en) |-> one(j)]))
        [] OTHER -> SliceEls(r, ix)

\* vals: row-major values of the selected elements, shape of the selection vshape
WriteMem(m, r, index, vals) ==
  LET vshape == SliceShape(index, r.shape)
  IN  FoldLeft(LAMBDA mm, w : [mm EXCEPT ![w.a[1]][w.a[2]] = vals[Rank(w.i, vshape) + 1]],
               m, E(Writes(r, index)))

(* ---- sizes, comparing ------------------------------------------------------------------ *)
RECURSIVE SizeImpl(_)
SizeImpl(r) == CASE r.k = "Buffer" -> r.size
                 [] r.k = "Strided" -> Product(r.shape)
                 [] r.k = "DM" -> SizeImpl(r.data)
                 [] OTHER -> r.n
RECURSIVE FullImpl(_, _)
FullImpl(m, r) ==
  IF r.k = "DM"
  THEN FullImpl(m, r.data) \/ LET v == ReadAll(m, r) IN \A q \in 1..Len(v) : v[q] # UOf(r)
  ELSE SizeImpl(r) = Product(r.shape)

EqBuf(m, a, b) == a.size = b.size /\ BufVals(m, a) = BufVals(m, b) /\ a.u = b.u
RECURSIVE EqImpl(_, _, _)
EqImpl(m, a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "Buffer" -> EqBuf(m, a, b)
       [] a.k = "Strided" -> /\ a.shape = b.shape /\ a.strides = b.strides /\ UOf(a) = UOf(b)
                             /\ Elements(m, a) = Elements(m, b)
       [] a.k = "COO" -> a.shape = b.shape /\ a.rows = b.rows /\ EqBuf(m, a.data, b.data)
       [] a.k = "FlatCOO" -> a.shape = b.shape /\ a.f = b.f /\ EqBuf(m, a.data, b.data)
       [] a.k = "CSR" -> /\ a.shape = b.shape /\ a.crow = b.crow /\ a.cols = b.cols
                         /\ EqBuf(m, a.data, b.data)
       [] a.k = "DM" -> /\ a.shape = b.shape /\ a.g = b.g /\ a.rs = b.rs /\ a.ro = b.ro
                        /\ EqImpl(m, a.data, b.data)

\* equal(): the dictionaries of the elements agree
EqualImpl(m, a, b) == Range(Elements(m, a)) = Range(Elements(m, b))

(* ---- the representation as it is observed (Reps) ----------------------------------------- *)
RECURSIVE Observed(_, _)
Observed(m, r) ==
  LET base == [k |-> r.k, shape |-> r.shape, vals |-> ReadAll(m, r), inner |-> <<>>]
  IN  CASE r.k = "COO" -> base @@ [rows |-> r.rows, n |-> r.n]
        [] r.k = "FlatCOO" -> base @@ [f |-> r.f, n |-> r.n]
        [] r.k = "CSR" -> base @@ [crow |-> r.crow, cols |-> r.cols, n |-> r.n]
        [] r.k = "DM" -> [base @@ [g |-> r.g, rs |-> r.rs, ro |-> r.ro]
                          EXCEPT !.inner = <<Observed(m, r.data)>>]
        [] OTHER -> base

RECURSIVE ChainOf(_)
ChainOf(r) == IF r.k = "DM" THEN <<[k |-> "DM", g |-> r.g]>> \o ChainOf(r.data)
              ELSE Plain(r.k)
=============================================================================
