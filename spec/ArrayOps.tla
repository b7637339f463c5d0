------------------------------- MODULE ArrayOps -------------------------------
(***************************************************************************)
(* The public operations of gcs.storage as transitions of ArrayHeap.  An   *)
(* operation is a record (the events of recorded executions have the same  *)
(* fields):                                                                 *)
(*   New    kind skind levels shape u ue input   fromobject(nested sequence) *)
(*   Stack  kind skind levels hs oshape u ue     fromobject([a, b, ...]): a    *)
(*                               nested sequence (oshape) of arrays hs        *)
(*   BufOver n off input u                      Buffer(n, off, sequence)      *)
(*   StridedOver h shape strides shift / SparseOver h kind shape ps /       *)
(*   DMOver h shape dims part                   explicit construction       *)
(*   Slice  h index        Win  h sl            o[index], buffer windows    *)
(*   Conv   h kind skind levels u ue            as_<kind>                   *)
(*   Copy   h u ue                              copy                        *)
(*   Set    h index vals vh                     o[index] = values           *)
(*   BufSet h i val                             buffer[i] = value           *)
(*   Bad    what ...                            requests with no answer      *)
(* h (vh): number of the array operated on (assigned).                      *)
(*                                                                           *)
(* Which elements a sparse result stores is not always determined: `logged` *)
(* is the pattern of an implementation's result, <<>> asks for the default. *)
(***************************************************************************)
EXTENDS ArrayHeap

Levels(e) == [i \in 1..Len(e.levels) |->
                [k |-> "DM", g |-> Parts(e.levels[i].dims, e.levels[i].part)]]
EChain(e) == IF e.kind = "DM" THEN DMChain(Levels(e), e.skind) ELSE Plain(e.kind)

\* the marker of a conversion or copy
EffU(ob, e) == IF e.ue THEN e.u ELSE ob[e.h].u

\* the values of a sequence of arrays
StackVals(hp, ob, hs) == FoldLeft(LAMBDA v, h : v \o Vals(hp, ob[h]), <<>>, hs)

\* the values of an assignment: those of another array, of a sequence of
\* arrays, or given ones
SetVals(hp, ob, e) == IF e.vh # 0 THEN Vals(hp, ob[e.vh])
                      ELSE IF "hs" \in DOMAIN e THEN StackVals(hp, ob, e.hs)
                      ELSE e.vals

MakeOps == {"New", "BufOver", "Stack", "StridedOver", "SparseOver", "DMOver", "Slice", "Win", "Conv", "Copy"}
FreshMapOps == {"New", "Stack", "DMOver", "Conv"}

\* heap hp, objects ob, operation e: [r: [obj, new], x: violated clauses].
\* same: the implementation returned the object operated on.
Made(hp, ob, e, logged, same) ==
  LET id == Len(ob) + 1
  IN
  CASE e.op = "New" ->
         [ r |-> NewObj(Len(hp), id, e.kind, EChain(e), e.shape, e.u, e.input), x |-> {} ]
    [] e.op = "Stack" ->
         LET input == E(StackVals(hp, ob, e.hs))
             shape == IF e.kind = "Buffer" THEN <<Len(input)>> ELSE e.oshape \o ob[e.hs[1]].shape
         IN  [ r |-> NewObj(Len(hp), id, e.kind, EChain(e), shape, e.u, input), x |-> {} ]
    [] e.op = "BufOver" ->
         [ r |-> BufferOver(Len(hp), id, e.input, e.off, e.n, e.u), x |-> {} ]
    [] e.op = "StridedOver" ->
         [ r |-> [new |-> <<>>, obj |-> StridedOver(ob[e.h], e.shape, e.strides, e.shift)],
           x |-> {} ]
    [] e.op = "SparseOver" ->
         [ r |-> [new |-> <<>>, obj |-> SparseOver(ob[e.h], e.kind, e.shape, e.ps)], x |-> {} ]
    [] e.op = "DMOver" ->
         [ r |-> [new |-> <<>>, obj |-> DMOver(ob[e.h], e.shape, Parts(e.dims, e.part))],
           x |-> {} ]
    [] e.op = "Slice" ->
         LET o == ob[e.h]
             index == FullIndex(e.index, Len(o.shape))
         IN  \* stored elements equal to the marker may be dropped by slicing
             [ r |-> IF o.k \in SparseKinds /\ logged # <<>>
                     THEN SliceWith(hp, id, o, index,
                                    LAMBDA q, v : v # o.u \/ (q <= Len(logged) /\ logged[q]))
                     ELSE SliceObj(hp, id, o, index),
               x |-> {} ]
    [] e.op = "Win" ->
         LET w == Window(ob[e.h], e.sl)
         IN  [ r |-> [new |-> <<>>, obj |-> IF w[1] = "ok" THEN WindowObj(ob[e.h], w[2], w[3])
                                            ELSE ob[e.h]],
               x |-> If(w[1] = "ok", "noerror") ]
    [] e.op = "Conv" ->
         LET o == ob[e.h]
             n == NElems(o)
             skind == IF e.kind = "DM" THEN e.skind ELSE e.kind
             shape == ConvShape(o, e.kind)
             u == EffU(ob, e)
             auto == SpecPattern(skind, Remark(Vals(hp, o), o.u, u), u)
             \* an explicit marker: elements equal to it are not stored
             okp == /\ e.kind \in SparseKinds /\ ~e.ue /\ logged # <<>>
                    /\ ConvPatternOK(hp, o, skind, u, logged)
             pat == IF okp THEN logged ELSE auto
         IN  IF same
             THEN [ r |-> [new |-> <<>>, obj |-> o],
                    x |-> If(o.k = e.kind /\ ~e.ue, "share")
                          \cup If(e.kind = "DM" => (o.contig /\ o.d = EChain(e)), "map") ]
             ELSE [ r |-> ConvObj(hp, id, o, e.kind, EChain(e), shape, u, pat, "conv"),
                    x |-> {} ]
    [] e.op = "Copy" ->
         [ r |-> CopyObj(hp, id, ob[e.h], EffU(ob, e)), x |-> If(~same, "share") ]

\* heap after an assignment
Written(hp, ob, e) ==
  IF e.op = "BufSet" THEN BufferAssignHeap(hp, ob[e.h], e.i, e.val)
  ELSE AssignHeap(hp, ob[e.h], FullIndex(e.index, Len(ob[e.h].shape)), SetVals(hp, ob, e))
(* ---- requests that have no answer --------------------------------------------- *)
\* Items of an index: <<0, i>> an integer, <<1>> None, <<2, ...>> a slice,
\* <<3>> anything else.
\* (surplus items that are None are ignored: no claim)
IllFormedIndex(shape, index) ==
  \E i \in 1..Len(index) :
     \/ index[i][1] = 3
     \/ index[i][1] # 1 /\ i > Len(shape)
     \/ index[i][1] = 0 /\ shape[i] = 0

\* dimensions and partitioning of a mapping of n axes (surplus dimensions are
\* ignored, parts may be empty: no claim)
IsMapping(n, dims, part) ==
  /\ Len(dims) >= n
  /\ {dims[i] : i \in 1..n} = 0..(n - 1)
  /\ \A i \in 1..Len(part) : part[i] \in 1..(n - 1) /\ (i > 1 => part[i - 1] <= part[i])

\* Explicit constructions: kind, shape, strides, number of indices (n), length of
\* the compressed rows (m), values (array h); windows: n items at m of Len(base).
Consistent(ob, e) ==
  CASE e.kind = "Buffer"  -> e.m >= 0 /\ e.m + e.n <= Len(ob[e.h].base)
    [] e.kind = "Strided" -> Len(e.strides) = Len(e.shape)
    [] e.kind \in {"COO", "FlatCOO"} -> e.n = ob[e.h].shape[1]
    [] e.kind = "CSR" -> Len(e.shape) = 2 /\ e.m = e.shape[1] + 1 /\ e.n = ob[e.h].shape[1]
    [] e.kind = "DM" -> {e.strides[i] : i \in 1..Len(e.strides)} = 0..(Len(e.shape) - 1)

IllFormed(ob, e) ==
  CASE e.what \in {"get", "set"} /\ ob[e.h].k # "Buffer" -> IllFormedIndex(ob[e.h].shape, e.index)
    [] e.what \in {"get", "set"} ->      \* one integer (or, reading, a slice: Win)
         \/ Len(e.index) # 1
         \/ e.index[1][1] = 3
         \/ e.what = "set" /\ e.index[1][1] # 0
         \/ LET n == Len(ob[e.h].base)
            IN  e.index[1][1] = 0 /\ ob[e.h].off + e.index[1][2] \notin (-n)..(n - 1)
    [] e.what = "conv" /\ e.kind = "CSR" -> Len(ob[e.h].shape) # 2
    [] e.what = "conv" /\ e.kind = "DM" ->
         ~IsMapping(Len(ob[e.h].shape), e.levels[1].dims, e.levels[1].part)
    [] e.what = "ctor" -> ~Consistent(ob, e)
    [] e.what = "ragged" -> \E i \in 1..Len(e.rows) : e.rows[i] < e.rows[1]

(* ---- comparing: arrays whose layout is determined by the content ---------- *)
\* may the layouts of two arrays with the same content differ?
CanonEq(a, b) ==
  \/ a.k \in SparseKinds
  \/ a.k = "Buffer"
  \/ a.k = "Strided" /\ a.contig /\ b.contig
  \/ a.k = "DM" /\ a.contig /\ b.contig

SamePattern(a, b) ==
  \A q \in 1..Len(a.cells) : (a.cells[q] = 0) = (b.cells[q] = 0)
=============================================================================
