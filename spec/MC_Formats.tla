------------------------------ MODULE MC_Formats ------------------------------
(***************************************************************************)
(* The state machine of gcs.storage: programs of public operations on a    *)
(* growing set of arrays, executed by the algorithms of Formats (mem, reps) *)
(* and by ArrayHeap (heap, objs) in lockstep.                               *)
(*                                                                          *)
(* Checked: the formats refine ArrayHeap (Refines), every representation is *)
(* well formed, views and copies share exactly the elements they should,    *)
(* operations other than assignments change nothing, assignments change     *)
(* exactly the selected elements.                                           *)
(*                                                                          *)
(* The same machine generates the operation programs that are executed on   *)
(* the real code (Emit): all of them up to a depth, or random ones (Sim,    *)
(* TLC -simulate, where every choice is one random pick).                   *)
(***************************************************************************)
EXTENDS ArrayOps, Formats, Json

CONSTANTS Shapes,     \* shapes of new arrays
          NewKinds,   \* formats of new arrays
          MaxOps,     \* operations of a program
          MaxObjs,    \* arrays made by New
          Sim,        \* random choices
          Emit,       \* print the programs of MaxOps operations
          Mix         \* sequence of operations to choose from (weights of a random choice)

VARIABLES heap, objs,   \* ArrayHeap
          mem, reps,    \* Formats
          hist,         \* the program
          bad           \* violated clauses of the operations
vars == <<heap, objs, mem, reps, hist, bad>>
\* (a rejected request leaves no trace in the state: the programs that end with
\* different ones are told apart)
view == <<heap, objs, mem, reps, bad, Len(hist),
          IF hist # <<>> /\ hist[Len(hist)].op = "Bad" THEN hist[Len(hist)] ELSE <<>>>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S

\* values for the constant Shapes
ShapesTiny  == {<<3>>, <<2, 2>>}
ShapesOne   == {<<2>>, <<1>>, <<0>>}
ShapesCube  == {<<2, 1, 2>>}
ShapesTwo   == {<<2>>, <<1, 2>>}
ShapesSmall == {<<1>>, <<3>>, <<0>>, <<2, 2>>, <<1, 3>>, <<2, 1>>, <<2, 0>>}
ShapesMore  == ShapesSmall \cup {<<4>>, <<0, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<1, 2, 2>>, <<2, 1, 2>>}
ShapesSim   == ShapesMore \cup {<<5>>, <<7>>, <<3, 4>>, <<1, 1>>, <<2, 3, 2>>, <<3, 1, 2>>, <<2, 0, 2>>,
                                <<2, 1, 2, 2>>, <<2, 2, 1, 3>>}

\* values for the constant Mix
MixAll   == <<"New", "Slice", "Win", "Conv", "Copy", "DMOver", "SparseOver", "Set", "SetFrom", "BufSet">>
MixNew    == <<"New">>
MixSl     == <<"Slice">>
MixSlSet  == <<"Slice", "Set">>
MixSetB   == <<"Set", "BufSet">>
MixCv     == <<"Conv">>
MixCvCp   == <<"Conv", "Copy">>
MixSetCv  == <<"Set", "Conv">>
MixCp     == <<"Copy">>
MixCpSet  == <<"Copy", "Slice", "Set", "BufSet">>
MixWin    == <<"Win", "BufSet", "Copy">>
MixOver   == <<"DMOver", "Slice">>
MixExpl   == <<"BufOver", "StridedOver", "SparseOver", "DMOver">>
MixStack  == <<"Stack">>
MixReord  == <<"StridedOver", "Conv">>
MixBufO   == <<"BufOver", "Win", "BufSet">>
MixBad    == <<"Bad">>
MixSlBad  == <<"Slice", "Bad">>
MixMake   == <<"Slice", "Win", "Conv", "Copy", "DMOver", "SparseOver">>
MixHeap  == <<"New", "Slice", "Slice", "Win", "Conv", "Copy", "Set", "Set", "SetFrom", "BufSet", "SparseOver", "DMOver",
              "StridedOver", "Stack", "BufOver">>
MixSlice == <<"New", "Slice", "Slice", "Slice", "Slice", "Conv", "Set">>
MixSet   == <<"New", "Slice", "Slice", "Conv", "Copy", "Set", "Set", "Set", "SetFrom", "BufSet">>
MixConv  == <<"New", "StridedOver", "Slice", "Conv", "Conv", "Conv", "Copy", "Set">>
MixCopy  == <<"New", "Slice", "Conv", "Copy", "Copy", "Set", "Set", "SetFrom", "BufSet">>
MixBuf   == <<"New", "BufOver", "StridedOver", "Win", "Win", "Copy", "Conv", "BufSet", "BufSet", "SparseOver", "DMOver", "Slice", "Set">>
MixDM    == <<"New", "DMOver", "Conv", "Slice", "Slice", "Slice", "Set", "Copy">>

MARK == 5    \* value that also occurs as a marker

(* ---- choices ---------------------------------------------------------------- *)
MaxSize == Max({0} \cup UNION {Range(s) : s \in Shapes})
\* one slice per distinct selection
RawSlices(n) == {FULL} \cup {SLICE(a, b, c) : a \in -n..n, b \in -(n + 1)..n, c \in (-Max2(n, 1)..Max2(n, 1)) \ {0}}
SliceItems(n) ==
  LET raw == RawSlices(n)
      sels == {PySel(it, n) : it \in raw}
  IN  {CHOOSE it \in raw : PySel(it, n) = s : s \in sels}
SimItems(n) ==
  {<<2, ha, IF ha = 0 THEN 0 ELSE a, hb, IF hb = 0 THEN 0 ELSE b, hc, IF hc = 0 THEN 0 ELSE c>> :
     ha \in {0, 1}, a \in -(n + 2)..(n + 2), hb \in {0, 1}, b \in -(n + 2)..(n + 2),
     hc \in {0, 1}, c \in {-3, -2, -1, 1, 2, 3}}
IntItems(n) == {INT(i) : i \in (IF Sim THEN -n..(n - 1) ELSE {i \in {0, -1, 1} : -n <= i /\ i < n})}
ItemTab == [n \in 0..(MaxSize * MaxSize * MaxSize) |->
              IF n > 2 * MaxSize THEN {NONE} \cup IntItems(n) \cup {FULL, SLICE(1, n - 1, 2), SLICE(-1, 0, -1)}
              ELSE {NONE} \cup IntItems(n) \cup (IF Sim THEN SimItems(n) ELSE SliceItems(n))]

SliceOnlyTab == [n \in DOMAIN ItemTab |-> ItemTab[n] \ IntItems(n)]
\* in a random program half of the items are not integers
SimItem(n) == IF RandomElement({0, 1}) = 0 THEN RandomElement(SliceOnlyTab[n])
              ELSE RandomElement(ItemTab[n])
RECURSIVE Indices(_)
Indices(shape) ==
  IF shape = <<>> THEN {<<>>}
  ELSE IF Sim THEN {<<SimItem(shape[1])>> \o r : r \in Indices(Tail(shape))}
  ELSE {<<it>> \o r : it \in ItemTab[shape[1]], r \in Indices(Tail(shape))}

Perms(n) == {p \in [1..n -> 0..(n - 1)] : {p[i] : i \in 1..n} = 0..(n - 1)}
Cuts(n) == {SetToSortSeq(S, LAMBDA x, y : x < y) : S \in SUBSET (1..(n - 1))}
Mappings(n) == {[dims |-> d, part |-> c] : d \in Perms(n), c \in Cuts(n)}

\* storage of a mapping with m parts: [skind, levels below]
Storages(m) ==
  {[skind |-> s, below |-> <<>>] :
     s \in {"Strided", "COO", "FlatCOO"} \cup (IF m = 1 THEN {"Buffer"} ELSE {})
                                         \cup (IF m = 2 THEN {"CSR"} ELSE {})}
  \cup (IF m < 2 THEN {} ELSE
        {[skind |-> s, below |-> <<[dims |-> Iota(m), part |-> <<m - 1>>]>>] : s \in {"Strided", "COO"}})

FitsAxes(k, n) == CASE k = "CSR" -> n = 2 [] k = "Buffer" -> n = 1 [] OTHER -> n > 0
\* formats for an array of n axes: [kind, skind, levels]
TargetsOf(k, n) ==
  IF k # "DM" THEN {[kind |-> k, skind |-> k, levels |-> <<>>]}
  ELSE UNION {{[kind |-> "DM", skind |-> s.skind, levels |-> <<mp>> \o s.below] :
                  s \in Storages(Len(mp.part) + 1)} : mp \in Pick(Mappings(n))}
Targets(kinds, n) == UNION {Pick(TargetsOf(k, n)) : k \in Pick({k \in kinds : FitsAxes(k, n)})}

\* inputs: which elements are given, and whether one has the marker's value
Inputs(n) ==
  IF Sim THEN {E([q \in 1..n |-> RandomElement({NIL, MARK, 10 + q, 10 + q + n})])}
  ELSE
  LET pats == IF n <= 4 THEN SUBSET (1..n)
              ELSE {1..n, {}, {q \in 1..n : q % 2 = 1}, {2, n}, 2..n}
  IN  {E([q \in 1..n |-> IF q \in p THEN 10 + q ELSE NIL]) : p \in pats}
      \cup {E([q \in 1..n |-> IF q % 2 = 0 THEN MARK ELSE 10 + q])}

Markers == {[ue |-> FALSE, u |-> NIL], [ue |-> TRUE, u |-> MARK], [ue |-> TRUE, u |-> 11]}

(* ---- operations -------------------------------------------------------------- *)
SparsePattern(r) == E([q \in 1..Product(r.shape) |-> Addr(r, Unrank(q - 1, r.shape)) # NOWHERE])

\* an array is made: c, its representation and memory; e, the operation
MakeStep(e, c, same) ==
  LET m == Made(heap, objs, e, IF c.r.k \in SparseKinds THEN SparsePattern(c.r) ELSE <<>>, same)
  IN  /\ heap' = heap \o m.r.new
      /\ objs' = Append(objs, m.r.obj)
      /\ mem' = c.m
      /\ reps' = Append(reps, c.r)
      /\ hist' = Append(hist, e)
      /\ bad' = bad \cup m.x

GroupsOf(levels) == E([i \in 1..Len(levels) |-> Parts(levels[i].dims, levels[i].part)])

DoNew ==
  /\ Cardinality({h \in 1..Len(hist) : hist[h].op = "New"}) < MaxObjs
  /\ \E k \in Pick(NewKinds) : \E shape \in Pick({s \in Shapes : FitsAxes(k, Len(s))}) :
       \E t \in Targets({k}, Len(shape)), mk \in Pick(Markers), input \in Pick(Inputs(Product(shape))) :
       LET e == [op |-> "New", kind |-> t.kind, skind |-> t.skind, levels |-> t.levels,
                 shape |-> shape, u |-> mk.u, ue |-> mk.ue, input |-> input,
                 x |-> [nshape |-> shape]]
       IN  MakeStep(e, E(NewRep(mem, t.kind, GroupsOf(t.levels), t.skind, shape, mk.u, input)), FALSE)

\* arrays to operate on (random programs look at recent ones more often)
Handles(K) ==
  LET hs == {h \in 1..Len(objs) : objs[h].k \in K /\ objs[h].shape # <<>>}
  IN  IF ~Sim \/ hs = {} THEN hs
      ELSE IF RandomElement({0, 1}) = 0 THEN {Max(hs)} ELSE {RandomElement(hs)}
NotBuffer == Kinds \ {"Buffer"}

DoSlice ==
  \E h \in Handles(NotBuffer) :
    /\ \E index \in Indices(objs[h].shape) :
         /\ ~IsElementIndex(index)
         /\ LET e == [op |-> "Slice", h |-> h, index |-> index, x |-> [s |-> 0]]
            IN  MakeStep(e, E(SliceRep(mem, reps[h], E(NormIndex(index, objs[h].shape)))), FALSE)

DoWin ==
  \E h \in Handles({"Buffer"}) :
    /\ \E it \in Pick({FULL} \cup {<<2, 1, a, hb, b, 0, 0>> : a \in -1..2, hb \in {0, 1}, b \in 0..3}) :
         LET w == WinRep(mem, reps[h], it)
             aw == Window(objs[h], it)
             e == [op |-> "Win", h |-> h, sl |-> it, x |-> [s |-> 0]]
         IN  IF (w = <<>>) # (aw[1] # "ok")
             THEN bad' = bad \cup {"win"} /\ UNCHANGED <<heap, objs, mem, reps, hist>>
             ELSE w # <<>> /\ MakeStep(e, [m |-> mem, r |-> w[1]], FALSE)

DoConv ==
  \E h \in Handles(Kinds) : \E t \in Targets(Kinds, Len(objs[h].shape)), mk \in Pick(Markers) :
    LET e == [op |-> "Conv", h |-> h, kind |-> t.kind, skind |-> t.skind, levels |-> t.levels,
              u |-> mk.u, ue |-> mk.ue, x |-> [s |-> 0]]
        \* a conversion to the format an array already has returns the array
        same == ~mk.ue /\ t.kind = objs[h].k /\ t.kind # "DM"
    IN  MakeStep(e, E(ConvRep(mem, reps[h], t.kind, GroupsOf(t.levels), t.skind, mk.ue, mk.u)), same)

DoCopy ==
  \E h \in Handles(Kinds) : \E mk \in Pick(Markers) :
    LET e == [op |-> "Copy", h |-> h, u |-> mk.u, ue |-> mk.ue, x |-> [s |-> 0]]
    IN  MakeStep(e, E(CopyRep(mem, reps[h], IF mk.ue THEN mk.u ELSE UOf(reps[h]))), FALSE)

\* explicit construction over an array
DoDMOver ==
  \E h \in Handles(Kinds) :
    LET fits == {<<s, mp>> \in UNION {{s} \X Mappings(Len(s)) : s \in Shapes} :
                   ReducedShape(s, Parts(mp.dims, mp.part)) = objs[h].shape}
    IN  \E c \in Pick(fits) :
          LET s == c[1]
              g == E(Parts(c[2].dims, c[2].part))
              e == [op |-> "DMOver", h |-> h, shape |-> s, dims |-> c[2].dims, part |-> c[2].part,
                    x |-> [s |-> 0]]
          IN  MakeStep(e, [m |-> mem,
                           r |-> [k |-> "DM", shape |-> s, g |-> g,
                                  rs |-> E([k \in 1..Len(g) |-> PartStrides(s, g[k])]),
                                  ro |-> Const(Len(g), 0), data |-> reps[h]]], FALSE)

DoSparseOver ==
  \E h \in Handles({"Buffer"}) :
    /\ \E s \in Pick({s \in Shapes : Product(s) >= NElems(objs[h])}) :
       \E k \in Pick({"COO", "FlatCOO"} \cup (IF Len(s) = 2 THEN {"CSR"} ELSE {})),
          S \in Pick(kSubset(NElems(objs[h]), 0..(Product(s) - 1))) :
         LET ps == SetToSortSeq(S, LAMBDA x, y : x < y)
             ixs == E([j \in 1..Len(ps) |-> Unrank(ps[j], s)])
             r == CASE k = "COO" -> CooRep(s, ixs, reps[h])
                    [] k = "FlatCOO" -> FlatRep(s, ps, reps[h])
                    [] k = "CSR" -> CsrRep(s, E([j \in 1..Len(ixs) |-> ixs[j][1]]),
                                           E([j \in 1..Len(ixs) |-> ixs[j][2]]), reps[h])
             e == [op |-> "SparseOver", h |-> h, kind |-> k, shape |-> s, ps |-> ps, x |-> [s |-> 0]]
         IN  MakeStep(e, [m |-> mem, r |-> E(r)], FALSE)

\* Strided(shape, strides, b[shift:]): the axes of a contiguous layout in any
\* order, forwards or backwards
DoStridedOver ==
  \E h \in Handles({"Buffer"}) :
    \E s \in Pick({s \in Shapes : Product(s) \in 1..NElems(objs[h])}) :
    \E p \in Pick(Perms(Len(s))), sg \in Pick({1, -1}),
       at \in Pick(0..(NElems(objs[h]) - Product(s))) :
      LET st == E([i \in 1..Len(s) |->
                     sg * Product(E([j \in 1..Len(s) |-> IF p[j] > p[i] THEN s[j] ELSE 1]))])
          shift == at + (IF sg = 1 THEN 0 ELSE Product(s) - 1)
          w == WinRep(mem, reps[h], <<2, 1, shift, 0, 0, 0, 0>>)
          e == [op |-> "StridedOver", h |-> h, shape |-> s, strides |-> st, shift |-> shift,
                x |-> [s |-> 0]]
      IN  MakeStep(e, [m |-> mem, r |-> [k |-> "Strided", shape |-> s, strides |-> st,
                                         data |-> w[1]]], FALSE)

\* fromobject([a, b, ...]): a list of arrays of one shape
DoStack ==
  \E h \in Handles(Kinds), n \in Pick(1..2) :
    LET shape == <<n>> \o objs[h].shape
    IN  \E g \in Pick({g \in 1..Len(objs) : objs[g].shape = objs[h].shape}) :
        \E t \in Targets(NewKinds \ {"Buffer"}, Len(shape)), mk \in Pick(Markers) :
          LET hs == E([i \in 1..n |-> IF i = 1 THEN h ELSE g])
              e == [op |-> "Stack", kind |-> t.kind, skind |-> t.skind, levels |-> t.levels, hs |-> hs,
                    oshape |-> <<n>>, u |-> mk.u, ue |-> mk.ue, x |-> [s |-> 0]]
              input == FoldLeft(LAMBDA v, i : v \o ReadAll(mem, reps[i]), <<>>, hs)
          IN  MakeStep(e, E(NewRep(mem, t.kind, GroupsOf(t.levels), t.skind, shape, mk.u, input)), FALSE)

\* Buffer(n, off, sequence)
DoBufOver ==
  /\ Cardinality({h \in 1..Len(hist) : hist[h].op \in {"New", "BufOver"}}) < MaxObjs
  /\ \E len \in Pick(0..3) : \E off \in Pick(0..len) : \E n \in Pick(0..(len - off)) :
       \E input \in Pick(Inputs(len)), u \in Pick({NIL, MARK}) :
       LET e == [op |-> "BufOver", n |-> n, off |-> off, input |-> input, u |-> u,
                 x |-> [seq |-> "list"]]
           b == E(NewBuf(mem, input, u))
       IN  MakeStep(e, [m |-> b.m, r |-> Buf(b.r.l, off, n, u)], FALSE)

\* requests that have no answer: nothing changes
BadItems == {INT(0), INT(-1), NONE, FULL, SLICE(0, 1, 1), <<3>>}
DoBad ==
  \E h \in Handles(Kinds), what \in Pick({"get", "set"}) :
    LET o == objs[h]
        n == Len(o.shape)
        fits(i) == \A j \in 1..Min2(n, Len(i)) : o.shape[j] = 0 => i[j] \notin {INT(-1), SLICE(0, 1, 1)}
        ixs == IF o.k = "Buffer"
               THEN LET m == Len(o.base)
                    IN  {<<INT(m - o.off)>>, <<INT(m - o.off + 4)>>, <<INT(-m - o.off - 1)>>, <<>>,
                         <<INT(0), INT(0)>>, <<<<3>>>>}
                        \cup (IF what = "set" THEN {<<FULL>>, <<NONE>>} ELSE {})
               ELSE {i \in UNION {[1..k -> BadItems] : k \in 1..(n + 1)} : fits(i)}
    IN  \E index \in Pick({i \in ixs : IllFormed(objs, [what |-> what, h |-> h, index |-> i])}) :
          /\ hist' = Append(hist, [op |-> "Bad", what |-> what, kind |-> "-", h |-> h, index |-> index,
                                   val |-> 1000 + 20 * Len(hist), x |-> [s |-> 0]])
          /\ UNCHANGED <<heap, objs, mem, reps, bad>>

\* assignment of given values: fresh ones, or the marker
FreshVals(n) == E([q \in 1..n |-> 1000 + 20 * Len(hist) + q])
DoSet ==
  \E h \in Handles(NotBuffer) :
    /\ \E index \in Indices(objs[h].shape) :
       LET vshape == E(SliceShape(index, objs[h].shape))
           n == Product(vshape)
       IN  \E vals \in Pick({FreshVals(n), Const(n, objs[h].u)}) :
           LET e == [op |-> "Set", h |-> h, index |-> index, vals |-> vals, vh |-> 0,
                     x |-> [vshape |-> vshape]]
           IN  /\ heap' = Written(heap, objs, e)
               /\ mem' = WriteMem(mem, reps[h], E(NormIndex(index, objs[h].shape)), vals)
               /\ hist' = Append(hist, e)
               /\ UNCHANGED <<objs, reps, bad>>

\* a[index] = b for an array b of the right shape that shares no element with a
DoSetFrom ==
  \E h \in Handles(NotBuffer), g \in Handles(Kinds) :
    /\ ~SharesCell(objs[h], objs[g])
    /\ \E index \in Indices(objs[h].shape) :
       LET vshape == E(SliceShape(index, objs[h].shape))
           e == [op |-> "Set", h |-> h, index |-> index, vals |-> <<>>, vh |-> g,
                 x |-> [vshape |-> vshape]]
       IN  /\ vshape = objs[g].shape /\ vshape # <<>>
           /\ heap' = Written(heap, objs, e)
           /\ mem' = WriteMem(mem, reps[h], E(NormIndex(index, objs[h].shape)), ReadAll(mem, reps[g]))
           /\ hist' = Append(hist, e)
           /\ UNCHANGED <<objs, reps, bad>>

DoBufSet ==
  \E h \in Handles({"Buffer"}) :
    /\ NElems(objs[h]) > 0
    /\ \E i \in Pick(0..(NElems(objs[h]) - 1)) :
         LET e == [op |-> "BufSet", h |-> h, i |-> i, val |-> 1000 + 20 * Len(hist), x |-> [s |-> 0]]
         IN  /\ heap' = Written(heap, objs, e)
             /\ mem' = [mem EXCEPT ![reps[h].l][reps[h].off + i + 1] = e.val]
             /\ hist' = Append(hist, e)
             /\ UNCHANGED <<objs, reps, bad>>

Init == heap = <<>> /\ objs = <<>> /\ mem = <<>> /\ reps = <<>> /\ hist = <<>> /\ bad = {}

Do(op) ==
  CASE op = "New"        -> DoNew
    [] op = "Slice"      -> DoSlice
    [] op = "Win"        -> DoWin
    [] op = "Conv"       -> DoConv
    [] op = "Copy"       -> DoCopy
    [] op = "DMOver"     -> DoDMOver
    [] op = "SparseOver" -> DoSparseOver
    [] op = "StridedOver" -> DoStridedOver
    [] op = "Stack"      -> DoStack
    [] op = "BufOver"    -> DoBufOver
    [] op = "Bad"        -> DoBad
    [] op = "Set"        -> DoSet
    [] op = "SetFrom"    -> DoSetFrom
    [] op = "BufSet"     -> DoBufSet

Step_ == /\ Len(hist) < MaxOps
         /\ \E op \in (IF hist = <<>> THEN {"New"} \cup (Range(Mix) \cap {"BufOver"}) ELSE IF Sim THEN {Mix[RandomElement(DOMAIN Mix)]}
                       ELSE Range(Mix)) : Do(op)
\* the operation picked at random is not possible: pick again
Again == Sim /\ Len(hist) < MaxOps /\ UNCHANGED vars
Output == /\ Emit /\ Len(hist) = MaxOps
         /\ PrintT("PROGRAM " \o ToJson(hist))
         /\ FALSE
         /\ UNCHANGED vars
Next == Step_ \/ Output
Spec == Init /\ [][Next]_vars
\* random programs (TLC picks one of the disjuncts at random)
NextSim == Step_ \/ Step_ \/ Step_ \/ Step_ \/ Again \/ Output
SpecSim == Init /\ [][NextSim]_vars

(* ---- refinement ------------------------------------------------------------------ *)
\* the array made last (the others are looked at by Others)
Clauses(h) ==
  LET o == objs[h]
      r == reps[h]
      v == Vals(heap, o)
      en == E(Enumerated(o))
      ob == E(Observed(mem, r))
      rv == ob.vals
      murky == \E q \in 1..Len(v) : o.cells[q] # 0 /\ v[q] = o.u
  IN  If(r.k = o.k /\ r.shape = o.shape /\ ChainOf(r) = o.d, "kind")
      \cup If(UOf(r) = o.u, "marker")
      \cup If(rv = v, "vals")
      \cup If(Elements(mem, r) = [j \in 1..Len(en) |-> <<Unrank(en[j], o.shape), v[en[j] + 1]>>], "els")
      \cup If(r.k \in SparseKinds => StoredPositions(ob) = en, "stored")
      \cup If(WellFormed(ob), "wf")
      \cup If(o.k # "DM" => SizeImpl(r) = SizeOf(o), "size")
      \cup If((murky /\ ~IsDenseObj(o)) \/ FullImpl(mem, r) = IsFull(o), "full")
      \cup If(r.k = "DM" => MapOK(ob, ob.vals), "map")

\* (in random programs only arrays the last operation could have touched)
Touched == IF ~Sim \/ (hist # <<>> /\ hist[Len(hist)].op \in {"Set", "BufSet"}) THEN 1..Len(objs)
           ELSE {Len(objs)} \ {0}
Refines == \A h \in Touched : Clauses(h) = {}
NoBad == bad = {}

\* two arrays share an element exactly if they share a cell: cells and
\* addresses correspond one to one
Shares ==
  LET ad == E([h \in 1..Len(reps) |-> Addrs(reps[h])])
      pairs == E(UNION {{<<objs[h].cells[q], ad[h][q]>> : q \in 1..NElems(objs[h])} : h \in 1..Len(objs)})
  IN  /\ \A h \in 1..Len(objs) : Len(ad[h]) = NElems(objs[h])
      /\ Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
      /\ Cardinality({p[2] : p \in pairs}) = Cardinality(pairs)
      /\ \A p \in pairs : (p[1] = 0) = (p[2] = NOWHERE)

\* comparing
Compares ==
  LET els == E([h \in 1..Len(reps) |-> Range(Elements(mem, reps[h]))])
      aels == E([h \in 1..Len(objs) |-> ElementSet(heap, objs[h])])
  IN  \A g, h \in 1..Len(objs) :
        LET a == objs[g]
            b == objs[h]
            elsame == aels[g] = aels[h]
        IN  /\ (els[g] = els[h]) = elsame
            /\ a.k = b.k =>
                 LET same == SameContent(heap, a, b)
                     eq == EqImpl(mem, reps[g], reps[h])
                 IN  /\ eq => same
                     /\ (same /\ elsame /\ a.d = b.d /\ SamePattern(a, b) /\ CanonEq(a, b)) => eq
                     /\ g = h => eq

(* ---- ArrayHeap ------------------------------------------------------------------- *)
TypeInv == \A h \in 1..Len(objs) : ObjOK(heap, objs[h]) /\ Injective(objs[h])
\* elements are shared within a family of views only
Families == \A g, h \in 1..Len(objs) : SharesCell(objs[g], objs[h]) => objs[g].root = objs[h].root

Writing == Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"Set", "BufSet"}
\* operations that are not assignments change no existing array
Frame == [][~Writing => \A h \in 1..Len(objs) :
              /\ objs'[h] = objs[h]
              /\ Vals(heap', objs[h]) = Vals(heap, objs[h])]_vars
\* an assignment changes the selected elements of the target, and other
\* arrays only in the elements they share with these
WriteFrame ==
  [][Writing =>
       LET e == hist'[Len(hist')]
           t == objs[e.h]
           src == IF e.op = "BufSet" THEN <<e.i>> ELSE SliceSources(FullIndex(e.index, Len(t.shape)), t.shape)
           cells == {t.cells[src[q] + 1] : q \in 1..Len(src)} \ {0}
           vals == IF e.op = "BufSet" THEN <<e.val>> ELSE SetVals(heap, objs, e)
       IN  /\ \A h \in 1..Len(objs) : \A p \in 1..NElems(objs[h]) :
                objs[h].cells[p] \notin cells =>
                  Vals(heap', objs[h])[p] = Vals(heap, objs[h])[p]
           /\ \A q \in 1..Len(src) :
                t.cells[src[q] + 1] # 0 => Vals(heap', t)[src[q] + 1] = vals[q]
           /\ objs' = objs]_vars
=============================================================================
