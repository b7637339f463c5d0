------------------------------ MODULE SparseTrace ------------------------------
(***************************************************************************)
(* Trace validation of programs over sparse arrays of any shape (10^9 by   *)
(* 10^9, say), where ArrayHeap's row-major list of all elements cannot be  *)
(* written down.  An array is the list of its specified elements:          *)
(*   k, d, shape, u, root, org   as in ArrayHeap                           *)
(*   idx    index tuples of the specified elements, in lexicographic order *)
(*          for COO, FlatCOO and CSR (a DM array lists them as its storage *)
(*          does)                                                           *)
(*   cells  their cells                                                     *)
(* Every operator here is that of ArrayHeap restricted to the specified    *)
(* elements: which elements are selected, shared or copied is decided by   *)
(* the same SharesSlice, SliceChain, DropsMarked.  MC_Sparse checks that.  *)
(***************************************************************************)
EXTENDS SparseHeap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap, objs, dead, fails, seen
vars == <<l, heap, objs, dead, fails, seen>>

ChgOf(e, h) == SelectSeq(e.chg, LAMBDA c : c.h = h)
FrameFails(e) == If(e.chg = <<>>, "frame")
ReadOnlyFails(e) == FrameFails(e) \cup If(e.again, "again") \cup If(e.src, "src")

\* elements of a sparse array as they are to be enumerated
SVals(hp, o) == [i \in 1..Len(o.cells) |-> hp[o.cells[i]]]

ReadOK(hp, o, probes, pvals) ==
  /\ Len(probes) = Len(pvals)
  /\ \A i \in 1..Len(probes) : pvals[i] = SRead(hp, o, probes[i])
NegOK(o, probes, nprobes) == \A i \in 1..Len(nprobes) :
                               nprobes[i] = [j \in 1..Len(o.shape) |-> probes[i][j] - o.shape[j]]

BInts(s) == [i \in 1..Len(s) |-> BInt(s[i])]

\* the stored index structure (bigs: flat positions)
RepOK(o, r) ==
  CASE o.k = "COO" -> /\ Len(r.rows) = Len(o.shape)
                      /\ \A j \in 1..Len(r.rows) :
                           r.rows[j] = [i \in 1..Len(o.idx) |-> o.idx[i][j]]
    [] o.k = "FlatCOO" -> LET cs == E([i \in 1..Len(o.shape) |->
                                        BProd(BInts(SubSeq(o.shape, i + 1, Len(o.shape))))])
                          IN  r.f = [i \in 1..Len(o.idx) |-> BDot(BInts(o.idx[i]), cs)]
    [] o.k = "CSR" -> /\ CompressedOK([i \in 1..Len(o.idx) |-> o.idx[i][1]], o.shape[1], r.crow)
                      /\ r.cols = [i \in 1..Len(o.idx) |-> o.idx[i][2]]
    [] OTHER -> TRUE

Full(o) == BInt(Len(o.idx)) = BProd(BInts(o.shape))
Murky(hp, o) == \E i \in 1..Len(o.cells) : hp[o.cells[i]] = o.u

ObsFails(o, hp, ob) ==
  IF ~(ob.k = o.k /\ ob.shape = o.shape)
  THEN If(ob.k = o.k, "kind") \cup If(ob.shape = o.shape, "shape")
  ELSE If(ob.u = o.u, "marker")
       \cup If(ReadOK(hp, o, ob.probes, ob.pvals), "vals")
       \cup If(ReadOK(hp, o, ob.probes, ob.nvals), "nvals")
       \cup If(ob.len = o.shape[1], "len")
       \cup If(~ob.fk \/ Murky(hp, o) \/ ob.full = Full(o), "full")
       \cup IF o.k = "DM" THEN {}
            ELSE If(ob.eidx = o.idx /\ ob.evals = SVals(hp, o), "els")
                 \cup If(ob.size = Len(o.idx), "size")
                 \cup If(RepOK(o, ob.rep), "wf")

(* ---- arrays made ----------------------------------------------------------- *)
MadeBy(e) ==
  LET id == Len(objs) + 1
  IN  CASE e.op = "SparseOver" -> [ r |-> SNew(Len(heap), id, e.kind, e.shape, e.u, e.idx, e.vals), x |-> {} ]
        [] e.op = "DMOver" -> [ r |-> [new |-> <<>>, obj |-> SDMOver(objs[e.h], e.shape, Parts(e.dims, e.part))],
                                x |-> {} ]
        [] e.op = "Slice" -> [ r |-> SSlice(heap, id, objs[e.h], FullIndex(e.index, Len(objs[e.h].shape))),
                               x |-> {} ]
        [] e.op = "Conv" -> IF e.same THEN [ r |-> [new |-> <<>>, obj |-> objs[e.h]],
                                             x |-> If(objs[e.h].k = e.kind, "share") ]
                            ELSE [ r |-> SConv(heap, id, objs[e.h], e.kind), x |-> {} ]
        [] e.op = "Copy" -> [ r |-> SCopy(heap, id, objs[e.h], IF e.ue THEN e.u ELSE objs[e.h].u),
                              x |-> If(~e.same, "share") ]

MakeOps == {"SparseOver", "DMOver", "Slice", "Conv", "Copy"}

MakeFails(e, m) ==
  IF e.out = "raise" THEN {"raise." \o e.stage} \cup FrameFails(e)
  ELSE ObsFails(m.r.obj, heap \o m.r.new, e.obs) \cup m.x \cup ReadOnlyFails(e)

(* ---- assignments ------------------------------------------------------------ *)
SetFails(e, t, hp) ==
  UNION { LET o == objs[h]
              c == ChgOf(e, h)
              changed == SVals(hp, o) # SVals(heap, o)
              same == IF c = <<>> THEN ~changed
                      ELSE IF o.k = "DM" THEN ReadOK(hp, o, c[1].probes, c[1].pvals)
                      ELSE c[1].eidx = o.idx /\ c[1].evals = SVals(hp, o)
                           /\ ReadOK(hp, o, c[1].probes, c[1].pvals)
          IN  IF h = t THEN If(same, "target")
              ELSE IF Range(o.cells) \cap Range(objs[t].cells) # {} THEN If(same, "alias")
              ELSE If(same, IF objs[o.root].org = "copy" \/ objs[objs[t].root].org = "copy"
                            THEN "leakcopy" ELSE "leak")
        : h \in 1..Len(objs) }

CmpFails(e) ==
  LET a == objs[e.h]
      b == objs[e.g]
      els(o) == {<<o.idx[i], heap[o.cells[i]]>> : i \in 1..Len(o.idx)}
      same == a.k = b.k /\ a.shape = b.shape /\ a.u = b.u /\ els(a) = els(b)
  IN  If(e.equal = (els(a) = els(b)), "equal")
      \cup (IF a.k # b.k THEN {} ELSE If((e.eq /\ ~Murky(heap, a) /\ ~Murky(heap, b)) => same, "eqsound")
                                      \cup If(same => e.eq, "eqcomplete"))
      \cup If(e.ne = ~e.eq, "ne")
      \cup ReadOnlyFails(e)

Fails(e, m) ==
  CASE e.op = "Reset" -> {}
    [] e.op \in MakeOps -> MakeFails(e, m)
    [] e.op = "Get" ->
         IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e)
         ELSE If(e.val = SRead(heap, objs[e.h], [i \in 1..Len(e.index) |-> e.index[i][2] % objs[e.h].shape[i]]), "vals")
              \cup ReadOnlyFails(e)
    [] e.op = "Set" ->
         IF e.out = "raise" THEN {"raise.op"}
         ELSE SetFails(e, e.h, SWritten(heap, objs, e)) \cup If(e.src, "src")
    [] e.op = "Cmp" -> IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e) ELSE CmpFails(e)

Init == l = 1 /\ heap = <<>> /\ objs = <<>> /\ dead = FALSE /\ fails = <<>> /\ seen = 0

Advance(e, m) ==
  CASE e.op = "Reset" -> heap' = <<>> /\ objs' = <<>>
    [] e.op \in MakeOps -> heap' = heap \o m.r.new /\ objs' = Append(objs, m.r.obj)
    [] e.op = "Set" -> heap' = SWritten(heap, objs, e) /\ UNCHANGED objs
    [] OTHER -> UNCHANGED <<heap, objs>>

None == [r |-> [new |-> <<>>, obj |-> <<>>], x |-> {}]
EventKind(e) == IF e.op \in {"SparseOver", "Conv"} THEN e.kind
                ELSE IF e.op = "Reset" THEN "-" ELSE objs[e.h].k

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN  IF dead /\ e.op # "Reset"
         THEN UNCHANGED <<heap, objs, dead, fails, seen>>
         ELSE LET m == IF e.op \in MakeOps /\ e.out = "ok" THEN MadeBy(e) ELSE None
                  f == Fails(e, m)
              IN  /\ seen' = seen + 1
                  /\ IF f = {}
                     THEN Advance(e, m) /\ dead' = FALSE /\ UNCHANGED fails
                     ELSE /\ dead' = TRUE
                          /\ fails' = fails \o SetToSeq({[l |-> l, op |-> e.op, kind |-> EventKind(e),
                                                          clause |-> c] : c \in f})
                          /\ UNCHANGED <<heap, objs>>

Finish ==
  /\ l = Len(Trace) + 1
  /\ l' = l + 1
  /\ JsonSerialize(IOEnv.VERDICT, [events |-> Len(Trace), validated |-> seen, fails |-> fails])
  /\ UNCHANGED <<heap, objs, dead, fails, seen>>

Spec == Init /\ [][Consume \/ Finish]_vars
===============================================================================
