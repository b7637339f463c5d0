------------------------------- MODULE GCSTrace -------------------------------
(***************************************************************************)
(* Trace validation: is a recorded execution of the real gcs package a     *)
(* behaviour of ArrayHeap?                                                 *)
(*                                                                         *)
(* The trace (ndjson file named by the environment variable TRACE) is a    *)
(* sequence of independent programs; each event is one public call on gcs  *)
(* with its arguments, its outcome, the full observation of the array it   *)
(* returned (obs) and the observations of all other live arrays that       *)
(* changed (chg; an array not listed is observed unchanged).               *)
(*                                                                         *)
(* The verdict is total: every event is compared clause by clause with the *)
(* step ArrayHeap allows; violated clauses are collected in `fails` and    *)
(* the rest of that program is skipped (its state is no longer known).     *)
(***************************************************************************)
EXTENDS ArrayOps, Reps, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          heap, objs,
          dead,   \* the current program has already failed
          fails,  \* sequence of [l, op, kind, clause]
          seen    \* per operation: number of events validated
vars == <<l, heap, objs, dead, fails, seen>>

(* ---- clauses of an observation -------------------------------------------- *)
\* o: expected object, hp: heap after the event, ob: what was observed
ObsFails(o, hp, ob) ==
  LET v == Vals(hp, o)
      meta == If(ob.k = o.k, "kind") \cup If(ob.shape = o.shape, "shape")
              \cup If(ob.u = o.u, "marker")
      sized == ob.shape = o.shape /\ Len(ob.vals) = Len(v)
      diff == IF ob.vals = v THEN {} ELSE {q \in 1..Len(v) : ob.vals[q] # v[q]}
      content == If(\A q \in diff : v[q] = o.u, "vals")
                 \cup If(\A q \in diff : v[q] # o.u, "marker")
                 \cup If(ob.nvals = <<>> \/ ob.nvals = v, "nvals")
      enum == Enumerated(o)
      els == If(/\ Len(ob.eidx) = Len(enum)
                /\ Len(ob.evals) = Len(enum)
                /\ ob.inter
                /\ \A i \in 1..Len(enum) :
                     /\ InShape(ob.eidx[i], o.shape)
                     /\ Rank(ob.eidx[i], o.shape) = enum[i]
                     /\ ob.evals[i] = v[enum[i] + 1], "els")
      \* an element stored with the value of the marker is ambiguous
      murky == \E q \in 1..Len(v) : o.cells[q] # 0 /\ v[q] = o.u
      size == If(o.k = "DM" \/ ob.size = SizeOf(o), "size")
              \cup If((murky /\ ~IsDenseObj(o)) \/ ob.full = IsFull(o), "full")
              \cup If(o.shape = <<>> \/ ob.len = o.shape[1], "len")
      wf == If(WellFormed(ob.rep), "wf")
      stored == IF o.k \in SparseKinds /\ ob.k = o.k /\ wf = {}
                THEN If(StoredPositions(ob.rep) = enum, "wf") ELSE {}
      map == IF ob.k = "DM" THEN If(MapOK(ob.rep, ob.vals), "map") ELSE {}
  IN  meta \cup (IF sized THEN content \cup els \cup size \cup wf \cup stored \cup map
                 ELSE {"shape"})

(* ---- observations of the other arrays ----------------------------------------- *)
ChgOf(e, h) == SelectSeq(e.chg, LAMBDA c : c.h = h)

\* h: array number; hp: heap after; expected observation equals logged one
AfterVals(e, h) ==
  LET c == ChgOf(e, h) IN IF c = <<>> THEN Vals(heap, objs[h]) ELSE c[1].vals

\* (the arrays of a lazy program, lz, are observed by Obs events only)
FrameFails(e) == If(e.lz \/ e.chg = <<>>, "frame")

\* again: the operation gave the same result again; src: sequences given to
\* the library are as they were given
ReadOnlyFails(e) == FrameFails(e) \cup If(e.again, "again") \cup If(e.src, "src")

SetFails(e, t, hp) ==
  IF e.lz THEN {} ELSE
  UNION { LET o == objs[h]
              c == ChgOf(e, h)
              same == AfterVals(e, h) = Vals(hp, o)
              shape == c = <<>> \/ (c[1].shape = o.shape /\ c[1].u = o.u)
              enum == Enumerated(o)
              pat == c = <<>> \/ c[1].pos = enum
              v == Vals(hp, o)
              els == c = <<>> \/ ~same \/ ~pat
                       \/ c[1].evals = [i \in 1..Len(enum) |-> v[enum[i] + 1]]
          IN  If(els, "els") \cup
              IF h = t
              THEN If(same, "target") \cup If(shape /\ pat, "pattern")
              ELSE IF SharesCell(o, objs[t])
              THEN If(same, "alias") \cup If(shape /\ pat, "pattern")
              ELSE If(same /\ shape /\ pat,
                      IF objs[o.root].org = "copy" \/ objs[objs[t].root].org = "copy"
                      THEN "leakcopy" ELSE "leak")
        : h \in 1..Len(objs) }

(* ---- events --------------------------------------------------------------------- *)
\* pattern of stored elements read off the observation of a sparse array
LoggedPattern(ob, n) ==
  LET ps == {Rank(ob.eidx[i], ob.shape) :
               i \in {j \in 1..Len(ob.eidx) : InShape(ob.eidx[j], ob.shape)}}
  IN  E([q \in 1..n |-> (q - 1) \in ps])

\* the array the event has to make
MadeBy(e) ==
  LET log == /\ ~e.lz
             /\ \/ e.op = "Slice" /\ objs[e.h].k \in SparseKinds
                \/ e.op = "Conv" /\ e.kind \in SparseKinds
      n == IF e.op = "Conv" THEN NElems(objs[e.h]) ELSE Len(e.obs.vals)
  IN  Made(heap, objs, e, IF log THEN LoggedPattern(e.obs, n) ELSE <<>>,
           IF e.op \in {"Conv", "Copy"} THEN e.same ELSE FALSE)


EventKind(e) == IF e.op = "Bad" THEN e.what ELSE IF e.op \in {"New", "Stack", "SparseOver", "Conv"} THEN e.kind
                ELSE IF e.op \in {"StridedOver"} THEN "Strided"
                ELSE IF e.op = "BufOver" THEN "Buffer"
                ELSE IF e.op = "Reset" THEN "-"
                ELSE objs[e.h].k

\* violated clauses of the event; m = MadeBy(e) for making events
MakeFails(e, m) ==
  IF e.out = "raise"
  THEN {"raise." \o e.stage} \cup FrameFails(e)
  ELSE IF e.lz THEN m.x \cup If(e.obs.k = m.r.obj.k, "kind")
                        \cup If(e.obs.shape = m.r.obj.shape, "shape")
  ELSE LET hp == heap \o m.r.new
           f == ObsFails(m.r.obj, hp, e.obs)
           fm == IF e.op \in FreshMapOps /\ m.r.obj.k = "DM" /\ f = {}
                 THEN If(FreshMapOK(e.obs.rep, m.r.obj, e.obs.vals), "map") ELSE {}
           \* an explicit marker: no element equal to it is stored
           st == If((e.op \in {"New", "Stack", "Conv"} /\ e.ue /\ m.r.obj.k \in SparseKinds)
                    => \A i \in 1..Len(e.obs.evals) : e.obs.evals[i] # m.r.obj.u, "stored")
           \* a copy compares equal to its source (ceq), element by element
           ce == If((e.op = "Copy" /\ ~e.ue) => e.ceq, "copyeq")
       IN  f \cup fm \cup st \cup ce \cup m.x \cup ReadOnlyFails(e)

\* content comparison of a with a nested sequence (dense, None -> marker)
SeqElementSet(shape, vals, u) ==
  LET v == Remark(vals, NIL, u)
  IN  {<<Unrank(q - 1, shape), v[q]>> : q \in 1..Len(v)}

CmpFails(e) ==
  LET a == objs[e.h]
      b == objs[e.g]
      same == SameContent(heap, a, b)
      elsame == EqualElements(heap, a, b)
  IN  If(e.equal = elsame, "equal")
      \cup (IF a.k # b.k THEN {} ELSE
              If(e.eq => same, "eqsound")
              \cup If((same /\ elsame /\ a.d = b.d /\ SamePattern(a, b) /\ CanonEq(a, b)) => e.eq, "eqcomplete")
              \cup If(e.h = e.g => e.eq, "eqcomplete"))
      \cup If(e.ne = ~e.eq, "ne")
      \cup ReadOnlyFails(e)

InBase(b, i) == b.off + i + 1 \in 1..Len(b.base)

Fails(e, m) ==
  CASE e.op = "Reset" -> {}
    [] e.op = "Win" /\ e.out = "IndexError" ->
         If(Window(objs[e.h], e.sl)[1] = "IndexError", "error") \cup FrameFails(e)
    [] e.op \in MakeOps -> MakeFails(e, m)
    [] e.op = "Get" ->
         IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e)
         ELSE If(e.val = ReadElement(heap, objs[e.h], FullIndex(e.index, Len(objs[e.h].shape))), "vals")
              \cup ReadOnlyFails(e)
    [] e.op = "BufGet" ->
         IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e)
         ELSE IF ~InBase(objs[e.h], e.i) THEN {"vals"}
         ELSE If(e.val = heap[objs[e.h].base[objs[e.h].off + e.i + 1]], "vals")
              \cup ReadOnlyFails(e)
    [] e.op = "Obs" ->
         IF e.out = "raise" THEN {"raise." \o e.stage} \cup FrameFails(e)
         ELSE ObsFails(objs[e.h], heap, e.obs) \cup ReadOnlyFails(e)
    [] e.op = "Print" -> FrameFails(e)
    [] e.op = "Bad" ->
         If(IllFormed(objs, e), "illformed") \cup If(e.out = "raise", "rejected")
         \cup FrameFails(e) \cup If(e.src, "src")
    [] e.op = "Iter" ->
         IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e)
         ELSE If(e.vals = Vals(heap, objs[e.h]), "iter") \cup FrameFails(e)
    [] e.op = "Set" ->
         IF e.out = "raise" THEN {"raise.op"}
         ELSE SetFails(e, e.h, Written(heap, objs, e))
              \cup If(e.src, "src")
    [] e.op = "BufSet" ->
         IF e.out = "raise" THEN {"raise.op"}
         ELSE IF ~InBase(objs[e.h], e.i) THEN {"target"}
         ELSE SetFails(e, e.h, Written(heap, objs, e))
              \cup If(e.src, "src")
    [] e.op = "Cmp" ->
         IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e) ELSE CmpFails(e)
    [] e.op = "CmpSeq" ->
         IF e.out = "raise" THEN {"raise.op"} \cup FrameFails(e)
         ELSE If(e.equal = (ElementSet(heap, objs[e.h])
                              = SeqElementSet(e.shape, e.vals, objs[e.h].u)), "equal")
              \cup ReadOnlyFails(e)

Init == /\ l = 1 /\ heap = <<>> /\ objs = <<>> /\ dead = FALSE /\ fails = <<>>
        /\ seen = 0

\* the transition ArrayHeap makes for a conforming event
Advance(e, m) ==
  CASE e.op = "Reset" -> heap' = <<>> /\ objs' = <<>>
    [] e.op \in MakeOps /\ e.out = "ok" ->
         heap' = heap \o m.r.new /\ objs' = Append(objs, m.r.obj)
    [] e.op \in {"Set", "BufSet"} -> heap' = Written(heap, objs, e) /\ UNCHANGED objs
    [] OTHER -> UNCHANGED <<heap, objs>>

None == [r |-> [new |-> <<>>, obj |-> <<>>], x |-> {}]

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
     IN  IF dead /\ e.op # "Reset"
         THEN UNCHANGED <<heap, objs, dead, fails, seen>>
         ELSE LET m == IF e.op \in MakeOps /\ e.out = "ok" THEN MadeBy(e) ELSE None
                  f == Fails(e, m)
              IN  /\ seen' = seen + 1
                  /\ IF f = {}
                     THEN Advance(e, m) /\ dead' = FALSE /\ UNCHANGED fails
                     ELSE /\ dead' = TRUE
                          /\ fails' = fails \o SetToSeq({[l |-> l, op |-> e.op, kind |-> EventKind(e),
                                                          clause |-> c] : c \in f})
                          /\ UNCHANGED <<heap, objs>>

Finish ==
  /\ l = Len(Trace) + 1
  /\ l' = l + 1
  /\ JsonSerialize(IOEnv.VERDICT, [events |-> Len(Trace), validated |-> seen, fails |-> fails])
  /\ UNCHANGED <<heap, objs, dead, fails, seen>>

Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- invariants of ArrayHeap evaluated along the recorded execution ------ *)
TypeInv == (objs # <<>>) =>
             LET o == objs[Len(objs)] IN ObjOK(heap, o) /\ (o.ov \/ Injective(o))
=============================================================================
