------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* Slices of one axis.                                                     *)
(*                                                                         *)
(* An index item is a tuple of integers (a uniform encoding that survives  *)
(* JSON):                                                                  *)
(*    <<0, n>>                       the integer n                         *)
(*    <<1>>                          None (the whole axis)                 *)
(*    <<2, ha, a, hb, b, hc, c>>     slice(start, stop, step); hx = 0 means *)
(*                                   that the part is None                 *)
(*                                                                         *)
(* PySel is the meaning of an index item given by the Python language      *)
(* reference (slice.indices); Reduced and NItems transcribe gcs.slice_tools *)
(* and are proved equivalent to PySel by TLC on bounded domains.           *)
(***************************************************************************)
EXTENDS PyBase

INT(n)   == <<0, n>>
NONE     == <<1>>
FULL     == <<2, 0, 0, 0, 0, 0, 0>>
SLICE(a, b, c) == <<2, 1, a, 1, b, 1, c>>

IsInt(it)   == it[1] = 0
IsNone(it)  == it[1] = 1
IsSlice(it) == it[1] = 2

(* ---- meaning: language reference -------------------------------------- *)
Step(it) == IF it[6] = 0 THEN 1 ELSE it[7]

\* <<start, stop, step>> as computed by slice.indices(size)
SliceIndices(it, size) ==
  LET step  == Step(it)
      lower == IF step > 0 THEN 0 ELSE -1
      upper == IF step > 0 THEN size ELSE size - 1
      Clip(x) == IF x < 0 THEN Max2(x + size, lower) ELSE Min2(x, upper)
      start == IF it[2] = 0 THEN (IF step > 0 THEN lower ELSE upper) ELSE Clip(it[3])
      stop  == IF it[4] = 0 THEN (IF step > 0 THEN upper ELSE lower) ELSE Clip(it[5])
  IN  <<start, stop, step>>

\* len(range(start, stop, step))
RangeLen(start, stop, step) ==
  IF step > 0
  THEN IF start < stop THEN (stop - start - 1) \div step + 1 ELSE 0
  ELSE IF start > stop THEN (start - stop - 1) \div (-step) + 1 ELSE 0

\* positions of an axis of the given size selected by an index item, in order
PySel(it, size) ==
  IF IsInt(it) THEN <<it[2] % size>>
  ELSE IF IsNone(it) THEN Iota(size)
  ELSE LET r == SliceIndices(it, size)
       IN  E([i \in 1..RangeLen(r[1], r[2], r[3]) |-> r[1] + (i - 1) * r[3]])

(* ---- transcription of gcs.slice_tools --------------------------------- *)
\* reduced(s, size)
Reduced(it, size) ==
  LET step0 == Step(it)
      \* positive step
      pstart == IF it[2] = 0 \/ it[3] < -size THEN 0
                ELSE IF it[3] < 0 THEN it[3] + size
                ELSE IF it[3] > size THEN size ELSE it[3]
      pstop  == IF it[4] = 0 \/ it[5] > size THEN size
                ELSE IF it[5] < -size THEN 0
                ELSE IF it[5] < 0 THEN it[5] + size ELSE it[5]
      pstep  == IF step0 > size THEN size ELSE step0
      \* negative step
      nstart == IF it[2] = 0 \/ it[3] >= size THEN -1
                ELSE IF it[3] < -size THEN -size - 1
                ELSE IF it[3] >= 0 THEN it[3] - size ELSE it[3]
      nstop  == IF it[4] = 0 \/ it[5] < -size THEN -size - 1
                ELSE IF it[5] >= size THEN -1
                ELSE IF it[5] >= 0 THEN it[5] - size ELSE it[5]
      nstep  == IF step0 < -size THEN -size ELSE step0
      start == IF step0 > 0 THEN pstart ELSE nstart
      stop  == IF step0 > 0 THEN pstop ELSE nstop
      step  == IF step0 > 0 THEN pstep ELSE nstep
  IN  IF (stop - start) * step <= 0 THEN SLICE(0, 0, 1) ELSE SLICE(start, stop, step)

\* nitems(s, size, reduce=False); s is reduced
NItems(it) ==
  IF it[5] = it[3] THEN 0
  ELSE Max2(0, PyDiv((it[5] - it[3]) + it[7] - Sgn(it[7]), it[7]))

\* normalize_index on one item
NormItem(it, size) ==
  IF IsInt(it) THEN INT(it[2] % size)
  ELSE IF IsNone(it) THEN NONE
  ELSE Reduced(it, size)

\* what callers of a reduced slice rely on: start mod size + i * step
ReducedSel(it, size) ==
  [i \in 1..NItems(it) |-> (it[3] % size) + (i - 1) * it[7]]

(* ---- theorem checked by TLC (MC_Slices) -------------------------------- *)
SliceTheorem(it, size) ==
  LET r == Reduced(it, size)
      sel == PySel(it, size)
  IN  /\ PySel(r, size) = sel
      /\ NItems(r) = Len(sel)
      /\ (size > 0 => ReducedSel(r, size) = sel)
      /\ \A i \in 1..Len(sel) : sel[i] \in 0..(size - 1)
=============================================================================
