------------------------------ MODULE MC_Search ------------------------------
(* C22: the binary searches in the sorted indices of COO, FlatCOO and CSR,   *)
(* step by step, for every set of stored positions of every small matrix.    *)
EXTENDS Compress
CONSTANTS MaxRows, MaxCols
VARIABLES shape, ps,   \* stored flat positions, increasing
          kind, target, left, right, res   \* res: -2 running, -1 None
vars == <<shape, ps, kind, target, left, right, res>>

Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Kinds3 == {"COO", "FlatCOO", "CSR"}
Col(p) == p % shape[2]
RowOf(p) == p \div shape[2]
Crow(r) == Cardinality({j \in 1..Len(ps) : RowOf(ps[j]) < r})

Init == /\ shape \in (1..MaxRows) \X (1..MaxCols)
        /\ ps = <<>> /\ kind = "-" /\ target = -1 /\ left = 0 /\ right = 0 /\ res = -2
Start == /\ kind = "-"
         /\ \E S \in SUBSET (0..(shape[1] * shape[2] - 1)) : ps' = Sorted(S)
         /\ kind' = "built"
         /\ UNCHANGED <<shape, target, left, right, res>>
Ask == /\ kind = "built"
       /\ kind' \in Kinds3 /\ target' \in 0..(shape[1] * shape[2] - 1)
       /\ left' = IF kind' = "CSR" THEN Crow(RowOf(target')) ELSE 0
       /\ right' = (IF kind' = "CSR" THEN Crow(RowOf(target') + 1) ELSE Len(ps)) - 1
       /\ UNCHANGED <<shape, ps, res>>
\* sign of (entry - target): the comparison each format makes
Cmp(pos) ==
  LET p == ps[pos + 1]
  IN  CASE kind = "FlatCOO" -> Sgn(p - target)
        [] kind = "CSR" -> Sgn(Col(p) - Col(target))
        [] kind = "COO" -> IF RowOf(p) # RowOf(target) THEN Sgn(RowOf(p) - RowOf(target))
                           ELSE Sgn(Col(p) - Col(target))
Step_ == /\ kind \in Kinds3 /\ res = -2
         /\ IF left > right THEN res' = -1 /\ UNCHANGED <<left, right>>
            ELSE LET pos == (left + right) \div 2
                 IN  CASE Cmp(pos) = 0 -> res' = pos /\ UNCHANGED <<left, right>>
                       [] Cmp(pos) < 0 -> left' = pos + 1 /\ UNCHANGED <<right, res>>
                       [] OTHER        -> right' = pos - 1 /\ UNCHANGED <<left, res>>
         /\ UNCHANGED <<shape, ps, kind, target>>
Next == Start \/ Ask \/ Step_
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Running == kind \in Kinds3 /\ res = -2
\* what is searched for stays within the window
Window == Running => \A j \in 1..Len(ps) : ps[j] = target => (left <= j - 1 /\ j - 1 <= right)
Answer == (kind \in Kinds3 /\ res # -2) => res = Find(ps, target) - 1
\* the recursive form used elsewhere in the specification
SameAsBinSearch == (Running /\ (left = 0 /\ right = Len(ps) - 1)) =>
                     BinSearch(Cmp, left, right) = Find(ps, target) - 1
Shrinks == [][(kind \in Kinds3 /\ res = -2 /\ res' = -2) => right' - left' < right - left]_vars
Terminates == <>(res # -2)
=============================================================================
