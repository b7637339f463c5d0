----------------------------- MODULE MC_Compress -----------------------------
(* C14: the loop of compress_indices, step by step, against the meaning of   *)
(* the pointers; rows of every sorted sequence within the bounds.            *)
EXTENDS Compress
CONSTANTS MaxSize, MaxLen
VARIABLES rows, size,
          comp, k, last, i, done     \* the local variables of the loop
vars == <<rows, size, comp, k, last, i, done>>

Init == /\ size \in 0..MaxSize
        /\ rows \in {r \in UNION {[1..n -> 0..(size - 1)] : n \in 0..MaxLen} : IsNonDecreasing(r)}
        /\ comp = Const(size + 1, 0) /\ k = 1 /\ last = 0 /\ i = 0 /\ done = FALSE

\* one iteration of the outer loop (the inner loop writes comp[k..k+n-1])
Row == /\ i < Len(rows) /\ ~done
       /\ LET n == Max2(0, rows[i + 1] - last)
          IN  /\ comp' = [p \in 1..(size + 1) |-> IF k + 1 <= p /\ p <= k + n THEN i ELSE comp[p]]
              /\ k' = k + n
       /\ last' = rows[i + 1] /\ i' = i + 1
       /\ UNCHANGED <<rows, size, done>>
Tail_ == /\ i = Len(rows) /\ ~done
         /\ comp' = [p \in 1..(size + 1) |-> IF p >= k + 1 THEN Len(rows) ELSE comp[p]]
         /\ done' = TRUE
         /\ UNCHANGED <<rows, size, k, last, i>>
Next == Row \/ Tail_
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* loop invariant: pointers of the rows up to the last one read are final
LoopInv == /\ k = last + 1
           /\ \A r \in 1..k : r <= size + 1 =>
                comp[r] = Cardinality({j \in 1..Len(rows) : rows[j] < r - 1})
Result == done => /\ CompressedOK(rows, size, comp)
                  /\ comp = CompressSpec(rows, size)
                  /\ comp = CompressLoop(rows, size)
                  /\ UncompressSpec(comp) = rows
Terminates == <>done
=============================================================================
