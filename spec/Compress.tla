------------------------------- MODULE Compress -------------------------------
(***************************************************************************)
(* Row pointers of the CSR format and lookups in sorted index arrays.      *)
(***************************************************************************)
EXTENDS Layout

\* what the pointers have to satisfy (C14)
CompressedOK(rows, size, crow) ==
  /\ Len(crow) = size + 1
  /\ crow[1] = 0
  /\ crow[size + 1] = Len(rows)
  /\ \A r \in 1..size :
       /\ crow[r] <= crow[r + 1]
       /\ \A j \in 1..Len(rows) : (crow[r] < j /\ j <= crow[r + 1]) <=> rows[j] = r - 1

\* the pointers, computed
CompressSpec(rows, size) ==
  [r \in 1..(size + 1) |-> Cardinality({j \in 1..Len(rows) : rows[j] < r - 1})]

\* the rows, computed
UncompressSpec(crow) ==
  FlattenSeq([r \in 1..(Len(crow) - 1) |-> Const(crow[r + 1] - crow[r], r - 1)])

\* transcription of storage.compress_indices: state <<compressed, k, last>>
CompressLoop(rows, size) ==
  LET step(st, i) ==
        LET index == rows[i]
            n == index - st[3]      \* iterations of the inner loop
            cnt == Max2(0, n)
        IN  << [p \in 1..(size + 1) |->
                  IF st[2] + 1 <= p /\ p <= st[2] + cnt THEN i - 1 ELSE st[1][p]],
               st[2] + cnt, index >>
      st == FoldLeft(step, <<Const(size + 1, 0), 1, 0>>, [i \in 1..Len(rows) |-> i])
  IN  [p \in 1..(size + 1) |-> IF p >= st[2] + 1 THEN Len(rows) ELSE st[1][p]]

\* position (1-based) of p in a strictly increasing sequence, 0 if absent
Find(ps, p) ==
  LET h == {i \in 1..Len(ps) : ps[i] = p} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE

\* transcription of the binary search: Cmp(i) is the sign of entry i - target,
\* entries numbered from left to right (0-based); -1 when not found
RECURSIVE BinSearch(_, _, _)
BinSearch(Cmp(_), left, right) ==
  IF left > right THEN -1
  ELSE LET pos == (left + right) \div 2
           d == Cmp(pos)
       IN  IF d = 0 THEN pos
           ELSE IF d < 0 THEN BinSearch(Cmp, pos + 1, right)
           ELSE BinSearch(Cmp, left, pos - 1)
=============================================================================
