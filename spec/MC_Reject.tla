------------------------------ MODULE MC_Reject ------------------------------
(* C23: the checks that DM.fromobject and the normalization of an index make, *)
(* in the order the code makes them, let through exactly the requests that    *)
(* have an answer (ArrayOps.IsMapping, IllFormedIndex).                       *)
EXTENDS ArrayOps
CONSTANTS MaxAxes, MaxSize
VARIABLES shape, dims, part, index,
          at,  \* item of the index looked at
          pc   \* "dm1".."dm5": guards of DM.fromobject; "item"; "ok", "error"
vars == <<shape, dims, part, index, at, pc>>

SeqUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Items == {<<0, 0>>, <<0, -1>>, <<1>>, <<2, 0, 0, 0, 0, 1, -1>>, <<3>>}
N == Len(shape)

Init == /\ \E n \in 1..MaxAxes : shape \in [1..n -> 0..MaxSize]
        /\ dims = <<>> /\ part = <<>> /\ index = <<>> /\ at = 0 /\ pc = "none"
AskDM == /\ pc = "none" /\ pc' = "dm1"
         /\ \A i \in 1..N : shape[i] = 1      \* the sizes do not matter
         /\ dims' \in SeqUpTo((-1)..N, N)
         /\ part' \in SeqUpTo((-1)..(N + 1), N)
         /\ UNCHANGED <<shape, index, at>>
AskIndex == /\ pc = "none" /\ pc' = "item" /\ at' = 1
            /\ index' \in SeqUpTo(Items, N + 2)
            /\ UNCHANGED <<shape, dims, part>>

Rng(s) == {s[i] : i \in 1..Len(s)}
NParts == Len(part) + 1
Cut(k) == IF k = 0 THEN 0 ELSE IF k = NParts THEN N ELSE part[k]
\* Python's dims[a:b]
RDims(k) == SubSeq(dims, Cut(k - 1) + 1, IF Cut(k) > Len(dims) THEN Len(dims) ELSE Cut(k))
Goto(ok, next) == pc' = (IF ok THEN next ELSE "error") /\ UNCHANGED <<shape, dims, part, index, at>>
Sorted(s) == \A i \in 2..Len(s) : s[i - 1] <= s[i]

DM1 == pc = "dm1" /\ Goto(part = <<>> \/ (/\ Sorted(part)
                                          /\ \A i \in 1..Len(part) : part[i] > 0 /\ part[i] < N), "dm2")
DM2 == pc = "dm2" /\ Goto(NParts <= N, "dm3")
DM3 == pc = "dm3" /\ Goto(\A i, j \in 1..NParts : i # j => RDims(i) # RDims(j), "dm4")
\* shape[d] of each dimension (Python: negative ones count from the end)
DM4 == pc = "dm4" /\ Goto(\A k \in 1..NParts : \A d \in Rng(RDims(k)) : d \in (-N)..(N - 1), "dm5")
DM5 == pc = "dm5" /\ Goto(UNION {Rng(RDims(k)) : k \in 1..NParts} = 0..(N - 1), "ok")

Item == /\ pc = "item"
        /\ IF at > Len(index) THEN pc' = "ok" /\ at' = at
           ELSE /\ at' = at + 1
                /\ pc' = IF CASE index[at][1] = 1 -> TRUE
                            [] index[at][1] = 3 -> FALSE
                            [] at > N -> FALSE                     \* shape[i]
                            [] index[at][1] = 0 -> shape[at] # 0   \* ind % shape[i]
                            [] OTHER -> TRUE
                         THEN "item" ELSE "error"
        /\ UNCHANGED <<shape, dims, part, index>>
Next == AskDM \/ AskIndex \/ DM1 \/ DM2 \/ DM3 \/ DM4 \/ DM5 \/ Item
Spec == Init /\ [][Next]_vars

\* some mappings with empty parts are rejected too (by DM2, DM3)
EmptyParts == \E k \in 1..NParts : Cut(k) <= Cut(k - 1)
Rejected == pc = "error" => (IF at = 0 THEN ~IsMapping(N, dims, part) \/ EmptyParts
                             ELSE IllFormedIndex(shape, index))
Accepted == pc = "ok" => (IF at = 0 THEN IsMapping(N, dims, part)
                          ELSE ~IllFormedIndex(shape, index))
=============================================================================