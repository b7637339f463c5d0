-------------------------------- MODULE BigInt --------------------------------
(***************************************************************************)
(* Integers of any size (TLC's own are 32 bit).  A big integer is a record *)
(* [n |-> 1 for negative, else 0, d |-> digits base 10000, the lowest      *)
(* first, without leading zeros].  Division is by witness: quotient and    *)
(* remainder are given and checked (IsDivMod).                             *)
(***************************************************************************)
EXTENDS PyBase

BASE == 10000

RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d

Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

\* magnitudes: -1, 0, 1
MagCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET diff == {i \in 1..Len(a) : a[i] # b[i]}
       IN  IF diff = {} THEN 0
           ELSE LET k == CHOOSE i \in diff : \A j \in diff : j <= i
                IN  IF a[k] < b[k] THEN -1 ELSE 1

MagAdd(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET s == Dig(a, i) + Dig(b, i) + acc[1]
                                    IN  <<s \div BASE, Append(acc[2], s % BASE)>>,
                    <<0, <<>>>>, [i \in 1..Max2(Len(a), Len(b)) |-> i])
  IN  E(IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1]))

\* a >= b
MagSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET s == Dig(a, i) - Dig(b, i) - acc[1]
                                    IN  IF s < 0 THEN <<1, Append(acc[2], s + BASE)>>
                                        ELSE <<0, Append(acc[2], s)>>,
                    <<0, <<>>>>, [i \in 1..Len(a) |-> i])
  IN  E(Strip(r[2]))

\* a times one digit k, shifted by m digits
MagScale(a, k, m) ==
  LET r == FoldLeft(LAMBDA acc, x : LET s == x * k + acc[1]
                                    IN  <<s \div BASE, Append(acc[2], s % BASE)>>,
                    <<0, [i \in 1..m |-> 0]>>, a)
  IN  E(Strip(IF r[1] = 0 THEN r[2] ELSE Append(r[2], r[1])))

MagMul(a, b) ==
  FoldLeft(LAMBDA acc, i : MagAdd(acc, MagScale(a, b[i], i - 1)), <<>>, [i \in 1..Len(b) |-> i])

Mk(n, d) == [n |-> IF d = <<>> THEN 0 ELSE n, d |-> d]
B0 == [n |-> 0, d |-> <<>>]
B1 == [n |-> 0, d |-> <<1>>]
BInt(i) == E(LET m == Abs(i)
             IN  Mk(IF i < 0 THEN 1 ELSE 0,
                    Strip(<<m % BASE, (m \div BASE) % BASE, m \div (BASE * BASE)>>)))
IsBig(x) == /\ x.n \in {0, 1} /\ \A i \in 1..Len(x.d) : x.d[i] \in 0..(BASE - 1)
            /\ x.d = <<>> => x.n = 0
            /\ x.d # <<>> => x.d[Len(x.d)] # 0

BNeg(a) == Mk(1 - a.n, a.d)
BAdd(a, b) ==
  IF a.n = b.n THEN Mk(a.n, MagAdd(a.d, b.d))
  ELSE CASE MagCmp(a.d, b.d) = 0  -> B0
         [] MagCmp(a.d, b.d) = 1  -> Mk(a.n, MagSub(a.d, b.d))
         [] MagCmp(a.d, b.d) = -1 -> Mk(b.n, MagSub(b.d, a.d))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk((a.n + b.n) % 2, MagMul(a.d, b.d))
BCmp(a, b) ==
  IF a.n # b.n THEN (IF a.n = 1 THEN -1 ELSE 1)
  ELSE IF a.n = 0 THEN MagCmp(a.d, b.d) ELSE MagCmp(b.d, a.d)
BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
BPos(a) == a.n = 0 /\ a.d # <<>>
BSign(a) == IF a.d = <<>> THEN 0 ELSE IF a.n = 1 THEN -1 ELSE 1
BAbs(a) == [a EXCEPT !.n = 0]
BSum(s) == FoldLeft(LAMBDA acc, x : BAdd(acc, x), B0, s)
BProd(s) == FoldLeft(LAMBDA acc, x : BMul(acc, x), B1, s)
BDot(a, b) == BSum([i \in 1..Len(a) |-> BMul(a[i], b[i])])

\* a = q * b + r, 0 <= r < |b|
IsDivMod(a, b, q, r) == /\ a = BAdd(BMul(q, b), r)
                        /\ BLe(B0, r) /\ BLt(r, BAbs(b))

(* ---- slices of axes of any size ------------------------------------------- *)
\* it: [t |-> 0 int | 1 None | 2 slice, v: the integer, a, b, c: start, stop,
\* step, absent if ha, hb, hc = 0]
BStep(it) == IF it.t # 2 \/ it.hc = 0 THEN B1 ELSE it.c
BClamp(v, n, lo, hi) == BMin(hi, BMax(lo, IF v.n = 1 THEN BAdd(v, n) ELSE v))
\* first position and end as the Python language defines them
BBounds(it, n) ==
  LET up == BPos(BStep(it))
      lo == IF up THEN B0 ELSE BInt(-1)
      hi == IF up THEN n ELSE BSub(n, B1)
  IN  IF it.t = 1 THEN <<B0, n>>
      ELSE << IF it.ha = 1 THEN BClamp(it.a, n, lo, hi) ELSE IF up THEN lo ELSE hi,
              IF it.hb = 1 THEN BClamp(it.b, n, lo, hi) ELSE IF up THEN hi ELSE lo >>
\* is c the number of selected items?
BCountOK(it, n, c) ==
  LET b == E(BBounds(it, n))
      st == BStep(it)
      len == IF BPos(st) THEN BSub(b[2], b[1]) ELSE BSub(b[1], b[2])
      s == BAbs(st)
  IN  IF ~BPos(len) THEN c = B0
      ELSE /\ BPos(c)
           /\ BLt(BMul(BSub(c, B1), s), len)
           /\ BLe(len, BMul(c, s))
\* two items select the same positions of an axis, c of them
BSameSel(x, y, n, c) ==
  /\ BCountOK(x, n, c) /\ BCountOK(y, n, c)
  /\ c = B0 \/ BBounds(x, n)[1] = BBounds(y, n)[1]
  /\ BLe(c, B1) \/ BStep(x) = BStep(y)
BNormInt(v, n) == IF v.n = 1 THEN BAdd(v, n) ELSE v
===============================================================================
