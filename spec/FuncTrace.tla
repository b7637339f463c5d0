------------------------------- MODULE FuncTrace -------------------------------
(***************************************************************************)
(* Trace validation of the index functions of gcs (slice_tools, storage,   *)
(* gcs_basics): each event is one group of calls with arguments and        *)
(* results; every clause is evaluated, violated clauses are collected.     *)
(***************************************************************************)
EXTENDS Compress, Diophantine, BigInt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, fails, seen
vars == <<l, fails, seen>>


(* ---- C10: reduced, nitems ------------------------------------------------- *)
SliceFails(e) ==
  LET sel == PySel(e.s, e.size)
      explicit == e.r[2] = 1 /\ e.r[6] = 1
  IN  If(PySel(e.r, e.size) = sel, "select")
      \cup If(e.n = Len(sel), "count")
      \cup If(e.n2 = Len(sel), "count")
      \cup If(e.size = 0 \/
              (explicit /\ [i \in 1..Len(sel) |-> (e.r[3] % e.size) + (i - 1) * e.r[7]] = sel),
              "positions")
      \cup If(\A i \in 1..Len(sel) : sel[i] \in 0..(e.size - 1), "within")

(* ---- C11: index arithmetic -------------------------------------------------- *)
Strd(r) == [shape |-> r.shape, strides |-> r.strides, offset |-> r.offset]

IndexFails(e) ==
  LET index == FullIndex(e.index, Len(e.shape))
      nz == 0 \notin Range(e.shape)
      sh == SliceShape(index, e.shape)
      wellformed == Len(e.nidx) = Len(e.shape)
                    /\ \A i \in 1..Len(e.nidx) : IsInt(e.nidx[i]) <=> IsInt(index[i])
  IN  If(wellformed, "normalize")
      \cup If(wellformed => /\ SliceShape(e.nidx, e.shape) = sh
                            /\ SliceSources(e.nidx, e.shape) = SliceSources(index, e.shape)
                            /\ \A i \in 1..Len(e.nidx) : IsInt(e.nidx[i]) =>
                                 e.nidx[i][2] \in 0..(e.shape[i] - 1), "normalize")
      \cup If(e.sshape = sh, "shape")
      \cup If(AddressesOK(Strd(e.is), index, e.shape, e.strides, e.offset), "index_strided")
      \cup If(AddressesOK(Strd(e.ap), index, e.shape, e.strides, 0), "apply_slices")

(* ---- C12: position lookup ---------------------------------------------------- *)
\* the slice (shape, strides, offset) of the row-major layout of e.shape
\* addressed by e.index; res[i] answers position e.lo + i - 1 (relative to
\* e.offset), <<-1>> is None
SolveFails(e) ==
  LET index == FullIndex(e.index, Len(e.shape))
      ix == IndexStrided(E(NormIndex(index, e.shape)), e.shape, CStrides(e.shape), 0)
      ps == StridedPositions(e.sshape, e.sstrides, 0)
      want(p) == LET h == {q \in 1..Len(ps) : ps[q] = p}
                 IN  IF h = {} THEN <<-1>> ELSE Unrank((CHOOSE q \in h : TRUE) - 1, e.sshape)
      cs == CStrides(e.shape)
  IN  \* the layout queried is a slice of a row-major layout
      If(/\ e.sshape = ix.shape
         /\ Len(e.sstrides) = Len(e.sshape), "layout")
      \cup If(\A i \in 1..Len(e.res) : e.res[i] = want(e.lo + i - 1), "solve")
      \cup If(\A i \in 1..Len(e.pre) : e.pre[i] = want(e.lo + i - 1), "solvepre")
      \cup If(\A i \in 1..Len(e.gsi) :    \* get_slice_index of each index of the array
                e.gsi[i] = want((i - 1) - e.soffset), "get_slice_index")
      \cup If(\A i \in 1..Len(e.gis) :    \* get_index_slice of each index of the slice
                e.gis[i] = Unrank(ps[i] + e.soffset, e.shape), "get_index_slice")
      \cup If(\A i \in 1..Len(e.gi) : e.gi[i] = Unrank(i - 1, e.shape), "get_index")
      \cup If(\A i \in 1..Len(e.gp) : e.gp[i] = i - 1, "get_position")

(* ---- C13 ------------------------------------------------------------------------ *)
DioFails(e) ==
  If(e.none <=> ~Solvable(e.a, e.c), "solvable")
  \cup IF e.none \/ ~Solvable(e.a, e.c) THEN {}
       ELSE If(Len(e.x0) = Len(e.a) /\ Dot(e.a, e.x0) = e.c, "particular")
            \cup If(SoundBasis(e.a, e.zs), "basis")
            \cup If((e.det /\ SoundBasis(e.a, e.zs)) => SpansKernel(e.a, e.zs), "complete")

\* coefficients of any size: solv and pr (the coefficients divided by their
\* gcd) are known by construction of the case
BigDioFails(e) ==
  If(e.none <=> ~e.solv, "solvable")
  \cup IF e.none \/ ~e.solv THEN {}
       ELSE If(ParticularMod(e.a, e.c, e.x0), "particular")
            \cup If(SoundBasisMod(e.a, e.zs), "basis")
            \cup If(SoundBasisMod(e.a, e.zs) => SpansKernelMod(e.pr, e.zs), "complete")

\* the gcd is known by construction
BigGcdFails(e) ==
  If(\A k \in 1..Len(Primes) : (e.a[k] * e.x[k] + e.b[k] * e.y[k]) % Primes[k] = e.g[k], "extgcd")
  \cup If(\/ \A k \in 1..Len(Primes) : e.g[k] = e.want[k]
          \/ \A k \in 1..Len(Primes) : e.g[k] = (Primes[k] - e.want[k]) % Primes[k], "gcd")

GcdFails(e) == If(ExtGcdOK(e.a, e.b, e.g, e.x, e.y), "extgcd")
               \cup If(Abs(e.g) = Gcd(e.a, e.b), "gcd")

(* ---- C14 ------------------------------------------------------------------------- *)
CompressFails(e) ==
  If(CompressedOK(e.rows, e.size, e.comp), "compress")
  \cup If(e.unc = e.rows, "uncompress")
  \cup If(e.basics = <<-1>> \/ CompressedOK(e.rows, e.size, e.basics), "basics")
  \cup If(e.kept, "kept")

UncompressFails(e) ==
  If(e.unc = UncompressSpec(e.crow), "uncompress")
  \cup If(e.comp = e.crow, "compress")

(* ---- C09, C21: dimensionality reduction -------------------------------------------- *)
MetaOK(e, parts) ==
  /\ e.rdims = parts
  /\ e.rshapes = [k \in 1..Len(parts) |-> PartShape(e.shape, parts[k])]
  /\ e.rstrides = [k \in 1..Len(parts) |-> PartStrides(e.shape, parts[k])]
  /\ e.rshape = ReducedShape(e.shape, parts)

\* red[q]: reduction of index number q; pro[q]: promotion of reduced index
\* number q, both in row-major order; reduced indices start at roff
ReduceFails(e) ==
  LET parts == E(Parts(e.dims, e.part))
      rshape == E(ReducedShape(e.shape, parts))
      Off(ix) == [k \in 1..Len(ix) |-> e.roff[k] + ix[k]]
  IN  If(MetaOK(e, parts), "metadata")
      \cup If(/\ Len(e.red) = Product(e.shape)
              /\ \A q \in 1..Len(e.red) :
                   e.red[q] = Off(ReduceIndex(Unrank(q - 1, e.shape), e.shape, parts)), "reduction")
      \cup If(/\ Len(e.pro) = Product(e.shape)
              /\ \A q \in 1..Len(e.pro) :
                   e.pro[q] = PromoteIndex(Unrank(q - 1, rshape), e.shape, parts), "promotion")
      \cup If(/\ Len(e.pro1) \in {0, Product(e.shape)}   \* integer argument, one part
              /\ \A q \in 1..Len(e.pro1) : e.pro1[q] = e.pro[q], "promotion")
      \cup If(Len(e.red) = Cardinality(Range(e.red)), "onetoone")
      \cup If(\A q \in 1..Len(e.red) : e.back[q] = Unrank(q - 1, e.shape), "inverse")
      \cup If(\A q \in 1..Len(e.pro) : e.forth[q] = Off(Unrank(q - 1, rshape)), "inverse")

(* ---- C22: lookup in sorted index arrays --------------------------------------------- *)
\* several sets of stored positions of one shape, looked up in turns;
\* res[t][q]: position found for index number q in set t, -1 for None
LookupFails(e) ==
  If(/\ Len(e.res) = Len(e.sets)
     /\ \A t \in 1..Len(e.sets) :
          /\ Len(e.res[t]) = Product(e.shape)
          /\ \A q \in 1..Len(e.res[t]) : e.res[t][q] = Find(e.sets[t], q - 1) - 1, e.kind)
  \cup If(e.res2 = e.res, "get_data_position")

(* ---- the same on axes of any size (integers as digit sequences, BigInt) --- *)
\* s selects cnt positions (a witness, checked); r is the reduced slice
BigSliceFails(e) ==
  LET c == e.n
      f == BBounds(e.s, e.size)[1]
  IN  If(BCountOK(e.s, e.size, e.n) /\ e.n2 = e.n, "count")
      \cup IF ~BCountOK(e.s, e.size, c) THEN {}
           ELSE If(BSameSel(e.s, e.r, e.size, c), "select")
                \cup If(/\ e.r.ha = 1 /\ e.r.hc = 1
                        /\ c = B0 \/ e.r.a = f \/ e.r.a = BSub(f, e.size)
                        /\ BLe(c, B1) \/ e.r.c = BStep(e.s), "positions")

\* addresses of a slice: cnt[i] items of axis i
BigAddr(e, got, base) ==
  LET ax == SelectSeq([i \in 1..Len(e.shape) |-> i], LAMBDA i : e.index[i].t # 0)
      first(i) == IF e.index[i].t = 0 THEN BNormInt(e.index[i].v, e.shape[i])
                  ELSE BBounds(e.index[i], e.shape[i])[1]
  IN  /\ Len(got.shape) = Len(ax) /\ Len(got.strides) = Len(ax)
      /\ \A k \in 1..Len(ax) : BCountOK(e.index[ax[k]], e.shape[ax[k]], got.shape[k])
      /\ \/ \E k \in 1..Len(ax) : got.shape[k] = B0
         \/ /\ got.offset = BAdd(base, BSum([i \in 1..Len(e.shape) |-> BMul(e.strides[i], first(i))]))
            /\ \A k \in 1..Len(ax) :
                 \/ got.shape[k] = B1
                 \/ got.strides[k] = BMul(e.strides[ax[k]], BStep(e.index[ax[k]]))

BigIndexFails(e) ==
  LET ok == /\ Len(e.nidx) = Len(e.shape)
            /\ \A i \in 1..Len(e.nidx) : (e.nidx[i].t = 0) <=> (e.index[i].t = 0)
      ax == SelectSeq([i \in 1..Len(e.shape) |-> i], LAMBDA i : e.index[i].t # 0)
      shok == /\ Len(e.sshape) = Len(ax)
              /\ \A k \in 1..Len(ax) : BCountOK(e.index[ax[k]], e.shape[ax[k]], e.sshape[k])
  IN  If(ok, "normalize")
      \cup If(shok, "shape")
      \cup If((ok /\ shok) =>
                /\ \A k \in 1..Len(ax) : BSameSel(e.index[ax[k]], e.nidx[ax[k]], e.shape[ax[k]], e.sshape[k])
                /\ \A i \in 1..Len(e.nidx) : e.nidx[i].t = 0 => e.nidx[i].v = BNormInt(e.index[i].v, e.shape[i]),
              "normalize")
      \cup If(BigAddr(e, e.is, e.offset), "index_strided")
      \cup If(BigAddr(e, e.ap, B0), "apply_slices")

BCStrides(shape) == [i \in 1..Len(shape) |-> BProd(SubSeq(shape, i + 1, Len(shape)))]
BWithin(ix, shape) == /\ Len(ix) = Len(shape)
                      /\ \A i \in 1..Len(ix) : BLe(B0, ix[i]) /\ BLt(ix[i], shape[i])

\* a slice (sshape, sstrides, soff) of the row-major layout of e.shape; each
\* query asks for a position.  q.hit: it is that of the slice's index q.ix;
\* else it is that of index q.ix of the whole array, which item number q.axis
\* does not select (q.q, q.r: quotient and remainder), or outside of the
\* whole array (q.axis = 0)
BigSolveFails(e) ==
  LET cs == E(BCStrides(e.shape))
      ax == SelectSeq([i \in 1..Len(e.shape) |-> i], LAMBDA i : e.index[i].t # 0)
      first(i) == IF e.index[i].t = 0 THEN BNormInt(e.index[i].v, e.shape[i])
                  ELSE BBounds(e.index[i], e.shape[i])[1]
      lay == /\ Len(e.sshape) = Len(ax) /\ Len(e.sstrides) = Len(ax)
             /\ \A k \in 1..Len(ax) :
                  /\ BCountOK(e.index[ax[k]], e.shape[ax[k]], e.sshape[k])
                  /\ e.sshape[k] # B0
                  /\ e.sshape[k] = B1 \/ e.sstrides[k] = BMul(cs[ax[k]], BStep(e.index[ax[k]]))
             /\ e.soff = BDot(cs, [i \in 1..Len(e.shape) |-> first(i)])
      sound(q) ==
        IF q.hit THEN BWithin(q.ix, e.sshape) /\ BDot(q.ix, e.sstrides) = q.pos
        ELSE IF q.axis = 0 THEN LET p == BAdd(q.pos, e.soff)
                                IN  p.n = 1 \/ BLe(BProd(e.shape), p)
        ELSE LET it == e.index[q.axis]
                 d == BSub(q.ix[q.axis], first(q.axis))
             IN  /\ BWithin(q.ix, e.shape)
                 /\ BDot(q.ix, cs) = BAdd(q.pos, e.soff)
                 /\ IF it.t = 0 THEN d # B0
                    ELSE /\ IsDivMod(d, BStep(it), q.q, q.r)
                         /\ \/ q.r # B0
                            \/ q.q.n = 1
                            \/ ~(\E k \in 1..Len(ax) : ax[k] = q.axis /\ BLt(q.q, e.sshape[k]))
      want(q) == IF q.hit THEN q.ix ELSE <<>>
      got(x) == IF x.none THEN <<>> ELSE x.ix
  IN  If(lay /\ \A i \in 1..Len(e.q) : sound(e.q[i]), "case")
      \cup If(\A i \in 1..Len(e.q) : e.res[i].none = ~e.q[i].hit /\ got(e.res[i]) = want(e.q[i]), "solve")
      \cup If(\A i \in 1..Len(e.q) : e.pre[i].none = ~e.q[i].hit /\ got(e.pre[i]) = want(e.q[i]), "solvepre")

\* sampled indices of an array of any size: its reduction, and back
BigReduceFails(e) ==
  LET parts == E(Parts(e.dims, e.part))
      psh(k) == [i \in 1..Len(parts[k]) |-> e.shape[parts[k][i] + 1]]
      pix(ix, k) == [i \in 1..Len(parts[k]) |-> ix[parts[k][i] + 1]]
      want(ix) == [k \in 1..Len(parts) |-> BDot(pix(ix, k), BCStrides(psh(k)))]
  IN  If(\A j \in 1..Len(e.ix) : BWithin(e.ix[j], e.shape), "case")
      \cup If(/\ e.rdims = parts
              /\ e.rshapes = [k \in 1..Len(parts) |-> psh(k)]
              /\ e.rstrides = [k \in 1..Len(parts) |-> BCStrides(psh(k))]
              /\ e.rshape = [k \in 1..Len(parts) |-> BProd(psh(k))], "metadata")
      \cup If(\A j \in 1..Len(e.ix) : e.red[j] = want(e.ix[j]), "reduction")
      \cup If(\A j \in 1..Len(e.ix) : e.back[j] = e.ix[j], "inverse")

\* sorted indices (or flat positions) of elements of an array of any size
BigLookupFails(e) ==
  LET lt(a, b) == LET d == {i \in 1..Len(a) : a[i] # b[i]}
                  IN  d # {} /\ LET k == CHOOSE i \in d : \A j \in d : i <= j IN BLt(a[k], b[k])
      find(ix) == LET h == {k \in 1..Len(e.ixs) : e.ixs[k] = ix}
                  IN  IF h = {} THEN -1 ELSE (CHOOSE k \in h : TRUE) - 1
  IN  If(/\ \A k \in 1..Len(e.ixs) : BWithin(e.ixs[k], e.shape)
         /\ \A k \in 1..(Len(e.ixs) - 1) : lt(e.ixs[k], e.ixs[k + 1]), "case")
      \cup If(\A j \in 1..Len(e.qs) : e.res[j] = find(e.qs[j]), e.kind)
      \cup If(\A j \in 1..Len(e.qs) : e.res2[j] = find(e.qs[j]), "get_data_position")

(* ---- consuming ------------------------------------------------------------------------- *)
Fails(e) ==
  IF e.out = "raise" THEN {"raise"}
  ELSE CASE e.op = "skip"       -> {}
         [] e.op = "slice"      -> SliceFails(e)
         [] e.op = "index"      -> IndexFails(e)
         [] e.op = "solve"      -> SolveFails(e)
         [] e.op = "dioph"      -> DioFails(e)
         [] e.op = "bigdioph" -> BigDioFails(e)
         [] e.op = "biggcd" -> BigGcdFails(e)
         [] e.op = "extgcd"     -> GcdFails(e)
         [] e.op = "compress"   -> CompressFails(e)
         [] e.op = "uncompress" -> UncompressFails(e)
         [] e.op = "reduce"     -> ReduceFails(e)
         [] e.op = "basics"     -> ReduceFails(e)
         [] e.op = "lookup"     -> LookupFails(e)
         [] e.op = "bigslice"   -> BigSliceFails(e)
         [] e.op = "bigindex"   -> BigIndexFails(e)
         [] e.op = "bigsolve"   -> BigSolveFails(e)
         [] e.op = "bigreduce"  -> BigReduceFails(e)
         [] e.op = "biglookup"  -> BigLookupFails(e)

Init == l = 1 /\ fails = <<>> /\ seen = 0

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ seen' = seen + 1
  /\ LET f == Fails(Trace[l])
     IN  IF f = {} THEN UNCHANGED fails
         ELSE fails' = fails \o SetToSeq({[l |-> l, op |-> Trace[l].op, kind |-> "", clause |-> c] : c \in f})

Finish ==
  /\ l = Len(Trace) + 1
  /\ l' = l + 1
  /\ JsonSerialize(IOEnv.VERDICT, [events |-> Len(Trace), validated |-> seen, fails |-> fails])
  /\ UNCHANGED <<fails, seen>>

Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
