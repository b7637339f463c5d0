"""Calls the index functions of gcs and records arguments and results as
events for spec/FuncTrace.tla.  Cases: an exhaustive small domain plus random
ones (seeded)."""
import io
import contextlib
import itertools
import random
import sys
import warnings

import executor as X
from executor import BIG, NIL, S, prod, indices, py_item, sat_item, clamp, parts

warnings.simplefilter('ignore')
from gcs import slice_tools as T  # noqa: E402
import gcs_basics as B  # noqa: E402
from gen import twinparts  # noqa: E402


def enc_item(v):
    if isinstance(v, int):
        return [0, v]
    if v is None:
        return [1]
    out = [2]
    for p in (v.start, v.stop, v.step):
        out += [0, 0] if p is None else [1, max(-BIG, min(BIG, int(p)))]
    return out


def ints(seq):
    return [clamp(i) for i in seq]


def cstrides(shape):
    return [prod(shape[i + 1:]) for i in range(len(shape))]


# ---- runners: fill in the results ------------------------------------------------
def run_slice(e):
    s, size = py_item(e['x']['raw']), e['size']
    r = T.reduced(s, size)
    e['r'] = enc_item(r)
    e['n'] = clamp(T.nitems(r, size, reduce=False))
    e['n2'] = clamp(T.nitems(s, size))


def run_index(e):
    raw = [py_item(it) for it in e['x']['raw']]
    shape, strides = tuple(e['shape']), tuple(e['strides'])
    arg = raw[0] if e['x'].get('bare') and len(raw) == 1 else tuple(raw)
    n = T.normalize_index(arg, shape)
    e['nidx'] = [enc_item(i) for i in n]
    e['sshape'] = ints(T.shape_strided(n, shape))
    a, b, c = T.index_strided(n, shape, strides, e['offset'])
    e['is'] = dict(shape=ints(a), strides=ints(b), offset=clamp(c))
    full = tuple(raw) + (None,) * (len(shape) - len(raw))
    a, b, c = T.apply_slices(full, shape, strides)
    e['ap'] = dict(shape=ints(a), strides=ints(b), offset=clamp(c))


def opt(r):
    return [-1] if r is None else ints(r)


def run_solve(e):
    sh, st = tuple(e['sshape']), tuple(e['sstrides'])
    rng = range(e['lo'], e['lo'] + e['npos'])
    e['res'] = [opt(T.solve_index(p, sh, st)) for p in rng]
    data = T.get_solve_index_data(st, shape=sh)
    e['pre'] = [opt(T.solve_index(p, sh, st, data=data)) for p in rng]
    shape, strides, off = tuple(e['shape']), tuple(cstrides(e['shape'])), e['soffset']
    e['gsi'], e['gis'], e['gi'], e['gp'] = [], [], [], []
    if e['x'].get('helpers'):
        e['gsi'] = [opt(S.get_slice_index(i, shape, strides, sh, st, off)) for i in indices(shape)]
        e['gis'] = [opt(S.get_index_slice(i, shape, strides, sh, st, off)) for i in indices(sh)]
        e['gi'] = [opt(S.get_index(p, shape, strides)) for p in range(prod(shape))]
        e['gp'] = [clamp(S.get_position(i, shape, strides)) for i in indices(shape)]


def run_dioph(e):
    x0, zs = T.diophantine(tuple(e['a']), e['c'])
    e['none'] = x0 is None
    e['x0'] = ints(x0 or ())
    e['zs'] = [ints(z) for z in zs]
    # the completeness criterion needs determinants that fit 32-bit integers
    m = max([abs(v) for z in e['zs'] for v in z] or [1]) or 1
    n = len(e['a']) - 1
    f = 1
    for i in range(2, n + 1):
        f *= i
    e['det'] = f * m ** n < 2 ** 30


PRIMES = [32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653, 32647, 32633, 32621, 32611,
          32609, 32603, 32587, 32579]   # as in spec/Diophantine.tla


def residues(v):
    return [v % p for p in PRIMES]


def big(s):
    return [int(v) for v in s]


def run_bigdioph(e):
    a, c, g = big(e['x']['a']), int(e['x']['c']), int(e['x']['g'])
    x0, zs = T.diophantine(tuple(a), c)
    e['none'] = x0 is None
    e['a'] = [residues(v) for v in a]
    e['c'] = residues(c)
    e['pr'] = [residues(v // g) for v in a]
    e['x0'] = [residues(v) for v in x0 or ()]
    e['zs'] = [[residues(v) for v in z] for z in zs]


def run_biggcd(e):
    a, b = big(e['x']['ab'])
    g, x, y = T.extgcd(a, b)
    e.update(a=residues(a), b=residues(b), g=residues(g), y=residues(y),
             want=residues(int(e['x']['g'])))
    e['X'] = residues(x)


def run_extgcd(e):
    g, x, y = T.extgcd(e['a'], e['b'])
    e.update(g=clamp(g), x_=0, y=clamp(y))
    e['X'] = clamp(x)


def run_compress(e):
    rows = list(e['rows'])
    e['comp'] = ints(S.compress_indices(rows, e['size']))
    e['kept'] = rows == e['rows']
    e['unc'] = ints(S.uncompress_indices(list(e['comp'])))
    e['basics'] = ints(B.compress_indices(list(e['rows']), e['size']))


def run_uncompress(e):
    e['unc'] = ints(S.uncompress_indices(list(e['crow'])))
    e['comp'] = ints(S.compress_indices(list(e['unc']), len(e['crow']) - 1))


def run_reduce(e):
    shape = tuple(e['shape'])
    g = parts(e['dims'], e['part'])
    rshape, rshapes, rstrides = S.make_reduction(shape, g)
    roff = tuple(e['roff'])
    e['rdims'] = [list(p) for p in g]
    e['rshapes'] = [ints(p) for p in rshapes]
    e['rstrides'] = [ints(p) for p in rstrides]
    e['rshape'] = ints(rshape)
    red = [S.reduce_index(rshapes, g, rstrides, roff, i) for i in indices(shape)]
    e['red'] = [ints(r) for r in red]
    rix = list(indices([prod([shape[d] for d in p]) for p in g]))
    rix = [tuple(map(sum, zip(i, roff))) for i in rix]
    pro = [S.promote_index(rshapes, g, rstrides, roff, r) for r in rix]
    e['pro'] = [ints(r) for r in pro]
    e['pro1'] = ([ints(S.promote_index(rshapes, g, rstrides, roff, r[0])) for r in rix]
                 if len(g) == 1 else [])
    e['back'] = [ints(S.promote_index(rshapes, g, rstrides, roff, r)) for r in red]
    e['forth'] = [ints(S.reduce_index(rshapes, g, rstrides, roff, i)) for i in pro]


def run_basics(e):
    shape = tuple(e['shape'])
    m = B.create_reduction_metadata(shape, tuple(e['dims']), tuple(e['part']))
    e['rdims'] = [ints(p) for p in m['reduction_dimensions']]
    e['rshapes'] = [ints(p) for p in m['reduction_shapes']]
    e['rstrides'] = [ints(p) for p in m['reduction_strides']]
    e['rshape'] = ints(m['reduction_shape'])
    red = [B.reduction(m, i) for i in indices(shape)]
    e['red'] = [ints(r) for r in red]
    g = parts(e['dims'], e['part'])
    rix = list(indices([prod([shape[d] for d in p]) for p in g]))
    pro = [B.promotion(m, r) for r in rix]
    e['pro'] = [ints(r) for r in pro]
    e['pro1'] = []
    e['back'] = [ints(B.promotion(m, r)) for r in red]
    e['forth'] = [ints(B.reduction(m, i)) for i in pro]


def run_lookup(e):
    """look up every index in every one of several sets of stored indices of one
    shape, in an order that goes to and fro between the sets"""
    shape = tuple(e['shape'])
    e['res'], e['res2'] = [], []
    ask, ask2 = [], []
    ixs_all = list(indices(shape))

    def none(r):
        return -1 if r is None else clamp(r)

    def buf(values):   # a buffer, possibly a window of a longer sequence
        b, a = e['x'].get('before', []), e['x'].get('after', [])
        return S.Buffer(len(values), len(b), b + list(values) + a)

    def prepare(ps):
        ixs = []
        for p in ps:
            ix = []
            for n in reversed(shape):
                ix.insert(0, p % n)
                p //= n
            ixs.append(ix)
        n = len(ixs)
        data = S.Buffer(n, 0, list(range(n)))
        if e['kind'] == 'COO':
            flat = [ix[i] for i in range(len(shape)) for ix in ixs]
            st = (n, 1)
            if e['x'].get('inter'):     # index tuples stored one after another
                flat = [v for ix in ixs for v in ix]
                st = (1, len(shape))
            ind = S.Strided((len(shape), n), st, buf(flat))
            f = lambda k: S.get_coo_position(ixs_all[k], shape, ind)
            a = S.COO(shape, ind, data)
        elif e['kind'] == 'FlatCOO':
            b = buf(ps)
            f = lambda k: S.get_flatcoo_position(k, shape, b)
            a = S.FlatCOO(shape, b, data)
        else:
            crow = [sum(1 for ix in ixs if ix[0] < r) for r in range(shape[0] + 1)]
            cb, col = buf(crow), buf([ix[1] for ix in ixs])
            f = lambda k: S.get_csr_position(ixs_all[k], shape, cb, col)
            a = S.CSR(shape, cb, col, data)
        ask.append(f)
        ask2.append(lambda k: a.get_data_position(ixs_all[k]))
    for ps in e['sets']:
        prepare(ps)
    order = [(s, k) for s in range(len(e['sets'])) for k in range(len(ixs_all))]
    if e['x'].get('order'):
        random.Random(e['x']['order']).shuffle(order)
    for key, fs in (('res', ask), ('res2', ask2)):
        e[key] = [[-2] * len(ixs_all) for _ in fs]
        for s, k in order:
            e[key][s][k] = none(fs[s](k))


# ---- axes of any size ---------------------------------------------------------------
def benc(i):
    m, d = abs(i), []
    while m:
        d.append(m % 10000)
        m //= 10000
    return dict(n=int(i < 0), d=d)


def bencs(seq):
    return [benc(i) for i in seq]


def benc_item(v):
    z = benc(0)
    out = dict(t=2, v=z, ha=0, a=z, hb=0, b=z, hc=0, c=z)
    if v is None:
        out['t'] = 1
    elif isinstance(v, int):
        out.update(t=0, v=benc(v))
    else:
        for k, p in zip('abc', (v.start, v.stop, v.step)):
            if p is not None:
                out['h' + k], out[k] = 1, benc(p)
    return out


def str_item(v):      # to and from the case file
    if v is None:
        return []
    if isinstance(v, int):
        return [str(v)]
    return ['' if p is None else str(p) for p in (v.start, v.stop, v.step)]


def unstr_item(v):
    if not v:
        return None
    if len(v) == 1:
        return int(v[0])
    return slice(*(int(p) if p else None for p in v))


def run_bigslice(e):
    s, size = unstr_item(e['x']['s']), int(e['x']['size'])
    r = T.reduced(s, size)
    e['r'] = benc_item(r)
    e['n'] = benc(T.nitems(r, size, reduce=False))
    e['n2'] = benc(T.nitems(s, size))


def run_bigindex(e):
    raw = [unstr_item(v) for v in e['x']['index']]
    shape, strides = tuple(big(e['x']['shape'])), tuple(big(e['x']['strides']))
    n = T.normalize_index(tuple(raw), shape)
    e['nidx'] = [benc_item(i) for i in n]
    e['sshape'] = bencs(T.shape_strided(n, shape))
    for k, (a, b, c) in (('is', T.index_strided(n, shape, strides, int(e['x']['offset']))),
                         ('ap', T.apply_slices(tuple(raw), shape, strides))):
        e[k] = dict(shape=bencs(a), strides=bencs(b), offset=benc(c))


def run_bigsolve(e):
    sh, st = tuple(big(e['x']['sshape'])), tuple(big(e['x']['sstrides']))
    ps = big(e['x']['pos'])

    def opt(r):
        return dict(none=r is None, ix=bencs(r or ()))
    e['res'] = [opt(T.solve_index(p, sh, st)) for p in ps]
    data = T.get_solve_index_data(st, shape=sh)
    e['pre'] = [opt(T.solve_index(p, sh, st, data=data)) for p in ps]


def run_bigreduce(e):
    shape = tuple(big(e['x']['shape']))
    ixs = [tuple(big(i)) for i in e['x']['ix']]
    if e['x']['basics']:
        m = B.create_reduction_metadata(shape, tuple(e['dims']), tuple(e['part']))
        g, rshape = m['reduction_dimensions'], m['reduction_shape']
        rshapes, rstrides = m['reduction_shapes'], m['reduction_strides']
        red = [B.reduction(m, i) for i in ixs]
        back = [B.promotion(m, i) for i in red]
    else:
        g = parts(e['dims'], e['part'])
        rshape, rshapes, rstrides = S.make_reduction(shape, g)
        roff = (0,) * len(g)
        red = [S.reduce_index(rshapes, g, rstrides, roff, i) for i in ixs]
        back = [S.promote_index(rshapes, g, rstrides, roff, i) for i in red]
    e['rdims'] = [ints(p) for p in g]
    e['rshapes'] = [bencs(p) for p in rshapes]
    e['rstrides'] = [bencs(p) for p in rstrides]
    e['rshape'] = bencs(rshape)
    e['red'] = [bencs(i) for i in red]
    e['back'] = [bencs(i) for i in back]


def run_biglookup(e):
    shape = tuple(big(e['x']['shape']))
    ixs = [tuple(big(i)) for i in e['x']['ixs']]
    qs = [tuple(big(i)) for i in e['x']['qs']]
    n = len(ixs)

    def none(r):
        return -1 if r is None else clamp(r)

    def buf(values):
        return S.Buffer(len(values), 0, list(values))
    data = buf(range(n))
    cs = cstrides(shape)
    if e['kind'] == 'COO':
        ind = S.Strided((len(shape), n), (n, 1), buf([i[d] for d in range(len(shape)) for i in ixs]))
        e['res'] = [none(S.get_coo_position(q, shape, ind)) for q in qs]
        a = S.COO(shape, ind, data)
    elif e['kind'] == 'FlatCOO':
        def flat(i):
            return sum(v * c for v, c in zip(i, cs))
        b = buf([flat(i) for i in ixs])
        e['res'] = [none(S.get_flatcoo_position(flat(q), shape, b)) for q in qs]
        a = S.FlatCOO(shape, b, data)
    else:
        crow = [sum(1 for i in ixs if i[0] < r) for r in range(shape[0] + 1)]
        cb, col = buf(crow), buf([i[1] for i in ixs])
        e['res'] = [none(S.get_csr_position(q, shape, cb, col)) for q in qs]
        a = S.CSR(shape, cb, col, data)
    e['res2'] = [none(a.get_data_position(q)) for q in qs]


RUN = dict(slice=run_slice, index=run_index, solve=run_solve, dioph=run_dioph, bigdioph=run_bigdioph,
           biggcd=run_biggcd, extgcd=run_extgcd, bigslice=run_bigslice, bigindex=run_bigindex,
           bigsolve=run_bigsolve, bigreduce=run_bigreduce, biglookup=run_biglookup,
           compress=run_compress, uncompress=run_uncompress, reduce=run_reduce, basics=run_basics,
           lookup=run_lookup)


def run(case):
    e = dict(case)
    e['out'] = 'ok'
    try:
        with contextlib.redirect_stdout(io.StringIO()), X.time_limit(X.OP_TIMEOUT):
            RUN[e['op']](e)
        if e['op'] == 'extgcd':
            e['x'] = e.pop('X')
        if e['op'] == 'biggcd':
            e['xx'], e['x'] = e['x'], e.pop('X')
    except (Exception, X.OpTimeout) as ex:
        e['out'] = 'raise'
        e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:100])
    return e


# ---- cases --------------------------------------------------------------------------
def rnd_bound(r, n):
    q = r.random()
    if q < .25:
        return None
    if q < .85:
        return r.randint(-n - 2, n + 2)
    return r.choice([2 ** 70, -2 ** 70, sys.maxsize, -sys.maxsize - 1, 3 * n + 1, -3 * n - 1, 10 ** 6])


def rnd_item(r, n, element=False):
    q = r.random()
    if (element or q < .25) and n > 0:
        return [0, r.randint(-n, n - 1)]
    if q < .4:
        return [1]
    out = [2]
    a, b = rnd_bound(r, n), rnd_bound(r, n)
    c = r.choice([None, 1, -1, 2, -2, 3, -3, n + 1, -n - 1, n or 1, -n or -1, 2 ** 66, -2 ** 66])
    if r.random() < .5 and n:
        for _ in range(4):
            if len(range(n)[slice(a, b, c)]):
                break
            a, b = rnd_bound(r, n), rnd_bound(r, n)
    for v in (a, b, c):
        out += [0, 0] if v is None else [1, v]
    return out


def rnd_shape(r, cap, maxd=6, empty=.08, mind=1):
    n = r.randint(mind, maxd)
    s = []
    for _ in range(n):
        left = max(1, cap // max(1, prod(s)))
        s.append(0 if r.random() < empty else r.randint(1, max(1, min(left, r.choice([2, 3, 5, 9])))))
    r.shuffle(s)
    return s


def compositions(n):
    for m in range(n):
        for c in itertools.combinations(range(1, n), m):
            yield list(c)


def cases_slice(r, n):
    bounds = lambda size: [None] + list(range(-size - 2, size + 3))
    allc = []
    for size in range(0, 5):
        for a in bounds(size):
            for b in bounds(size):
                for c in [None] + [k for k in range(-size - 2, size + 3) if k]:
                    allc.append((size, a, b, c))
    r.shuffle(allc)
    out = [(s, [2] + sum(([0, 0] if v is None else [1, v] for v in (a, b, c)), []))
           for s, a, b, c in allc[:n * 2 // 3]]
    while len(out) < n:
        size = r.choice([r.randint(0, 12), r.randint(0, 12), r.randint(13, 200), 1000])
        it = rnd_item(r, size)
        if r.random() < .05:     # a long axis, few items
            size = r.choice([2 ** 16, 10 ** 6, 2 ** 24, 10 ** 8]) + r.randint(-2, 2)
            v = [r.choice([None, r.randint(-size - 2, size + 2)]) for _ in 'ab']
            v.append(r.choice([1, -1]) * r.choice([size - 1, size, size + 1, size // 2, size // 7]))
            it = [2] + sum(([0, 0] if k is None else [1, k] for k in v), [])
        if it[0] == 2:
            out.append((size, it))
    for size, it in out:
        yield dict(op='slice', size=size, s=sat_item(it), x=dict(raw=it))


def cases_index(r, n):
    last = None
    for _ in range(n):
        shape = rnd_shape(r, 60, maxd=r.choice([3, 6, 6, 9]), mind=0 if r.random() < .1 else 1)
        q = r.random()
        if q < .4:
            st = cstrides(shape)
        else:
            st = [r.randint(-9, 9) for _ in shape]
        m = len(shape) if r.random() < .75 else r.randint(0, len(shape))
        raw = [rnd_item(r, k, r.random() < .1) for k in shape[:m]]
        if last and r.random() < .15:     # much in common with the last one
            q = r.choice(['strides', 'raw', 'size'])
            if q == 'size' and all(it[0] for it in last[2]):
                shape, st, raw = [max(0, k + r.choice([0, 0, 1, -1])) for k in last[0]], last[1], last[2]
            elif q == 'strides':
                shape, raw = last[0], last[2]
                st = [r.randint(-9, 9) for _ in shape]
            else:
                shape, st = last[:2]
                raw = [rnd_item(r, k, r.random() < .1) for k in shape]
        last = shape, st, raw
        yield dict(op='index', shape=shape, strides=st, offset=r.choice([0, 0, 5, -3, 17]),
                   index=[sat_item(i) for i in raw],
                   x=dict(raw=raw, bare=int(r.random() < .4)))


def cases_solve(r, n):
    last = None
    for _ in range(n):
        shape = rnd_shape(r, r.choice([12, 30, 60, 120]), maxd=r.choice([3, 6, 6, 6, 8]), empty=.03)
        if r.random() < .04:
            shape = [r.randint(1, 40), r.randint(1, 40)]
        again = last and r.random() < .2     # the items of the last one on another size
        stepped = not again and r.random() < .25    # many axes, each sliced with a step
        if stepped:
            shape = [r.choice([1, 2, 2, 3, 3, 3, 4, 5]) for _ in range(r.choice([4, 4, 5, 5, 6]))]
            while prod(shape) > 700:
                shape[r.randrange(len(shape))] = 2
        if again:
            shape = [r.choice([k + 1, k + 2, max(1, k - 1)]) if i == 0 or r.random() < .2 else k
                     for i, k in enumerate(last[0])]
        raw, sshape, sstrides, off = [], [], [], 0
        full = r.random() < .15
        for i, (k, c) in enumerate(zip(shape, cstrides(shape))):
            it = [1] if full else rnd_item(r, k)
            if again and (last[1][i][0] or -k <= last[1][i][1] < k):
                it = last[1][i]
            if stepped:
                it = [2, 0, 0, 0, 0, 1, r.choice([1, -1, 2, -2, 2, -2, 3, -3])]
            raw.append(it)
            if it[0] == 0:
                off += (it[1] % k) * c
            elif it[0] == 1:
                sshape.append(k)
                sstrides.append(c)
            else:
                rg = range(k)[py_item(it)]
                step = max(-k, min(k, rg.step)) or 1
                if len(rg) == 0:
                    step = 1
                else:
                    off += rg.start * c
                sshape.append(len(rg))
                sstrides.append(c * step)
        last = shape, raw
        N = prod(shape)
        lo, npos = -off - 2, N + 4
        if N > 150 and not stepped:
            lo, npos = r.randint(-off, N - off), 150
        yield dict(op='solve', shape=shape, index=[sat_item(i) for i in raw], sshape=sshape,
                   sstrides=sstrides, soffset=off, lo=lo, npos=npos,
                   x=dict(raw=raw, helpers=int(N <= 60 and 0 not in shape)))


def big_case(r):
    """large coefficients; the gcd is known by construction"""
    import math
    bits = r.choice([8, 16, 31, 33, 53, 64, 65])
    m = r.choice([1, 2, 2, 3, 3, 4, 5])
    pr = [r.choice([-1, 1]) * r.randint(1, 2 ** r.randint(1, bits)) for _ in range(m)]
    d = math.gcd(*pr)
    pr = [v // d for v in pr]
    g = r.choice([1, 1, 2, 6, 2 ** 31, 2 ** 64 + 1, r.randint(1, 2 ** bits)])
    if r.random() < .15 and m == 2:
        return dict(op='biggcd', x=dict(ab=[str(v * g) for v in pr], g=str(g)))
    k = r.randint(-2 ** bits, 2 ** bits)
    solv = g == 1 or r.random() < .6
    c = g * k if solv else g * k + r.choice([1, g - 1, r.randint(1, g - 1)])
    return dict(op='bigdioph', solv=solv, x=dict(a=[str(v * g) for v in pr], c=str(c), g=str(g)))


def cases_dioph(r, n):
    for i in range(n):
        if i % 5 == 0:
            k = 40
            yield dict(op='extgcd', a=r.randint(-k, k), b=r.randint(-k, k))
            continue
        if i % 5 == 1:
            yield big_case(r)
            continue
        m = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
        k = r.choice([1, 2, 3, 6, 12, 30, 100]) if m <= 4 else r.choice([2, 3, 6])
        f = r.choice([1, 1, 1, 2, 3])
        a = [f * r.choice([-1, 1]) * r.randint(1, k) for _ in range(m)]
        if r.random() < .3:   # strides-like
            sh = [r.randint(1, 4) for _ in range(m)]
            a = [v * r.choice([1, -1]) for v in cstrides(sh)]
        c = r.choice([0, r.randint(-20, 20), r.randint(-200, 200), f * r.randint(-20, 20)])
        yield dict(op='dioph', a=a, c=c)
        if r.random() < .1:      # the same coefficients, another side or order
            yield dict(op='dioph', a=a, c=-c if c and r.random() < .5 else c + r.randint(1, 3))
            yield dict(op='dioph', a=r.sample(a, m), c=c)
            yield dict(op='dioph', a=[r.choice([1, -1]) * v for v in a], c=c)


def cases_compress(r, n):
    ex = []
    for size in range(0, 5):
        for m in range(0, 5):
            if size == 0 and m:
                continue
            ex += [(size, list(c)) for c in itertools.combinations_with_replacement(range(size), m)]
    r.shuffle(ex)
    ex = ex[:max(1, n // 2)]
    while len(ex) < n:
        size = r.choice([r.randint(0, 6), r.randint(0, 30), r.randint(0, 100)])
        m = r.choice([0, 1, r.randint(0, 10), r.randint(0, 60)]) if size else 0
        if r.random() < .03:     # long lists
            size, m = r.choice([r.randint(200, 1500), 3]), r.choice([1, 50, r.randint(300, 1500)])
        pool = r.sample(range(size), r.randint(1, size)) if size else []
        if r.random() < .03:     # a long gap
            size = r.randint(100, 1200)
            pool, m = sorted([r.choice([0, r.randint(0, 40)]), size - r.choice([1, 1, r.randint(1, 40)])]), r.randint(1, 5)
        ex.append((size, sorted(r.choice(pool) for _ in range(m))))
    for size, rows in ex:
        yield dict(op='compress', rows=rows, size=size, x={})
        if r.random() < .1:     # the same indices, another number of rows; then one index less
            yield dict(op='compress', rows=rows, size=size + r.randint(1, 3), x={})
            yield dict(op='compress', rows=rows[:-1], size=size, x={})
        if r.random() < .3:
            crow = [0]
            for _ in range(size):
                crow.append(crow[-1] + r.choice([0, 0, 1, 2, 3]))
            yield dict(op='uncompress', crow=crow, x={})


def cases_reduce(r, n, op):
    ex = []
    for shape in [[2], [3], [1], [2, 3], [3, 1], [2, 2, 3], [1, 2, 2], [2, 1, 3]]:
        for dims in itertools.permutations(range(len(shape))):
            for part in compositions(len(shape)):
                ex.append((shape, list(dims), part))
    r.shuffle(ex)
    ex = ex[:n // 3]
    while len(ex) < n:
        shape = rnd_shape(r, r.choice([20, 60, 150]), empty=.04, maxd=r.choice([3, 5, 7]))
        dims = list(range(len(shape)))
        r.shuffle(dims)
        m = r.randint(1, len(shape))
        ex.append((shape, dims, sorted(r.sample(range(1, len(shape)), m - 1))))
        if r.random() < .06:
            ex.append(twinparts(r, 150))
    more = []
    for shape, dims, part in ex:
        more.append((shape, dims, part))
        if len(shape) > 1 and r.random() < .35:    # a case that has much in common with it
            q = r.choice(['dims', 'part', 'same', 'shape'])
            d = list(dims)
            i, j = r.sample(range(len(d)), 2)
            d[i], d[j] = d[j], d[i]
            if q == 'part':
                m = r.randint(1, len(shape))
                more.append((shape, dims, sorted(r.sample(range(1, len(shape)), m - 1))))
            elif q == 'same':     # the same permuted shape (d is another order of the axes)
                sh = list(shape)
                for a, b in zip(d, dims):
                    sh[a] = shape[b]
                more.append((sh, d, part))
            elif q == 'shape':
                sh = list(shape)
                sh[r.randrange(len(sh))] = r.randint(1, 3)
                more.append((sh, dims, part) if prod(sh) <= 200 else (shape, d, part))
            else:
                more.append((shape, d, part))
                eq = [(a, b) for a in range(len(d)) for b in range(a) if shape[dims[a]] == shape[dims[b]]]
                if eq:    # axes of one size
                    a, b = r.choice(eq)
                    d = list(dims)
                    d[a], d[b] = d[b], d[a]
                    more.append((shape, d, part))
    for shape, dims, part in more[:n * 5 // 4]:
        k = len(part) + 1
        roff = ([r.randint(-3, 9) for _ in range(k)] if op == 'reduce' and r.random() < .3
                else [0] * k)
        yield dict(op=op, shape=shape, dims=dims, part=part, roff=roff, x={})


def cases_lookup(r, n):
    for i in range(n):
        kind = ['COO', 'FlatCOO', 'CSR'][i % 3]
        cap = r.choice([6, 12, 30, 80, 200])
        shape = (rnd_shape(r, cap, maxd=5, empty=.03) if kind != 'CSR'
                 else rnd_shape(r, cap, maxd=2, mind=2, empty=.03))
        if kind == 'CSR' and r.random() < .3:
            shape = [r.randint(1, 3), r.randint(5, 60)]
        if kind != 'CSR' and r.random() < .15:
            shape = [r.randint(1, 150)]
        if r.random() < .02:     # many stored indices
            shape = r.choice([[3, r.randint(200, 500)], [1, r.randint(500, 1300)], [r.randint(200, 500), 3], [31, 40]] if kind == 'CSR' else
                             [[r.randint(500, 1500)], [r.randint(300, 700), 2], [9, 12, 10], [5, 5, 6, 5]])
        N = prod(shape)
        k = r.choice([0, 1, N, N - 1, r.randint(0, N), r.randint(0, N), 2, 3])
        if N > 400 and r.random() < .5:     # nearly all
            k = N - r.randint(0, 9)
        ps = sorted(r.sample(range(N), max(0, min(N, k))))
        x = {}
        if r.random() < .3:
            x = dict(before=[r.randint(0, 9) for _ in range(r.randint(0, 3))],
                     after=[r.randint(0, 9) for _ in range(r.randint(0, 3))])
        if r.random() < .2:
            x['inter'] = 1
        sets = [ps]
        if N and r.random() < .5:      # several arrays of the shape, often equally many stored
            x['order'] = r.randint(1, 10 ** 6)
            for _ in range(r.randint(0, 2) if N <= 60 else r.randint(0, 1)):
                k2 = len(ps) if r.random() < .6 else r.randint(0, N)
                sets.append(sorted(r.sample(range(N), k2)))
        yield dict(op='lookup', kind=kind, shape=shape, sets=sets, x=x)


# axes of any size; integers as decimal strings in x, digit sequences outside
BITS = [8, 16, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 70, 100]


def big_size(r, small=.25):
    if r.random() < small:
        return r.randint(1, 9)
    return max(1, 2 ** r.choice(BITS) + r.choice([0, 1, -1, r.randint(-9, 9), r.randint(0, 10 ** 6)]))


def big_int(r, n):
    """a position of an axis, often near its ends or a power of two"""
    q = r.random()
    if q < .3:
        return min(n - 1, r.randint(0, 5))
    if q < .6:
        return max(0, n - 1 - r.randint(0, 5))
    if q < .8:
        return min(n - 1, max(0, 2 ** r.choice(BITS) + r.randint(-2, 2)))
    return r.randint(0, n - 1)


def big_item(r, n):
    q = r.random()
    if q < .2:
        i = big_int(r, n)
        return r.choice([i, i - n])
    if q < .3:
        return None

    def bound():
        q = r.random()
        if q < .3:
            return None
        i = big_int(r, n)
        if q < .9:
            return r.choice([i, i - n, i + 1])
        return r.choice([n, -n, n + 1, -n - 1, 2 * n, -3 * n])
    a, b = bound(), bound()
    c = r.choice([None, 1, -1, 2, -2, 3, -3, 7, -7, 10, big_size(r), -big_size(r), n, -n, n // 2 or 1,
                  -(n // 3 or 1), n - 1 or 1, n + 1, 2 ** 53, -2 ** 53])
    return slice(a, b, c)


def big_sel(it, n):
    """first position, step and number of items"""
    if it is None:
        return 0, 1, n
    if isinstance(it, int):
        return it % n, 0, 1
    a, b, c = it.indices(n)
    rg = range(a, b, c)
    k = 0 if (a >= b if c > 0 else a <= b) else (abs(b - a) - 1) // abs(c) + 1
    return rg.start, c, k


def strs(seq):
    return [str(v) for v in seq]


def cases_bigslice(r, n):
    for _ in range(n):
        size = big_size(r, .05)
        s = big_item(r, size)
        while not isinstance(s, slice):
            s = big_item(r, size)
        yield dict(op='bigslice', size=benc(size), s=benc_item(s), x=dict(size=str(size), s=str_item(s)))


def cases_bigindex(r, n):
    for _ in range(n):
        shape = [big_size(r) for _ in range(r.randint(1, 8 if r.random() < .1 else 4))]
        st = cstrides(shape) if r.random() < .5 else [r.choice([1, -1]) * big_size(r) for _ in shape]
        ix = [big_item(r, k) for k in shape]
        off = r.choice([0, 3, -5, 2 ** 64, -2 ** 53 - 1])
        yield dict(op='bigindex', shape=bencs(shape), strides=bencs(st), offset=benc(off),
                   index=[benc_item(i) for i in ix],
                   x=dict(shape=strs(shape), strides=strs(st), offset=str(off), index=[str_item(i) for i in ix]))


def cases_bigsolve(r, n):
    for _ in range(n):
        shape = [big_size(r, .5) for _ in range(r.randint(1, r.choice([2, 3, 4, 5])))]
        cs, N = cstrides(shape), prod(shape)
        for _ in range(9):
            ix = [big_item(r, k) for k in shape]
            sel = [big_sel(i, k) for i, k in zip(ix, shape)]
            if all(k for _, _, k in sel):
                break
        else:
            ix = [None] * len(shape)
            sel = [big_sel(i, k) for i, k in zip(ix, shape)]
        ax = [i for i, it in enumerate(ix) if not isinstance(it, int)]
        sshape = [sel[i][2] for i in ax]
        # as reduced steps: not longer than the axis
        sst = [cs[i] * max(-shape[i], min(shape[i], sel[i][1])) for i in ax]
        sst = [s if k > 1 else s for s, k in zip(sst, sshape)]
        off = sum(c * f for c, (f, _, _) in zip(cs, sel))
        q = []
        for _ in range(12):
            u = [big_int(r, k) for k in sshape]
            if r.random() < .6:
                p = sum(a * b for a, b in zip(u, sst))
                q.append((p, dict(hit=True, ix=u, axis=0, q=0, r=0)))
                continue
            if r.random() < .2:
                p = r.choice([-1, N, -big_size(r), N + big_size(r)]) - off
                q.append((p, dict(hit=False, ix=[], axis=0, q=0, r=0)))
                continue
            full = [f for f, _, _ in sel]
            for i, v in zip(ax, u):
                full[i] += v * sel[i][1]
            # another position of one axis, not selected by its item
            i = r.randrange(len(shape))
            f, st, k = sel[i]
            for _ in range(9):
                v = r.choice([big_int(r, shape[i]), full[i] + r.choice([1, -1, st, -st]), f - st, f + k * st])
                if not 0 <= v < shape[i]:
                    continue
                a, b = divmod(v - f, abs(st)) if st else (0, 0)
                a = -a if st < 0 else a
                if (v != f) if not st else (b or not 0 <= a < k):
                    full[i] = v
                    p = sum(x * y for x, y in zip(full, cs)) - off
                    q.append((p, dict(hit=False, ix=list(full), axis=i + 1, q=a, r=b)))
                    break
        enc = [dict(hit=d['hit'], ix=bencs(d['ix']), axis=d['axis'], q=benc(d['q']), r=benc(d['r']), pos=benc(p))
               for p, d in q]
        yield dict(op='bigsolve', shape=bencs(shape), index=[benc_item(i) for i in ix], sshape=bencs(sshape),
                   sstrides=bencs(sst), soff=benc(off), q=enc,
                   x=dict(sshape=strs(sshape), sstrides=strs(sst), pos=strs(p for p, _ in q)))


def cases_bigreduce(r, n, basics):
    for _ in range(n):
        shape = [big_size(r) for _ in range(r.randint(1, 8 if r.random() < .2 else 5))]
        dims = list(range(len(shape)))
        r.shuffle(dims)
        part = sorted(r.sample(range(1, len(shape)), r.randint(0, len(shape) - 1)))
        ixs = [[big_int(r, k) for k in shape] for _ in range(8)]
        yield dict(op='bigreduce', shape=bencs(shape), dims=dims, part=part, ix=[bencs(i) for i in ixs],
                   x=dict(basics=int(r.random() < basics), shape=strs(shape), ix=[strs(i) for i in ixs]))


def cases_biglookup(r, n):
    for j in range(n):
        kind = ['COO', 'FlatCOO', 'CSR'][j % 3]
        shape = ([r.randint(1, 40), big_size(r)] if kind == 'CSR' else
                 [big_size(r) for _ in range(r.randint(1, 4))])
        near = [big_int(r, k) for k in shape]

        def one():
            return tuple(r.choice([near[i], big_int(r, k), min(k - 1, near[i] + 1)]) for i, k in enumerate(shape))
        ixs = sorted({one() for _ in range(r.choice([0, 1, 2, 3, 5, 9, 30, 30, 200]))})
        qs = [r.choice(ixs) if ixs and r.random() < .6 else one() for _ in range(14)]
        yield dict(op='biglookup', kind=kind, shape=bencs(shape), ixs=[bencs(i) for i in ixs],
                   qs=[bencs(i) for i in qs],
                   x=dict(shape=strs(shape), ixs=[strs(i) for i in ixs], qs=[strs(i) for i in qs]))


def mixed(small, bigs, share=.25):
    """the small cases, every few of them followed by one with big numbers"""
    def cases(r, n):
        m = int(n * share)
        it = bigs(r, m)
        for k, c in enumerate(small(r, n - m)):
            yield c
            if r.random() < share / (1 - share):
                yield from itertools.islice(it, 1)
        yield from it
    return cases


def cases_reduction(op, basics):
    return mixed(lambda r, n: cases_reduce(r, n, op), lambda r, n: cases_bigreduce(r, n, basics))


CASES = {
    'C10': mixed(cases_slice, cases_bigslice),
    'C11': mixed(cases_index, cases_bigindex, .2),
    'C12': mixed(cases_solve, cases_bigsolve),
    'C13': cases_dioph,
    'C14': cases_compress,
    'C09': cases_reduction('reduce', 0),
    'C21': mixed(lambda r, n: itertools.chain(cases_reduce(r, n * 3 // 4, 'basics'),
                                              cases_reduce(r, n // 4, 'reduce')),
                 lambda r, n: cases_bigreduce(r, n, .75)),
    'C22': mixed(cases_lookup, cases_biglookup),
}

if __name__ == '__main__':
    import json
    import time
    prof, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    slow = 0
    with open(out, 'w') as f:
        for c in CASES[prof](random.Random('%s/%d' % (prof, seed)), count):
            c.setdefault('x', {})
            e = run(c)
            f.write(json.dumps(e, separators=(',', ':')) + '\n')
            slow += e.get('err', '').startswith('OpTimeout')
            if slow > 2:    # calls do not return: enough has been seen
                break
    print(round(time.time() - t0, 2), 's')
