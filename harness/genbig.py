"""Runs programs over sparse arrays of any shape on the real code and records
them as events for spec/SparseTrace.tla."""
import contextlib
import io
import random
import sys
import warnings

import executor as X
from executor import OP_TIMEOUT, Encoder, OpTimeout, S, nest, parts, prod, py_item, indices, clamp
from genfunc import benc

warnings.simplefilter('ignore')
LIM = 2 ** 30


def fits(v):
    return max(-LIM, min(LIM, int(v)))


def buf(values, u=None):
    return S.Buffer(len(values), 0, list(values), unspecified=u)


class BigExecutor:
    """One program.  Arrays other than the one returned are observed after
    every operation: elements in order (not of DM arrays) and probes."""

    def __init__(self, mode='int'):
        self.E = Encoder(mode)
        self.objs, self.last, self.probes = [], [], []
        self.sources = []

    def light(self, a, probes):
        o = dict(pvals=[self.E.enc(a[tuple(p)]) for p in probes], probes=probes, eidx=[], evals=[])
        if not isinstance(a, S.DM):
            for i, v in a.elements():
                o['eidx'].append([fits(j) for j in i])
                o['evals'].append(self.E.enc(v))
        return o

    def observe(self, a, probes):
        o = self.light(a, probes)
        k = type(a).__name__
        r = dict(rows=[], f=[], crow=[], cols=[])
        if k == 'COO':
            r['rows'] = [[fits(a.indices[i, j]) for j in range(a.indices.shape[1])]
                         for i in range(a.indices.shape[0])]
        elif k == 'FlatCOO':
            r['f'] = [benc(int(v)) for v in a.findices]
        elif k == 'CSR':
            r['crow'] = [fits(v) for v in a.crow_indices]
            r['cols'] = [fits(v) for v in a.col_indices]
        # is_full of a DM array enumerates its elements
        fk = k != 'DM' or max(a.shape) <= 3000
        n = [self.E.enc(a[tuple(i - m for i, m in zip(p, a.shape))]) for p in probes]
        return dict(o, k=k, shape=[fits(v) for v in a.shape], u=self.E.enc(a.unspecified), nvals=n,
                    size=clamp(a.size), full=bool(a.is_full()) if fk else False, fk=fk, len=fits(a.shape[0]), rep=r), o

    def changes(self):
        chg = []
        for i, a in enumerate(self.objs):
            try:
                o = self.light(a, self.probes[i])
            except Exception as ex:
                o = dict(eidx=[[-1]], evals=[0], probes=[], pvals=[-1], error=repr(ex)[:80])
            if o != self.last[i]:
                self.last[i] = o
                chg.append(dict(h=i + 1, **o))
        return chg

    def make(self, e):
        op, dec = e['op'], self.E.dec
        if op == 'SparseOver':
            shape, ixs = tuple(e['shape']), e['idx']
            n = len(ixs)
            data = buf([dec(t) for t in e['vals']], dec(e['u']))
            if e['kind'] == 'COO':
                if e['x'].get('inter'):
                    ind = S.Strided((len(shape), n), (1, len(shape)), buf([v for i in ixs for v in i]))
                else:
                    ind = S.Strided((len(shape), n), (n, 1), buf([i[d] for d in range(len(shape)) for i in ixs]))
                return S.COO(shape, ind, data)
            if e['kind'] == 'FlatCOO':
                fl = [sum(v * prod(shape[d + 1:]) for d, v in enumerate(i)) for i in ixs]
                return S.FlatCOO(shape, buf(fl), data)
            crow = [sum(1 for i in ixs if i[0] < r) for r in range(shape[0] + 1)]
            return S.CSR(shape, buf(crow), buf([i[1] for i in ixs]), data)
        a = self.objs[e['h'] - 1]
        if op == 'DMOver':
            shape = tuple(e['shape'])
            g = parts(e['dims'], e['part'])
            rs = tuple(tuple(prod([shape[d] for d in p[i + 1:]]) for i in range(len(p))) for p in g)
            return S.DM(shape, g, rs, (0,) * len(g), a)
        if op == 'Slice':
            return a[self.index(e)]
        if op == 'Conv':
            if e['x'].get('via') == 'fromobject':
                return X.CLS[e['kind']].fromobject(a)
            return getattr(a, 'as_' + e['kind'])()
        if op == 'Copy':
            return a.copy(unspecified=dec(e['u'])) if e['ue'] else a.copy()
        raise ValueError(op)

    def index(self, e):
        ix = tuple(py_item(it) for it in e['index'])
        return ix[0] if e['x'].get('bare') and len(ix) == 1 else ix

    MAKE = {'SparseOver', 'DMOver', 'Slice', 'Conv', 'Copy'}

    def run(self, op):
        e = dict(op)
        e.setdefault('x', {})
        try:
            with contextlib.redirect_stdout(io.StringIO()), X.time_limit(OP_TIMEOUT):
                return self._run(e)
        except OpTimeout:
            e.update(out='raise', stage=e.get('stage', 'op'), err='timeout', chg=[], again=True, src=True)
            return e

    def _run(self, e):
        o = e['op']
        e.update(out='ok', stage='op', chg=[], again=True, src=True)
        if o == 'Reset':
            return e
        res = light = None
        try:
            if o in self.MAKE:
                a = self.make(e)
                e['same'] = o in ('Conv', 'Copy') and a is self.objs[e['h'] - 1]
                e['stage'] = 'read'
                e['obs'], light = self.observe(a, e['probes'])
                if e['x'].get('twice'):
                    b = self.make(e)
                    e['again'] = self.observe(b, e['probes'])[0] == e['obs'] == self.observe(a, e['probes'])[0]
                res = a
            elif o == 'Get':
                a = self.objs[e['h'] - 1]
                e['val'] = self.E.enc(a[self.index(e)])
                e['again'] = self.E.enc(a[self.index(e)]) == e['val']
            elif o == 'Set':
                a = self.objs[e['h'] - 1]
                if e['vh']:
                    v = self.objs[e['vh'] - 1]
                else:
                    v = nest([self.E.dec(t) for t in e['vals']], e['x']['vshape'], e['x'].get('nest', 'list'))
                    keep = nest([self.E.dec(t) for t in e['vals']], e['x']['vshape'], e['x'].get('nest', 'list'))
                    self.sources.append((v, keep))
                a[self.index(e)] = v
            elif o == 'Cmp':
                a, b = self.objs[e['h'] - 1], self.objs[e['g'] - 1]
                for rnd in (0, 1):
                    r = dict(equal=bool(a.equal(b)), eq=bool(a == b), ne=bool(a != b))
                    if rnd:
                        e['again'] = all(e[k] == r[k] for k in r)
                    e.update(r)
            else:
                raise ValueError(o)
        except Exception as ex:
            e['out'] = 'raise'
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
            res = None
        e['chg'] = self.changes()
        if any(a != b for a, b in self.sources):
            e['src'] = False
        if res is not None:
            self.objs.append(res)
            self.last.append(light)
            self.probes.append(e['probes'])
        return e


# ---- programs -------------------------------------------------------------------------
class Gen:
    def __init__(self, r, profile):
        self.r, self.p = r, profile
        self.mode = r.choice(['int', 'int', 'float', 'str', 'mixed', 'tuple', 'big', 'obj', 'dict'])
        self.sh = []       # what the generator knows of the arrays: k, shape, idx, ...
        self.u = 500
        # index tuples stored one after another: another layout, which == may tell apart
        self.inter = int(r.random() < .2)
        self.v = 0

    def value(self):
        self.v += 1
        return self.v

    def near(self, n, base):
        r = self.r
        q = r.random()
        if q < .5:
            return max(0, min(n - 1, base + r.choice([0, 0, 1, -1, 2, -3, 7, 10])))
        if q < .75:
            return r.choice([0, n - 1])
        return r.randint(0, n - 1)

    def new(self, kind=None, rshape=None):
        r = self.r
        kind = kind or r.choice(['COO', 'COO', 'FlatCOO', 'FlatCOO', 'CSR'])

        def axis():
            q = r.random()
            if q < .3:
                return r.randint(1, 6)
            if q < .5:
                return r.randint(7, 2000)
            return min(LIM - 1, 2 ** r.choice([12, 16, 20, 24, 29, 30]) + r.choice([0, -1, 1, r.randint(-99, 99)]))
        if rshape:
            shape = rshape
        elif kind == 'CSR':
            shape = [r.randint(1, 60), axis()]
        else:
            shape = [axis() for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5]))]
        base = [r.randint(0, n - 1) for n in shape]
        m = r.choice([0, 1, 2, 4, 6, 8, 12, 25])
        idx = sorted({tuple(self.near(n, b) for n, b in zip(shape, base)) for _ in range(m)})
        self.u += 1
        u = r.choice([self.u, X.NIL, 0])
        e = dict(op='SparseOver', kind=kind, shape=shape, idx=[list(i) for i in idx],
                 vals=[self.value() for _ in idx], u=u, x=dict(inter=self.inter))
        return e, dict(k=kind, st=kind, shape=shape, idx=idx, u=u, g=[])

    def probe(self, o):
        r = self.r
        if 0 in o['shape']:
            return []
        # all the elements of a DM array (assignments to its storage show there)
        ps = [list(i) for i in o['idx'][:99 if o['k'] == 'DM' else 8]]
        for _ in range(5):
            b = r.choice(o['idx']) if o['idx'] else [0] * len(o['shape'])
            ps.append([self.near(n, v) for n, v in zip(o['shape'], b)])
        return ps

    def item(self, n, at, fixed):
        r = self.r
        q = r.random()
        if q < fixed:
            return [0, r.choice([at, at - n])]
        if q < fixed + .15:
            return [1]

        def near():
            v = max(-1, min(n, at + r.choice([0, 0, 1, -1, -2, 4, -5, 10, -10, 100, -1000, -n // 2, n // 3])))
            return v
        out = [2]
        c = r.choice([None, 1, 1, -1, 2, -2, 3, -3, 7, -9, n, -n, n // 2 or 1, -(n // 3) or -1])
        lo, hi = sorted((near(), near()))
        if r.random() < .3:
            lo = None
        if r.random() < .3:
            hi = None
        a, b = (lo, None if hi is None else hi + 1) if (c or 1) > 0 else (hi, None if lo is None else lo - 1)
        if c and r.random() < .4 and abs(c) > 1:      # hit the element
            a = at + r.randint(0, 4) * -c
            a = max(0, min(n - 1, a))
            if (a - at) % abs(c):
                a = at

        def signed(v):      # -1 written as itself means the last position
            if v is None:
                return None
            if v < 0:
                return -n - 1
            if v < n and r.random() < .3:
                return v - n
            return v
        for v in (signed(a), signed(b), c):
            out += [0, 0] if v is None else [1, v]
        return out

    def pick(self, test=lambda o: True):
        c = [i for i, o in enumerate(self.sh) if test(o)]
        return self.r.choice(c) if c else None

    def shadow(self, h, index):
        """the elements selected (only to choose probes and shapes)"""
        o = self.sh[h]
        full = list(index) + [[1]] * (len(o['shape']) - len(index))
        rgs = [range(n)[py_item(it)] if it[0] == 2 else range(n) for it, n in zip(full, o['shape'])]
        fixed = [it[0] == 0 for it in full]
        shape = [len(g) for g, f in zip(rgs, fixed) if not f]
        idx = []
        for t in o['idx']:
            p = []
            for v, it, g, f, n in zip(t, full, rgs, fixed, o['shape']):
                if f:
                    if it[1] % n != v:
                        break
                elif v not in g:
                    break
                else:
                    p.append(g.index(v))
            else:
                idx.append(tuple(p))
        return shape, sorted(idx), fixed

    def choose_index(self, o, fixed=.15, full=False):
        at = self.r.choice(o['idx']) if o['idx'] and self.r.random() < .9 else [self.r.randint(0, n - 1) for n in o['shape']]
        n = len(o['shape']) if full or self.r.random() < .8 else self.r.randint(1, len(o['shape']))
        return [self.item(k, v, fixed) for k, v in list(zip(o['shape'], at))[:n]]

    def op(self):
        r = self.r
        w = dict(new=1, slice=5, conv=2, copy=1, set=3, get=2, cmp=2, dm=2)
        for k, v in {'C02': dict(slice=12), 'C03': dict(dm=6, slice=10), 'C04': dict(set=9), 'C05': dict(set=8, slice=6, conv=4),
                     'C06': dict(conv=9), 'C07': dict(copy=8), 'C08': dict(conv=4, slice=10), 'C16': dict(cmp=8, conv=4),
                     'C17': dict(copy=6, set=6), 'C09': dict(dm=6)}.get(self.p, {}).items():
            w[k] = v
        kind = r.choices(list(w), list(w.values()))[0]
        if kind == 'new' or not self.sh:
            e, o = self.new()
            return e, o
        if kind == 'dm':
            # a sparse array and a shape reduced to its own
            n = r.randint(2, 5)
            dims = list(range(n))
            r.shuffle(dims)
            m = r.choice([1, 2, 2, 3]) if n > 2 else r.choice([1, 2])
            part = sorted(r.sample(range(1, n), m - 1))
            g = parts(dims, part)
            shape = [0] * n
            for p in g:
                left = LIM - 1
                for i, d in enumerate(p):
                    cap = max(1, min(left, 2 ** r.choice([1, 3, 8, 15, 29 if len(p) == 1 else 9])))
                    shape[d] = r.randint(1, cap)
                    left //= shape[d]
            rshape = [prod([shape[d] for d in p]) for p in g]
            kinds = ['COO', 'FlatCOO']
            if len(rshape) == 2 and rshape[0] <= 60:
                kinds.append('CSR')
            self.todo = (shape, dims, part)
            e, o = self.new(r.choice(kinds), rshape)
            return e, o
        if kind == 'slice':
            h = self.pick(lambda o: 0 not in o['shape'])
            if h is None:
                return None
            o = self.sh[h]
            fixed = r.choice([0, .2, .4])
            ix = self.choose_index(o, fixed)
            shape, idx, fx = self.shadow(h, ix)
            if not shape:
                return None
            if o['st'] == 'CSR' and any(fx) and prod(o['shape'] if o['k'] != 'DM' else o['base']) > 1500:
                return None
            if o['k'] == 'DM':
                whole = [all(fx[a] for a in p) for p in o['g']]
                if any(whole):     # the storage is sliced
                    if o['st'] == 'CSR':
                        return None
                keep = [[a - sum(fx[:a]) for a in p if not fx[a]] for p in o['g']]
                keep = [p for p in keep if p]
                n = dict(o, shape=shape, idx=idx, g=keep)
                if any(whole):
                    n['base'] = [b for b, x in zip(o['base'], whole) if not x]
            else:
                k = 'COO' if o['k'] == 'CSR' and any(fx) else o['k']
                n = dict(k=k, st=k, shape=shape, idx=idx, u=o['u'], g=[])
            return dict(op='Slice', h=h + 1, index=ix, x=dict(bare=int(r.random() < .3))), n
        if kind == 'conv':
            # the others enumerate the whole array
            pairs = {'COO': ['COO', 'FlatCOO', 'CSR'], 'FlatCOO': ['COO', 'FlatCOO', 'CSR']}
            h = self.pick(lambda o: o['k'] in pairs and 0 not in o['shape'])
            if h is None:
                return None
            o = self.sh[h]
            k = r.choice(pairs[o['k']])
            if k == 'CSR' and (len(o['shape']) != 2 or o['shape'][0] > 300):
                return None
            return dict(op='Conv', h=h + 1, kind=k, ue=False, u=o['u'],
                        x=dict(via=r.choice(['as', 'fromobject']))), dict(o, k=k, st=k)
        if kind == 'copy':
            h = self.pick()
            o = self.sh[h]
            ue = r.random() < (.7 if self.p == 'C07' else .4)
            u = o['u']
            if ue:
                self.u += 1
                u = self.u
            return dict(op='Copy', h=h + 1, ue=ue, u=u, x={}), dict(o, u=u)
        if kind == 'get':
            h = self.pick(lambda o: 0 not in o['shape'])
            if h is None:
                return None
            o = self.sh[h]
            p = r.choice(self.probe(o))
            return dict(op='Get', h=h + 1, index=[[0, r.choice([v, v - n])] for v, n in zip(p, o['shape'])],
                        x=dict(bare=int(len(p) == 1 and r.random() < .5))), None
        if kind == 'cmp':
            h = self.pick(lambda o: o['k'] != 'DM')
            g = self.pick(lambda o: o['k'] != 'DM' and (h is None or r.random() < .4 or o['shape'] == self.sh[h]['shape']))
            if h is None or g is None or self.inter:
                return None
            return dict(op='Cmp', h=h + 1, g=g + 1, x={}), None
        # set
        h = self.pick(lambda o: o['k'] != 'DM' and 0 not in o['shape'])
        if h is None:
            return None
        o = self.sh[h]
        ix = self.choose_index(o, r.choice([.2, .6, 1, 1]))
        shape, idx, fx = self.shadow(h, ix)
        if r.random() < .5:
            vh = self.pick(lambda v: v['shape'] == shape and v['k'] != 'DM')
            if vh is not None and vh != h and shape and not self.related(vh, h):
                return dict(op='Set', h=h + 1, index=ix, vh=vh + 1, vals=[], x={}), None
        if prod(shape) > 40 or 0 in shape:
            return None
        vals = [self.value() for _ in range(prod(shape))]
        return dict(op='Set', h=h + 1, index=ix, vh=0, vals=vals,
                    x=dict(vshape=shape, nest=r.choice(['list', 'tuple', 'mixed']), bare=int(r.random() < .3))), None

    def related(self, a, b):      # could they share elements?
        return self.root[a] == self.root[b]

    def program(self):
        self.todo = None
        self.root = []
        self.ex = BigExecutor(self.mode)
        yield dict(op='Reset', mode=self.mode, x={})
        for _ in range(self.r.randint(4, 12)):
            got = self.op()
            if got is None:
                continue
            steps = [got]
            while steps:
                e, o = steps.pop(0)
                if o is not None:
                    e['probes'] = self.probe(o)
                    e['x']['twice'] = int(self.r.random() < .2)
                ev = self.ex.run(e)
                yield ev
                if ev['out'] != 'ok':
                    return
                if o is not None:
                    self.sh.append(o)
                    self.root.append(self.root[e['h'] - 1] if e['op'] in ('DMOver', 'Slice', 'Conv') else len(self.sh))
                if self.todo:
                    shape, dims, part = self.todo
                    self.todo = None
                    g = parts(dims, part)
                    s = self.sh[-1]
                    idx = []
                    for t in s['idx']:
                        full = [0] * len(shape)
                        for k, p in enumerate(g):
                            v = t[k]
                            for d in reversed(p):
                                full[d] = v % shape[d]
                                v //= shape[d]
                        idx.append(tuple(full))
                    steps.append((dict(op='DMOver', h=len(self.sh), shape=shape, dims=dims, part=part, x={}),
                                  dict(k='DM', st=s['st'], shape=shape, idx=idx, u=s['u'], g=[list(p) for p in g],
                                       base=s['shape'])))


if __name__ == '__main__':
    import json
    import resource
    import time
    prof, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    slow = 0
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    with open(out, 'w') as f:
        for i in range(count):
            g = Gen(random.Random('big/%s/%d/%d' % (prof, seed, i)), prof)
            for e in g.program():
                f.write(json.dumps(e, separators=(',', ':')) + '\n')
                slow += e.get('err') == 'timeout'
            if slow > 2:
                break
    print(round(time.time() - t0, 2), 's')
