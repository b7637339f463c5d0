"""Random program generator: chooses operations on arrays of all formats.

Programs are built online: the shapes of the arrays observed so far determine
which operations are applicable; all choices derive from the seed.
"""
import random

from executor import NIL, BIG, Executor, parts, prod, sel_shape, sat_item, py_item

KINDS = ['Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM']

BASE = dict(Stack=.8, BufOver=.5, New=3, Slice=6, Get=1, Set=4, Conv=3, Copy=1.5, Cmp=1.5, CmpSeq=0.5, Win=1, BufGet=0.7,
            BufSet=0.7, Bad=.25, Unset=.1, StridedOver=1.6, SparseOver=0.8, DMOver=1, Obs=0.7, Print=0.3, Iter=0.3, Few=.1)

# what each property's check runs more of (multipliers), and first-array formats
PROFILES = {
    'C01': dict(Stack=3, New=6, BufOver=1.5, StridedOver=4, SparseOver=4, Slice=.3, Set=.2, Conv=.3),
    'C02': dict(Few=4, _chain=.15, _fan=.35, _over=.6, SparseOver=2, StridedOver=1.5, Slice=4, _kinds=['Strided', 'COO', 'FlatCOO', 'CSR'], Conv=.6, Set=.3, Win=.2),
    'C03': dict(_chain=.25, _fan=.35, _over=.4, Slice=4, DMOver=2, _kinds=['DM'], Set=.3, Conv=.5, Win=.2, Cmp=.3),
    'C04': dict(_set=.2, _use=.2, _fan=.2, Set=4, BufSet=2, Slice=1.5, Cmp=.2),
    'C05': dict(_set=.35, _use=.2, _fan=.2, Slice=2.5, Set=4, Conv=1.5, BufSet=3, Win=2, Cmp=.1),
    'C06': dict(_chain=.25, _fan=.2, _over=.4, mark=1, Conv=7, Slice=1.4, Set=.5, Cmp=.3, StridedOver=2, SparseOver=1.5, DMOver=1.5),
    'C07': dict(_chain=.3, mark=1.5, Conv=4, Copy=4, New=1.5, _ue=.9, Cmp=.2, Set=1),
    'C08': dict(Few=10, _chain=.15, _few=.2, _fan=.35, _over=.4, SparseOver=1.5, _kinds=['COO', 'FlatCOO', 'CSR', 'COO', 'FlatCOO', 'CSR', 'DM'], Slice=2.5, Conv=3,
                Copy=2, Set=.4),
    'C09': dict(_chain=.2, _fan=.2, _kinds=['DM'], DMOver=5, Slice=2, Conv=1.5, New=1.5),
    'C15': dict(Few=4, Unset=3, _use=.3, _fan=.2, New=1.5, Slice=2, Conv=2, Copy=2, Set=1),
    'C16': dict(Unset=3, _use=.3, Cmp=8, CmpSeq=6, Slice=1, Set=.6, Copy=2),
    'C17': dict(_chain=.15, _set=.35, _over=.6, StridedOver=2, Copy=7, Set=3, BufSet=3, Slice=1.5),
    'C18': dict(_chain=.15, Unset=4, _fan=.2, _few=.25, _use=.4, mark=1.5, Set=1.5, Slice=2, Conv=2, Copy=2, New=2),
    'C19': dict(Win=12, BufGet=10, BufSet=5, Iter=8, BufOver=6, Bad=5, _kinds=['Buffer'], Slice=.3, Conv=.3),
    'C20': dict(_use=.2, _twice=.6, Print=6, Get=3, Obs=3, Cmp=2, Set=.5),
    'C23': dict(Bad=18, Set=1, Slice=.6, New=1.5, _kinds=KINDS + ['Buffer']),
    'all': {},
}


def twinparts(r, cap):
    """shape, dimension order and partitioning with parts that have the same sizes in another order"""
    while True:
        t = r.sample([1, 2, 3, 4], 2) if r.random() < .8 else [1, 2, 3]
        parts = [r.sample(t, len(t)) for _ in range(2)] + [[r.choice([1, 2, 2, 3])] for _ in range(r.randint(0, 1))]
        if r.random() < .3:
            r.shuffle(parts)
        n = sum(map(len, parts))
        if prod(sum(parts, [])) <= cap:
            break
    dims = list(range(n))
    if r.random() < .7:
        r.shuffle(dims)
    shape, k = [0] * n, 0
    for q in sum(parts, []):
        shape[dims[k]] = q
        k += 1
    return shape, dims, [sum(map(len, parts[:i])) for i in range(1, len(parts))]


class Stop(Exception):
    pass


class Gen:
    def __init__(self, rng, profile='all', cap=None):
        self.r = rng
        # a few short programs on arrays of thousands of elements
        self.large = profile.startswith('large:')
        profile = profile.split(':')[-1]
        self.prof = PROFILES[profile]
        self.w = {k: v * self.prof.get(k, 1) for k, v in BASE.items()}
        r = rng
        self.mode = r.choice(['int'] * 6 + ['mixed', 'str', 'float', 'big', 'tuple', 'alias', 'obj', 'dict'])
        self.cap = cap or (r.choice([400, 900]) if r.random() < .015
                           else r.choice([12, 24, 40, 60, 60, 120]))
        self.lazy = r.random() < .15
        if self.large:
            self.cap, self.lazy = 5000, False
        self.maxdim = r.choice([2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6, 8])
        self.emptyp = r.choice([0, 0, 0, .05, .15])
        self.marker = r.choice([NIL, NIL, NIL, 0, 0, 1, 2, 7, -5, r.randint(3, 40)])
        self.density = r.choice([0, .1, .2, .5, .5, .8, 1, 1])
        self.uniq = r.random() < .7
        # many operations on one array
        self.fan = not self.large and r.random() < self.prof.get('_fan', .1)
        if self.fan:
            self.density = r.choice([.1, .2, .5, .8, .8, 1, 1])
            k = r.choice(['Slice', 'Slice', 'Slice', 'Conv'])
            if self.w['Set'] >= self.w['Slice']:
                k = r.choice(['Slice', 'Set', 'Set'])
            if self.w['Conv'] > self.w['Slice']:
                k = r.choice(['Slice', 'Conv', 'Conv'])
            self.w[k] *= 8
            self.w['New'] = 0
            self.cap, self.maxdim = r.choice([24, 40, 60, 60]), r.choice([2, 3, 3, 3, 4])
            self.emptyp = 0
        self.next = 1
        self.mk = 600000
        if self.lazy:
            self.uniq = True
        self.ex = Executor(self.mode, self.lazy)
        self.fam, self.ov, self.deep, self.made = [], [], [], []
        self.marked, self.follow, self.force = [], None, None
        self.twice = self.prof.get('_twice', .08)
        self.ue = self.prof.get('_ue', .25)
        self.events = []
        self.long = r.random() < .08

    # -- basic choices
    def pick(self, weights):
        ks = list(weights)
        return self.r.choices(ks, [weights[k] for k in ks])[0]

    def token(self):
        if self.uniq:
            self.next += 1
            if self.next == self.marker:
                self.next += 1
            return self.next
        return self.r.choice([0, 1, 2, 3, self.marker])

    def shape(self, ndim=None, cap=None):
        r = self.r
        cap = cap or self.cap
        if self.large and r.random() < .9:
            n = ndim or r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
            m = r.choice([300, 600, 1100, 2100, 4200])    # about as many elements
            m = min(m, {3: 600, 4: 300}.get(n, m) if n < 5 else 150)
            if n == 1:
                return [r.randint(m, m + 300)]
            s = [max(2, round(m ** (1 / n)))] * n
            if n == 2 and r.random() < .6:
                s = [r.choice([2, 3, 5]), m // 3]
                r.shuffle(s)
            if r.random() < .5:
                s[r.randrange(n)] += 1
            return s
        if self.long and ndim in (None, 1) and r.random() < .5:
            # also one more or less than a power of two
            return [r.choice([r.randint(100, 400), r.choice([16, 32, 64, 128, 256]) + r.choice([-1, 0, 1, 1, 2])])]
        n = ndim or r.randint(2 if self.fan and r.random() < .9 else 1, self.maxdim)
        s = []
        if r.random() < .12:     # all axes of one size
            k = r.choice([2, 2, 3, 3, 4])
            while n > 1 and k ** n > cap:
                k, n = (k - 1, n) if k > 2 else (k, n if ndim else n - 1)
                if k == 2 and ndim:
                    break
            if k ** n <= cap:
                return [k] * n
        for i in range(n):
            left = max(1, cap // max(1, prod(s)))
            if r.random() < self.emptyp:
                s.append(0)
            elif r.random() < .12:
                s.append(1)
            else:
                m = min(left, r.choice([2, 3, 3, 4, 5, 7, 12]))
                s.append(r.randint(1, max(1, m)) if r.random() < .5 else m)
        r.shuffle(s)
        return s

    def fill(self, n, u):
        r = self.r
        d = self.density
        out = []
        for _ in range(n):
            if r.random() < d:
                out.append(self.token())
            else:
                out.append(r.choice([NIL, u, u]))
        if n and r.random() < self.prof.get('_few', .06) and not self.lazy:   # only the first or last element, or all but one
            m = r.choice('flabrr')
            k = 0 if m == 'f' else n - 1 if m == 'l' else r.randrange(n)
            if m in 'fl':
                out = [u] * n
                out[k] = self.token()
            elif m == 'r':     # a short run only
                k = r.randrange(n)
                out = [u] * n
                for i in range(k, min(n, k + r.randint(2, 4))):
                    out[i] = self.token()
            elif m == 'a':
                out = [self.token() for _ in range(n)]
                out[k] = u
        return out

    def dm_levels(self, shape, skind=None):
        """levels of a DM array over the given shape, storage kind"""
        r = self.r
        n = len(shape)
        x = {}
        dims = list(range(n))
        if r.random() < .75:
            r.shuffle(dims)
        m = r.randint(1, min(n, r.choice([1, 2, 2, 3, 4, 6])))
        if r.random() < .08:     # no axes joined
            m = n
            if r.random() < .5:
                dims.sort()
        part = sorted(r.sample(range(1, n), m - 1)) if n > 1 else []
        lv = [dict(dims=dims, part=part)]
        if m == 1:
            sk = r.choice(['Strided', 'Strided', 'COO', 'FlatCOO', 'Buffer'])
        elif m == 2:
            sk = r.choice(['Strided', 'Strided', 'COO', 'FlatCOO', 'CSR', 'CSR'])
        else:
            sk = r.choice(['Strided', 'COO', 'FlatCOO'])
        p = r.random()
        if p < .12:      # all defaults
            x.update(dimdef=1, partdef=1, clsdef=1)
            lv = [dict(dims=list(range(n)), part=[n - 1] if n > 1 else [])]
            sk = 'Strided'
            if r.random() < .5:
                sk = 'Buffer' if r.random() < .2 else sk
                if sk == 'Buffer':
                    lv[0]['part'] = []
                x.pop('clsdef')
        elif p < .3:     # nested DM, inner level by defaults
            x.update(deep=1)
            lv.append(dict(dims=list(range(m)), part=[m - 1] if m > 1 else []))
            sk = 'Strided'
        elif p < .45:    # nested DM with its own mapping
            d2 = list(range(m))
            r.shuffle(d2)
            m2 = r.randint(1, m)
            p2 = sorted(r.sample(range(1, m), m2 - 1)) if m > 1 else []
            lv.append(dict(dims=d2, part=p2))
            sk = r.choice({1: ['Strided', 'COO', 'FlatCOO', 'Buffer'],
                           2: ['Strided', 'COO', 'FlatCOO', 'CSR']}.get(
                               m2, ['Strided', 'COO', 'FlatCOO']))
        elif len(lv[0]['part']) == 1 and r.random() < .4:
            x['partint'] = 1
        return lv, sk, x

    def item(self, n):
        r = self.r
        p = r.random()
        if p < .18:
            return [1]
        if p < .38 and n > 0:
            return [0, r.randint(-n, n - 1)]
        if p < .45:
            return [2, 0, 0, 0, 0, 0, 0]

        def bound():
            q = r.random()
            if q < .3:
                return None
            if q < .85:
                return r.randint(-n - 1, n + 1)
            if q < .97:
                return r.choice([-2 * n, 2 * n, -n - 2, n + 2, 0, -1, n])
            return r.choice([BIG * 8, -BIG * 8, 2 ** 70, -2 ** 70, 1000, -1000])
        a, b = bound(), bound()
        q = r.random()
        c = (None if q < .25 else 1 if q < .4 else -1 if q < .6
             else r.choice([2, -2, 3, -3, 2, -2, n + 1, -n - 1, n or 1, -n or -1, 5, -7]) if q < .97
             else r.choice([2 ** 65, -2 ** 65, 1000, -1000]))
        if r.random() < (.9 if self.fan else .55) and n > 0:   # prefer non-empty selections
            m = min(n, r.choice([1, 2, 2, 3])) if self.fan else 1
            for _ in range(4):
                if len(range(n)[slice(a, b, c)]) >= m:
                    break
                a, b = bound(), bound()
        out = [2]
        for v in (a, b, c):
            out += [0, 0] if v is None else [1, v]
        return out

    def window(self, n):
        r = self.r
        if n < 2 or r.random() < .3:
            return [1]
        a = r.randint(0, n - 1)
        b = r.randint(a + 1, n)
        it = [2, 1, a if r.random() < .7 else a - n, 1, b, 0, 0]
        if b == n or r.random() < .3:
            it[3:5] = [0, 0]
        elif r.random() < .3:
            it[4] = b - n
        if a == 0 and r.random() < .5:
            it[1:3] = [0, 0]
        if r.random() < .3:
            it[5:] = [1, 1]
        return it

    def index(self, shape, element=False):
        r = self.r
        n = len(shape)
        if element:
            ix = [[0, r.randint(-k, k - 1)] for k in shape]
        else:
            m = n if r.random() < .75 else r.randint(0, n)
            style = r.random()
            if style >= (.6 if self.fan or self.large else .82) and n > 1:     # most of the array, without some axes
                ix = [r.choice([[1], [1], [2, 0, 0, 0, 0, 1, -1], self.window(k)]) for k in shape]
                for i in r.sample(range(n), min(n - 1, r.choice([0, 1, 1, 1, 2, 3, n - 1]))):
                    if shape[i]:
                        ix[i] = [0, r.randint(-shape[i], shape[i] - 1)]
                if r.random() < .3:
                    i = r.randrange(n)
                    ix[i] = self.item(shape[i])
            elif style < .12:      # unit steps, not empty
                ix = [self.window(k) for k in shape[:m]]
            elif style < .2:    # all or some axes reversed
                ix = [r.choice([[2, 0, 0, 0, 0, 1, -1], [2, 0, 0, 0, 0, 1, -1], [1]])
                      for k in shape[:m]]
            elif style < .28:    # one axis only
                ix = [[1] for k in shape]
                if ix:
                    k = r.choice([r.randrange(n), n - 1])
                    ix[k] = self.item(shape[k]) if r.random() < .7 else [2, 0, 0, 0, 0, 1, -1]
            else:
                ix = [self.item(k) for k in shape[:m]]
            if len(ix) == n and all(i[0] == 0 for i in ix):
                if n == 0:
                    raise Stop()
                ix[r.randrange(n)] = [2, 0, 0, 0, 0, 1, r.choice([1, -1, 2, -2])]
        x = dict(raw=ix)
        if len(ix) == 1 and r.random() < .5:
            x['bare'] = 1
        elif r.random() < .08:
            x['ilist'] = 1
        return [sat_item(i) for i in ix], x

    # -- candidates
    def handles(self, test=lambda a: True):
        return [i + 1 for i, a in enumerate(self.ex.objs) if test(a)]

    def kind(self, h):
        return type(self.ex.objs[h - 1]).__name__

    def sh(self, h):
        return list(self.ex.objs[h - 1].shape)

    def choose(self, hs):
        if not hs:
            raise Stop()
        if self.force in hs:
            h, self.force = self.force, None
            return h
        p = self.r.random()
        if self.fan and hs[0] == 1 and p < .75:
            return 1
        if p < .1:     # a large one
            return max(hs, key=lambda h: prod(self.ex.objs[h - 1].shape))
        return hs[-1] if p < .4 else self.r.choice(hs)

    def nd(self, h):
        return len(self.ex.objs[h - 1].shape)

    # -- operations
    def op_New(self, kind=None, shape=None):
        r = self.r
        square = (kind is None and shape is None and not self.ex.objs
                  and 'DM' in self.prof.get('_kinds', KINDS) and r.random() < .06)
        if square:     # axes of one size, permuted and unpartitioned over its storage
            kind, k, n = 'DM', r.choice([2, 3, 3, 4]), r.choice([2, 2, 2, 3])
            shape = [k] * n if k ** n <= self.cap else [2, 2]
        twin = None
        if kind is None and shape is None and 'DM' in self.prof.get('_kinds', KINDS) and r.random() < .04:
            # parts with the same sizes in another order
            kind, twin = 'DM', twinparts(r, self.cap)
            shape = twin[0]
        kind = kind or r.choice(self.prof.get('_kinds', KINDS))
        if shape is None:
            shape = self.shape(2 if kind == 'CSR' else None)
        if kind == 'CSR' and len(shape) != 2:
            raise Stop()
        x = dict(nshape=list(shape), nest=r.choice(['list', 'list', 'tuple', 'mixed']))
        ue = r.random() < max(.6 if self.marker != NIL else .1, self.ue if self.ue > .5 else 0)
        u = self.marker if ue else NIL
        inp = self.fill(prod(shape), u)
        e = dict(op='New', kind=kind, levels=[], skind='', shape=list(shape), u=u, ue=ue, input=inp)
        if kind == 'Buffer':
            e['shape'] = [prod(shape)]
        if kind == 'DM':
            e['levels'], e['skind'], xx = self.dm_levels(shape)
            if square:
                dims = list(range(len(shape)))
                r.shuffle(dims)
                e['levels'] = [dict(dims=dims, part=list(range(1, len(shape))))]
                e['skind'] = r.choice(['Strided', 'COO', 'FlatCOO'] + ['CSR'] * 2 * (len(shape) == 2))
                xx = {}
            if twin:
                e['levels'] = [dict(dims=twin[1], part=twin[2])]
                e['skind'] = r.choice(['Strided', 'COO', 'FlatCOO'] + ['CSR'] * (len(twin[2]) == 1))
                xx = {}
            x.update(xx)
            x['deep'] = xx.get('deep', 0)
        # a nested sequence cannot express (0, n), nor tuple values: pass the shape
        if (0 in shape and shape.index(0) < len(shape) - 1 or r.random() < .08
                or self.mode == 'tuple'):
            x['giveshape'] = 1
        if r.random() < .1:
            x['mut'] = 1
        e['x'] = x
        return e

    def op_Few(self):
        """a sparse array of several axes with few elements, sliced"""
        r = self.r
        if self.lazy or self.long:
            raise Stop()
        kind = r.choice(['COO', 'FlatCOO', 'FlatCOO', 'CSR'])
        shape = [r.choice([2, 2, 3, 4, 5]) for _ in range(2 if kind == 'CSR' else r.choice([2, 3, 3, 4]))]
        if prod(shape) > 80:
            raise Stop()
        e = self.op_New(kind, shape)
        n = prod(shape)
        k = r.randrange(n)
        at = {i for i in range(k, min(n, k + r.randint(2, 4))) if r.random() < .8} | {k}
        if r.random() < .5:
            at.add(r.randrange(n))
        u = e['u'] if e['ue'] else NIL
        e['input'] = [self.token() if i in at else r.choice([NIL, u]) for i in range(n)]
        self.do(e)
        h = len(self.ex.objs)
        if self.sh(h) != shape:
            raise Stop()
        ix = [r.choice([[2, 0, 0, 0, 0, 1, -1], [1], [1], self.window(k)]) for k in shape]
        if r.random() < .5:
            d = r.choice([len(shape) - 1, r.randrange(len(shape))])
            ix = [[2, 0, 0, 0, 0, 1, -1] if i == d else [1] for i in range(len(shape))]
        return dict(op='Slice', h=h, index=[sat_item(i) for i in ix], x=dict(raw=ix))

    def op_BufOver(self):
        r = self.r
        n = min(self.cap, r.choice([0, 1, 2, 3, 5, 8, 13, 21, 30]))
        off = r.randint(0, n) if r.random() < .7 else 0
        size = r.randint(0, n - off) if r.random() < .7 else n - off
        u = self.marker if r.random() < .6 else NIL
        if self.lazy and (self.density < 1 or self.marker != NIL):
            raise Stop()
        inp = self.fill(n, u)
        if u != NIL:
            inp = [u if t == NIL and r.random() < .8 else t for t in inp]
        return dict(op='BufOver', n=size, off=off, input=inp, u=u, kind='Buffer',
                    x=dict(seq=r.choice(['list', 'list', 'sub', 'seq']), kw=int(r.random() < .3),
                           giveu=r.randint(0, 1)))

    def stacks(self, hs, m):
        """handles of m arrays of one shape"""
        h = self.choose(hs)
        s = self.sh(h)
        same = [g for g in hs if self.sh(g) == s]
        return [h] + [self.r.choice(same) for _ in range(m - 1)], s

    def op_Stack(self):
        r = self.r
        kind = r.choice(self.prof.get('_kinds', KINDS))
        outer = r.choice([[1], [2], [2], [3], [2, 2], [1, 2], [3, 1]])
        hs, s = self.stacks(self.handles(lambda a: 1 <= len(a.shape) <= 4), prod(outer))
        shape = outer + s
        if (prod(shape) > (300 if self.large else self.cap) or kind == 'CSR' and len(shape) != 2
                or self.lazy and (self.density < 1 or self.marker != NIL)):
            raise Stop()
        ue = r.random() < self.ue and not self.lazy
        e = dict(op='Stack', kind=kind, levels=[], skind='', hs=hs, oshape=outer,
                 u=r.choice([NIL, self.marker, 0, 1]) if ue else NIL, ue=ue)
        x = dict(nest=r.choice(['list', 'list', 'tuple', 'mixed']), giveshape=int(r.random() < .1))
        if kind == 'DM':
            e['levels'], e['skind'], xx = self.dm_levels(shape)
            x.update(xx)
        e['x'] = x
        return e

    def op_StridedOver(self):
        r = self.r
        if r.random() < .4:     # every item of the buffer is an element, in another order
            d = r.choice([1, 2, 2, 3, 3, 3, 4])
            shape = self.shape(d, cap=min(self.cap, 48)) if d > 1 else [r.randint(1, 9)]
            if 0 not in shape:
                perm = list(range(d))
                r.shuffle(perm)
                if r.random() < .3:     # the last axis is contiguous
                    perm.remove(d - 1)
                    perm.insert(0, d - 1)
                strides, acc, sg = [0] * d, 1, r.choice([1, 1, 1, 0, -1])
                for i in perm:
                    strides[i] = acc * (sg or r.choice([1, -1]))
                    acc *= shape[i]
                self.do(self.op_New('Buffer', [acc]))
                if self.sh(len(self.ex.objs)) == [acc]:
                    return dict(op='StridedOver', h=len(self.ex.objs), shape=shape, strides=strides,
                                shift=-sum((k - 1) * t for k, t in zip(shape, strides) if t < 0),
                                x=dict(sliced=r.randint(0, 1)))
        hs = self.handles(lambda a: type(a).__name__ == 'Buffer' and a.shape[0] > 0)
        if not hs or r.random() < .3:
            self.do(self.op_New('Buffer', [r.randint(1, min(self.cap, 40))]))
            hs = self.handles(lambda a: type(a).__name__ == 'Buffer' and a.shape[0] > 0)
        h = self.choose(hs)
        b = self.ex.objs[h - 1]
        n = b.shape[0]
        for _ in range(20):
            d = r.randint(0, 3)
            shape = [r.randint(1, 4) for _ in range(d)]
            if r.random() < .1 and d:
                shape[r.randrange(d)] = 0
            # a layout of a bigger contiguous array, axes permuted, then steps and signs
            perm = list(range(d))
            r.shuffle(perm)
            strides, acc = [0] * d, r.choice([1, 1, 1, 2])
            for i in perm:
                strides[i] = acc * r.choice([1, 1, -1])
                acc *= shape[i] + r.choice([0, 0, 1])
                acc = max(acc, 1)
            if r.random() < .1 and d:
                strides[r.randrange(d)] = r.choice([0, 1, -1])
            lo = sum((k - 1) * s for k, s in zip(shape, strides) if s < 0 and k)
            hi = sum((k - 1) * s for k, s in zip(shape, strides) if s > 0 and k)
            if hi - lo < n and prod(shape) <= 60:
                # strides are relative to the first element: shift >= -lo
                shift = r.randint(-lo, n - 1 - hi)
                return dict(op='StridedOver', h=h, shape=shape, strides=strides, shift=shift,
                            x=dict(sliced=r.randint(0, 1)))
        raise Stop()

    def op_SparseOver(self):
        r = self.r
        kind = r.choice([k for k in ('COO', 'FlatCOO', 'CSR')
                         if k in self.prof.get('_kinds', KINDS)] or ['COO'])
        shape = self.shape(2 if kind == 'CSR' else None, cap=40)
        N = prod(shape)
        n = r.choice([0, 1, N, N - 1, r.randint(0, N), r.randint(0, N)])
        n = max(0, min(N, n))
        if self.lazy and self.density < 1:   # stored elements equal to the marker: eager only
            raise Stop()
        ps = sorted(r.sample(range(N), n))
        pre, post = r.choice([(0, 0), (0, 0), (1, 0), (3, 0), (0, 2), (2, 1)])
        self.do(self.op_New('Buffer', [n + pre + post]))
        if self.sh(len(self.ex.objs)) != [n + pre + post]:
            raise Stop()
        if n and pre + post:      # the values are a window of a longer Buffer
            self.do(dict(op='Win', h=len(self.ex.objs), sl=[2, 1, pre, 1, pre + n, 0, 0], x=dict(tup=0)))
        if self.sh(len(self.ex.objs)) != [n]:
            raise Stop()
        return dict(op='SparseOver', h=len(self.ex.objs), kind=kind, shape=shape, ps=ps,
                    x=dict(foff=r.choice([0, 0, 1, 3])))

    def op_DMOver(self):
        r = self.r
        hs = self.handles(lambda a: 1 <= len(a.shape) <= 3)
        if r.random() < .3 or not hs:
            k = r.choice(['Strided', 'COO', 'FlatCOO', 'CSR', 'DM', 'Buffer'])
            nd = {'CSR': 2, 'Buffer': 1}.get(k, r.randint(1, 3))
            s = [r.choice([1, 2, 3, 4, 6, 8]) for _ in range(nd)]
            if prod(s) > self.cap:
                raise Stop()
            self.do(self.op_New(k, s))
            hs = [len(self.ex.objs)]
        h = self.choose(hs)
        s = self.sh(h)
        m = len(s)
        # factor each storage dimension into one or more axes
        groups = []
        for n in s:
            f = []
            while True:
                divs = [d for d in range(2, n) if n % d == 0] if n > 1 else []
                if not divs or r.random() < .3 or len(f) >= 2:
                    f.append(n)
                    break
                d = r.choice(divs)
                f.append(d)
                n //= d
            if r.random() < .15:
                f.insert(r.randint(0, len(f)), 1)
            groups.append(f)
        ax = sum(map(len, groups))
        if ax > 6:
            raise Stop()
        dims = list(range(ax))
        r.shuffle(dims)
        shape = [0] * ax
        part, k = [], 0
        for f in groups:
            for n in f:
                shape[dims[k]] = n
                k += 1
            part.append(k)
        return dict(op='DMOver', h=h, shape=shape, dims=dims, part=part[:-1], x={})

    def op_Slice(self):
        hs = self.handles(lambda a: len(a.shape) >= 1 and type(a).__name__ != 'Buffer')
        pk = self.prof.get('_kinds')
        if pk:
            hs2 = [h for h in hs if self.kind(h) in pk]
            if hs2 and self.r.random() < .8:
                hs = hs2
        h = self.choose(hs)
        ix, x = self.index(self.sh(h))
        few = self.kind(h) in ('COO', 'FlatCOO', 'CSR') and 1 < self.ex.objs[h - 1].size < 8
        if (few or self.plain(h)) and self.r.random() < .3:     # the same shape again
            ix = [self.r.choice([[2, 0, 0, 0, 0, 1, -1], [1]]) for _ in self.sh(h)]
            x = dict(raw=ix)
        elif self.kind(h) == 'DM' and self.r.random() < .15 and len(self.ex.objs[h - 1].rdimensions) > 1:
            ix, x = self.partindex(h)
        if self.r.random() < self.twice:
            x['twice'] = 1
        return dict(op='Slice', h=h, index=ix, x=x)

    def partindex(self, h):
        """an index that fixes all axes of one part of a DM array"""
        r, a = self.r, self.ex.objs[h - 1]
        fixed = max(r.sample(list(a.rdimensions), 2), key=len)
        if len(fixed) == len(a.shape) or any(a.shape[i] == 0 for i in fixed):
            raise Stop()
        ix = [[0, r.choice([r.randint(-k, k - 1), k - 1])] if i in fixed else
              r.choice([[1], [2, 0, 0, 0, 0, 1, -1], self.window(k), self.item(k)])
              for i, k in enumerate(a.shape)]
        if all(i[0] == 0 for i in ix):
            raise Stop()
        return [sat_item(i) for i in ix], dict(raw=ix)

    def op_Get(self):
        h = self.choose(self.handles(lambda a: prod(a.shape) > 0 and type(a).__name__ != 'Buffer'))
        ix, x = self.index(self.sh(h), element=True)
        return dict(op='Get', h=h, index=ix, x=x)

    def op_Obs(self):
        return dict(op='Obs', h=self.choose(self.handles()), x={})

    def op_Print(self):
        return dict(op='Print', h=self.choose(self.handles()), x={})

    def op_Bad(self):
        r = self.r
        what = r.choice(['get', 'get', 'set', 'set', 'set', 'conv', 'ctor', 'ctor', 'ragged'])
        e = dict(op='Bad', what=what, kind='-', h=0)
        x = {}
        if what in ('get', 'set'):
            h = self.choose(self.handles(lambda a: len(a.shape) >= 1))
            shape = self.sh(h)
            buf = self.kind(h) == 'Buffer'
            x['buf'] = int(buf)
            n = len(shape)
            if buf:
                b = self.ex.objs[h - 1]
                m, off = len(b.data), b.offset
                q = r.choice(['far', 'far', 'two', 'other', 'none', 'slice' if what == 'set' else 'far'])
                ix = {'far': [[0, r.choice([m - off, m - off + r.randint(0, 5), -m - off - 1, 10 ** 6])]],
                      'two': [[0, 0], [0, 0]], 'other': [[3, r.randrange(7)]],
                      'none': [], 'slice': [self.item(shape[0]) if r.random() < .7 else [1]]}[q]
                if q == 'slice' and ix[0][0] == 0:
                    raise Stop()
                x['bare'] = int(r.random() < .7)
            else:
                q = r.choice(['long', 'long', 'other', 'other', 'zero'])
                ix = [self.item(k) for k in shape]
                if q == 'zero' and 0 in shape:
                    k = shape.index(0)
                    ix[k] = [0, r.choice([0, 0, -1, 3])]
                    ix = ix[:r.randint(k + 1, n)]
                elif q == 'long':
                    # more items than axes; the first ones may well be an element
                    if r.random() < .5 and 0 not in shape:
                        ix = [[0, r.randint(-k, k - 1)] for k in shape]
                    ix += [[1]] * r.choice([0, 0, 1]) + [r.choice([[0, 0], [0, 1], [2, 0, 0, 0, 0, 0, 0]])]
                else:
                    ix[r.randrange(n)] = [3, r.randrange(len(Executor.OTHER))]
                    m = 1 + max(i for i in range(n) if ix[i][0] == 3)
                    ix = ix[:r.randint(m, n)]
                x['bare'] = int(len(ix) == 1 and ix[0][0] == 3 and ix[0][1] < 5)
                x['aslist'] = int(r.random() < .2)
            x['raw'] = ix
            e.update(h=h, index=[[3] if i[0] == 3 else sat_item(i) for i in ix], val=self.token())
        elif what == 'conv':
            h = self.choose(self.handles(lambda a: len(a.shape) >= 1))
            n = self.nd(h)
            e.update(h=h, kind=r.choice(['CSR', 'DM', 'DM', 'DM']) if n != 2 else 'DM', skind='')
            x['via'] = r.choice(['as', 'fromobject'])
            if e['kind'] == 'DM':
                dims = list(range(n))
                r.shuffle(dims)
                m = r.randint(1, n)
                part = sorted(r.sample(range(1, n), m - 1)) if n > 1 else []
                q = r.choice(['dup', 'miss', 'range', 'order', 'low', 'high'])
                if q == 'dup' and n > 1:
                    i, j = r.sample(range(n), 2)
                    dims[i] = dims[j]
                elif q == 'miss' and n > 1:
                    dims.pop()
                elif q == 'range':
                    dims[r.randrange(n)] = r.choice([n, -1, n + 2])
                elif q == 'order' and len(part) > 1:
                    part.reverse()
                elif q == 'low':
                    part = [r.choice([0, -1])] + part
                elif q == 'high':
                    part = part + [n + r.choice([0, 1])]
                else:
                    raise Stop()
                e['skind'] = r.choice(['Strided', 'Strided', 'COO', 'FlatCOO'])
                e['levels'] = [dict(dims=dims, part=part)]
                if len(part) == 1 and r.random() < .5:
                    x['partint'] = 1
        elif what == 'ragged':
            rows = [r.randint(1, 4) for _ in range(r.randint(2, 4))]
            if min(rows) == rows[0]:
                rows[0] += 1
                if min(rows) == rows[0]:
                    raise Stop()
            e.update(kind=r.choice(['Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM']), rows=rows)
        else:
            h = self.choose(self.handles(lambda a: type(a).__name__ == 'Buffer'))
            b = self.ex.objs[h - 1]
            n = len(b)
            kind = r.choice(['Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR', 'DM'])
            shape = [r.randint(1, 3) for _ in range(2 if kind == 'CSR' else r.randint(1, 3))]
            strides = []
            off = max(0, n + r.choice([-1, 1, 1, 2, -n]))
            if off == n:
                off += 1
            m = 0
            if kind == 'Buffer':
                m = r.randint(0, len(b.data) + 2)
                off = max(0, len(b.data) - m + r.randint(1, 2))
            elif kind == 'Strided':
                strides = [1] * (len(shape) + r.choice([-1, 1]))
            elif kind == 'CSR':
                q = r.choice(['n', 'n', 'm', 'shape'])
                m = shape[0] + 1
                if q != 'n':
                    off = n
                if q == 'm':
                    m += r.choice([-1, 1])
                if q == 'shape':
                    shape = shape[:1] if r.random() < .5 else shape + [1]
            elif kind == 'DM':
                d = list(range(len(shape)))
                strides = r.choice([d[1:], d + [len(d)], [k + 1 for k in d]])
            e.update(h=h, kind=kind, shape=shape, strides=strides, n=off, m=m)
        e['x'] = x
        return e

    def op_Iter(self):
        return dict(op='Iter', h=self.choose(self.handles(lambda a: type(a).__name__ == 'Buffer')),
                    x={})

    def buffer(self):
        hs = self.handles(lambda a: type(a).__name__ == 'Buffer' and len(a.data) > 0)
        if not hs:
            self.do(self.op_New('Buffer', [self.r.randint(1, 12)]))
            hs = self.handles(lambda a: type(a).__name__ == 'Buffer' and len(a.data) > 0)
        return self.choose(hs)

    def op_Win(self):
        r = self.r
        h = self.buffer()
        b = self.ex.objs[h - 1]
        n, off, size = len(b.data), b.offset, b.shape[0]

        def bound(extra):
            q = r.random()
            if q < .2:
                return None
            if q < .6:
                return r.randint(0, size)
            if q < .9:
                return r.randint(-off, n - off)
            return r.randint(-off - 2, n - off + 2)
        a, b_, c = bound(0), bound(1), r.choice([None, None, None, 1, 1, 1, 2, -1, 3, -2])
        if n == 1 and c not in (None, 1):
            c = None
        sl = [2]
        x = dict(tup=r.randint(0, 1))
        if r.random() < .15:
            a = r.randint(0, n - 1)
            a, b_, c = a - off, r.randint(a + 1, n) - off, None
            x = dict(ctor=1)
        for v in (a, b_, c):
            sl += [0, 0] if v is None else [1, v]
        return dict(op='Win', h=h, sl=sl, x=x)

    def op_BufGet(self):
        h = self.buffer()
        b = self.ex.objs[h - 1]
        return dict(op='BufGet', h=h, i=self.r.randint(-b.offset, len(b.data) - b.offset - 1),
                    x=dict(tup=self.r.randint(0, 1)))

    def op_BufSet(self):
        e = self.op_BufGet()
        e['op'] = 'BufSet'
        if e['h'] in self.ex.outer and self.r.random() < .3:
            e['x']['ext'] = 1
        e['val'] = self.token()
        return e

    def op_Unset(self):
        """elements are assigned the marker, and the array is looked at"""
        r = self.r
        hs = self.handles(lambda a: type(a).__name__ != 'Buffer' and 0 < prod(a.shape) <= 60)
        hs = [h for h in hs if not self.ov[h - 1]]
        if self.lazy:
            raise Stop()
        dm = [h for h in hs if self.kind(h) == 'DM']
        h = self.choose(dm if dm and r.random() < .7 else hs)
        u = self.ex.last[h - 1]['u']
        specified = [h for h in dm if all(v != self.ex.last[h - 1]['u'] for v in self.ex.last[h - 1]['vals'])]
        if specified and r.random() < .6:
            h = r.choice(specified)
            u = self.ex.last[h - 1]['u']
        ix, x = self.index(self.sh(h), element=r.random() < .6)
        x['vshape'] = sel_shape(x['raw'], self.sh(h))
        if 0 in x['vshape']:
            raise Stop()
        e = dict(op='Set', h=h, index=ix, vals=[u] * prod(x['vshape']), vh=0, x=x)
        x['vform'] = 'list'
        self.marked.append(h)
        self.do(e)
        fam = self.fam[h - 1]
        return dict(op='Obs', h=r.choice([h, h, r.choice([g for g in self.handles() if self.fam[g - 1] == fam])]), x={})

    def op_Set(self):
        r = self.r
        hs = self.handles(lambda a: type(a).__name__ != 'Buffer' and prod(a.shape) > 0)
        h = self.choose([h for h in hs if not self.ov[h - 1]])
        shape = self.sh(h)
        if self.large and prod(shape) > 700 and type(self.ex.objs[h - 1]).__name__ == 'DM':
            raise Stop()     # takes quadratic time
        ix, x = self.index(shape, element=r.random() < .35)
        vs = sel_shape(x['raw'], shape)
        x['vshape'] = vs
        n = prod(vs)
        if vs and 0 in vs and r.random() < .8:
            raise Stop()
        cand = [g for g in self.handles() if self.fam[g - 1] != self.fam[h - 1]
                and self.sh(g) == vs and vs]
        vh, vals = 0, []
        stack = None
        if len(vs) > 1 and prod(vs) and not self.lazy and r.random() < .4:   # a sequence of arrays
            k = r.randint(1, len(vs) - 1)
            parts = [g for g in self.handles() if self.fam[g - 1] != self.fam[h - 1]
                     and self.sh(g) == vs[k:]]
            if parts and prod(vs[:k]) <= 12:
                stack = [r.choice(parts) for _ in range(prod(vs[:k]))]
                cand = []
                x.update(oshape=vs[:k], nest=r.choice(['list', 'tuple', 'mixed']))
        if cand and r.random() < .7 and (not self.lazy or self.density == 1):
            vh = r.choice(cand)
        elif stack:
            pass
        elif r.random() < .04 and not self.lazy:
            x['self'] = 1
        else:
            vals = [self.token() if self.lazy or r.random() < .92
                    else r.choice([NIL, self.marker]) for _ in range(n)]
            a = self.ex.objs[h - 1]
            while type(a).__name__ == 'DM':
                a = a.data
            p = .3 if type(a).__name__ in ('COO', 'FlatCOO', 'CSR') else .1
            if not self.lazy and r.random() < p * self.prof.get('mark', .5):     # stored elements equal to the marker
                u = self.ex.last[h - 1]['u']
                vals = [u if r.random() < .6 else v for v in vals]
                self.marked.append(h)
                self.follow = h
            forms = ['list', 'list', 'list', 'tuple', 'Strided', 'DM', 'COO', 'FlatCOO', 'rev']
            if len(vs) == 1:
                forms.append('Buffer')
            if len(vs) == 2:
                forms.append('CSR')
            x['vform'] = r.choice(forms) if vs and 0 not in vs else 'list'
            if x['vform'] in ('list', 'tuple') and 0 in vs:
                x['vform'] = 'Strided'
            if x['vform'] == 'list' and r.random() < .2:
                x['vform'] = 'mixed'
        e = dict(op='Set', h=h, index=ix, vals=vals, vh=vh, x=x)
        if stack:
            e['hs'] = stack
        return e

    def op_Conv(self):
        r = self.r
        hs = self.handles(lambda a: len(a.shape) >= 1)
        forced = self.force
        h = self.choose(hs)
        ov = h != forced and [i + 1 for i, k in enumerate(self.made) if k in ('StridedOver', 'SparseOver', 'DMOver', 'Slice')
              and i + 1 in hs]
        if ov and r.random() < .4:
            h = r.choice(ov)
        again = [h for h in self.marked if h in hs]
        again = bool(again) and (bool(self.follow) or r.random() < .4)
        if again:     # the format and the marker it has, where elements equal the marker
            h = self.follow or r.choice([h for h in self.marked if h in hs])
            self.follow = None
        shape = self.sh(h)
        ks = ['Buffer', 'Strided', 'COO', 'FlatCOO', 'DM', 'COO', 'FlatCOO']
        if self.kind(h) == 'DM':
            ks += ['DM', 'DM']
        if len(shape) == 2:
            ks += ['CSR', 'CSR']
        if self.kind(h) == 'Strided' and '_set' in self.prof:
            ks += ['Buffer', 'Strided'] * 3
        kind = r.choice(ks)
        if self.kind(h) == 'DM' and r.random() < (.7 if self.plain(h) else .35):     # the format of its storage
            a = self.ex.objs[h - 1]
            while type(a).__name__ == 'DM' and (a is self.ex.objs[h - 1] or r.random() < .5):
                a = a.data
            if len(shape) == len(a.shape):
                kind = type(a).__name__
        ue = r.random() < self.ue
        u = self.newmarker(h) if ue else 0
        if again and r.random() < .7:
            if r.random() < .6:
                kind = self.kind(h)
            else:
                kind = r.choice([k for k in ('COO', 'FlatCOO', 'CSR') if k != 'CSR' or len(shape) == 2])
            ue, u = r.random() < .8, self.ex.last[h - 1]['u']
            u = u if ue else 0
        e = dict(op='Conv', h=h, kind=kind, levels=[], skind='', u=u, ue=ue)
        x = dict(via=r.choice(['as', 'as', 'fromobject']), giveshape=r.randint(0, 1))
        if kind == 'DM':
            own = self.own_levels(self.ex.objs[h - 1]) if r.random() < .4 else None
            if own:     # the mapping it has
                e['levels'], e['skind'] = own
            else:
                e['levels'], e['skind'], xx = self.dm_levels(shape)
                x.update(xx)
        if r.random() < self.twice:
            x['twice'] = 1
        e['x'] = x
        return e

    def own_levels(self, a):
        """levels of a DM array that its own mapping corresponds to"""
        lv = []
        while type(a).__name__ == 'DM':
            dims = [d for g in a.rdimensions for d in g]
            cuts, n = [], 0
            for g in a.rdimensions:
                n += len(g)
                cuts.append(n)
            if sorted(dims) != list(range(len(dims))):
                return None
            lv.append(dict(dims=dims, part=cuts[:-1]))
            a = a.data
        k = type(a).__name__
        return (lv, k) if lv and k in KINDS else None

    def newmarker(self, h):
        r = self.r
        if self.lazy:     # not a value of the array
            self.mk += 1
            return r.choice([self.mk, self.mk, self.mk, self.marker, NIL])
        last = self.ex.last[h - 1]
        return r.choice([NIL, 0, 1, 5, self.marker, last['u'],
                         r.choice(last['vals']) if last['vals'] else 3])

    def op_Copy(self):
        h = self.choose(self.handles())
        ue = self.r.random() < self.ue
        u = self.newmarker(h) if ue else 0
        x = {}
        if self.r.random() < self.twice:
            x['twice'] = 1
        return dict(op='Copy', h=h, u=u, ue=ue, x=x)

    def twin(self):
        """an array much like another one, made independently"""
        r = self.r
        hs = self.handles(lambda a: len(a.shape) >= 1 and prod(a.shape) > 0)
        dm = [h for h in hs if self.kind(h) == 'DM']
        h = r.choice(dm) if dm and r.random() < .3 else self.choose(hs)
        shape = self.sh(h)
        vals, u = list(self.ex.last[h - 1]['vals']), self.ex.last[h - 1]['u']
        n = len(vals)
        if n != prod(shape):
            raise Stop()
        q = r.random()
        i = n - 1 if r.random() < .45 else r.randrange(n)
        other = r.random() < .12     # another marker, the same elements
        if other:
            q = 1
            vals = [NIL if v == u else v for v in vals]
        if q < .4 and n > 1:      # two elements swapped, next to each other or not
            for _ in range(6):
                j = r.choice([i - 1, (i + 1) % n, r.randrange(n)])
                if vals[i] != vals[j]:
                    break
                i = r.randrange(n)
            vals[i], vals[j] = vals[j], vals[i]
        elif q < .7:
            vals[i] = r.choice([self.token(), NIL, u, vals[0]])
        elif q < .8:
            vals = vals[-1:] + vals[:-1]
        kind = self.kind(h)
        if r.random() < .25:
            kind = r.choice([k for k in KINDS if k != 'Buffer' or len(shape) == 1])
        e = self.op_New(kind, shape)
        e['input'] = vals
        own = self.own_levels(self.ex.objs[h - 1]) if kind == 'DM' == self.kind(h) else None
        if own and r.random() < .75:     # the mapping it has
            e['levels'], e['skind'] = own
            for k in ('dimdef', 'partdef', 'clsdef', 'deep', 'partint'):
                e['x'].pop(k, None)
            if own[0][0]['dims'] == sorted(own[0][0]['dims']) and r.random() < .5:
                e['x']['dimdef'] = 1
        if other:
            e['u'], e['ue'] = r.choice([v for v in (0, 5, 7, 3, self.marker) if v not in vals and v != u] or [u]), True
        elif r.random() < .85:
            e['u'], e['ue'] = u, u != NIL
        self.do(e)
        g = len(self.ex.objs)
        if self.sh(g) != shape:
            raise Stop()
        return dict(op='Cmp', h=r.choice([h, g]), g=r.choice([g, g, h]), x={})

    def op_Cmp(self):
        r = self.r
        if not self.lazy and r.random() < (.5 if self.large else .35):
            return self.twin()
        h = self.choose(self.handles())
        q = r.random()
        if q < .15:
            g = h
        else:
            same = [g for g in self.handles() if self.sh(g) == self.sh(h) and g != h]
            g = r.choice(same) if same and q < .85 else self.choose(self.handles())
        return dict(op='Cmp', h=h, g=g, x={})

    def op_CmpSeq(self):
        r = self.r
        h = self.choose(self.handles(lambda a: len(a.shape) >= 1))
        shape = self.sh(h)
        if 0 in shape or self.lazy or self.mode == 'tuple':
            raise Stop()
        vals = list(self.ex.last[h - 1]['vals'])
        q = r.random()
        if q < .4:
            k = r.randrange(len(vals))
            vals[k] = r.choice([self.token(), NIL, self.ex.last[h - 1]['u'], vals[-1]])
        elif q < .5 and len(vals) > 1:
            i, j = r.sample(range(len(vals)), 2)
            vals[i], vals[j] = vals[j], vals[i]
        elif q < .65:     # a sequence of another shape
            if len(shape) == 1:
                vals = vals[:-1] if r.random() < .5 and len(vals) > 1 else vals + [self.token()]
                shape = [len(vals)]
            elif self.kind(h) != 'Buffer':
                k = shape[0]
                c = r.choice(['rev', 'flat', 'less', 'more'])
                if c == 'rev':
                    shape = shape[::-1]
                elif c == 'flat':
                    shape = [len(vals)]
                elif c == 'less' and k > 1:
                    shape = [k - 1] + shape[1:]
                    vals = vals[:prod(shape)]
                else:
                    shape = [k + 1] + shape[1:]
                    vals = vals + [r.choice([self.token(), NIL]) for _ in range(prod(shape[1:]))]
        return dict(op='CmpSeq', h=h, shape=shape, vals=vals, x=dict(nest=r.choice(['list', 'tuple', 'mixed'])))

    # -- running
    def do(self, op):
        if op['op'] == 'New':
            op['x'].setdefault('nest', 'list')
            if self.r.random() < self.twice:
                op['x']['twice'] = 1
        n = len(self.ex.objs)
        e = self.ex.run(op)
        self.events.append(e)
        if len(self.ex.objs) > n:
            o = e['op']
            self.made.append(o)
            if o in ('New', 'Stack', 'BufOver'):
                self.fam.append(n + 1)
                self.ov.append(False)
            else:
                self.fam.append(self.fam[e['h'] - 1])
                ov = self.ov[e['h'] - 1]
                if o == 'StridedOver':
                    import itertools
                    ps = [sum(i * s for i, s in zip(ix, e['strides']))
                          for ix in itertools.product(*map(range, e['shape']))]
                    ov = ov or len(set(ps)) < len(ps)
                if o in ('Conv', 'Copy') and not e['same']:
                    ov = False
                self.ov.append(ov)
        if e['out'] == 'raise' and e['op'] != 'Bad':
            raise StopProgram()
        return e

    def size(self):
        """length of the program, number of arrays"""
        r = self.r
        if self.large:
            return r.choice([4, 5, 7]), 3
        if self.cap > 200:
            return 8, 4
        if self.fan:
            return 16, 14
        if r.random() < .03:
            return 50, 14
        return r.choice([6, 10, 15, 20]), 7

    def plain(self, h):
        """is h a DM array with as many axes as its storage"""
        a = self.ex.objs[h - 1]
        return (type(a).__name__ == 'DM' and len(a.shape) == len(a.rdimensions) > 1
                and type(a.data).__name__ != 'DM' and self.w['Conv'] > .5)

    def after(self):
        """an operation on the array just made, or on one that shares its elements with the
        array just assigned to (or None)"""
        r, e = self.r, self.events[-1]
        if e['op'] in ('Slice', 'Conv', 'Copy', 'Win', 'StridedOver', 'SparseOver', 'DMOver'):
            if r.random() < self.prof.get('_set', .08):
                self.force = r.choice([len(self.ex.objs), e['h']])
                return 'BufSet' if self.kind(self.force) == 'Buffer' else 'Set'
            if e['op'].endswith('Over') and r.random() < self.prof.get('_over', .2):
                self.force = len(self.ex.objs)
                return self.pick({k: self.w[k] for k in ('Slice', 'Conv', 'Copy', 'Cmp', 'Get')})
            if self.plain(len(self.ex.objs)) and r.random() < .4:
                self.force = len(self.ex.objs)
                return r.choice(['Slice', 'Conv', 'Conv'])
            if e['op'] in ('Slice', 'Conv', 'Copy') and r.random() < self.prof.get('_chain', .08):
                self.force = len(self.ex.objs)     # one more on the result
                return self.pick({k: self.w[k] for k in ('Slice', 'Conv', 'Copy')})
        elif e['op'] == 'New' and self.plain(len(self.ex.objs)) and r.random() < .4:
            self.force = len(self.ex.objs)
            return r.choice(['Slice', 'Slice', 'Conv'])
        elif e['op'] in ('Set', 'BufSet') and r.random() < self.prof.get('_use', .1):
            fam = self.fam[e['h'] - 1]
            self.force = r.choice([h for h in self.handles() if self.fam[h - 1] == fam])
            return r.choice(['Obs', 'Obs', 'Slice', 'Conv', 'Copy', 'Cmp'])

    def program(self, length, maxobj=7):
        r = self.r
        try:
            self.events.append(dict(op='Reset', mode=self.mode, lazy=self.lazy, x={}))
            self.do(self.op_New())
            tries = 0
            while len(self.events) <= length and tries < 8 * length:
                tries += 1
                w = dict(self.w)
                if len(self.ex.objs) >= maxobj:
                    for k in ('New', 'Few', 'BufOver', 'Stack', 'Slice', 'Conv', 'Copy', 'Win', 'StridedOver', 'SparseOver',
                              'DMOver'):
                        w[k] = 0
                name = self.pick(w)
                if self.follow and w['Conv']:
                    if r.random() < .6:
                        name = 'Conv'
                    else:
                        self.follow = None
                else:
                    name = self.after() or name
                if not w[name]:
                    continue
                try:
                    op = getattr(self, 'op_' + name)()
                except (Stop, IndexError, ValueError):
                    continue
                finally:
                    self.force = None
                self.do(op)
            if self.lazy:     # read everything, in any order
                hs = self.handles()
                self.r.shuffle(hs)
                for h in hs:
                    self.do(dict(op='Obs', h=h, x={}))
        except StopProgram:
            pass
        return self.events


class StopProgram(Exception):
    pass


if __name__ == '__main__':
    import json
    import sys
    import time
    prof, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    if prof.startswith('large:'):
        import executor
        executor.OP_TIMEOUT *= 2.5
    n = slow = 0
    with open(out, 'w') as f:
        for i in range(count):
            g = Gen(random.Random('%s/%d/%d' % (prof, seed, i)), prof)
            for e in g.program(*g.size()):
                f.write(json.dumps(e, separators=(',', ':')) + '\n')
                n += 1
                slow += e.get('err') == 'timeout'
            if slow > 2:    # calls do not return: enough has been seen
                break
    print(n, 'events', round(time.time() - t0, 2), 's')
