"""Executes abstract operations on the real gcs package and records them as
events for spec/GCSTrace.tla.

An operation is a JSON-able dict: the fields the specification reads (op, h,
index, ...) plus `x`, extra details the specification does not need (raw slice
bounds, nesting type, how defaults are passed).  `Executor.run(op)` performs
the public call, observes every live array and returns the completed event.
"""
import contextlib
import io
import itertools
import os
import signal
import sys

REPO = os.environ.get('GCS_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from gcs import storage as S  # noqa: E402

NIL = -1000000
BIG = 2 ** 30
OP_TIMEOUT = float(os.environ.get('GCS_OP_TIMEOUT', '8'))


class OpTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise OpTimeout()


@contextlib.contextmanager
def time_limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---- values -----------------------------------------------------------------
# decode maps a token to a Python value; injective modulo == in each mode.
_MIXED = {0: 0, 1: 1, 2: '', 3: 'a', 4: 0.5, 5: frozenset(), 6: b'', 7: -1, 8: 2.5,
          9: 'None', 10: 10 ** 30}


class Item:
    """equal to itself only"""


_ITEMS = {}


class Seq:
    """a sequence that is no list: what a Buffer may be constructed over"""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return Seq(self.items[i]) if isinstance(i, slice) else self.items[i]

    def __setitem__(self, i, v):
        self.items[i] = v

    def copy(self):
        return Seq(self.items)

    def __eq__(self, other):
        return (self.items == other.items if isinstance(other, Seq)
                else self.items == other if isinstance(other, list) else NotImplemented)


class List(list):
    def copy(self):
        return List(self)


def decode(tok, mode, turn=0):
    if tok == NIL:
        return None
    if mode == 'obj':     # equality is identity
        return _ITEMS.setdefault(tok, Item())
    if mode == 'dict':    # not hashable
        return {'v': tok}
    if mode == 'int':
        return tok
    if mode == 'float':
        return tok / 4
    if mode == 'str':
        return 'v%d' % tok if tok else ''
    if mode == 'mixed':
        return _MIXED.get(tok, 's%d' % tok)
    if mode == 'big':
        return tok * 10 ** 20
    if mode == 'tuple':
        return (tok, 'x' * (tok % 3)) if tok else ()
    if mode == 'alias':   # equal values of different types
        k = turn % 3
        return float(tok) if k == 1 else bool(tok) if k == 2 and tok in (0, 1) else tok
    raise ValueError(mode)


class Encoder:
    def __init__(self, mode):
        self.mode = mode
        self.map = {None: NIL}
        self.turn = 0

    def dec(self, tok):
        self.turn += 1
        v = decode(tok, self.mode, self.turn)
        self.map.setdefault(('dict', tok) if self.mode == 'dict' and v is not None else v, tok)
        return v

    def enc(self, value):
        try:
            t = self.map.get(value)
        except TypeError:
            value = (('dict', value.get('v')) if type(value) is dict
                     else ('unhashable', type(value).__name__))
            t = self.map.get(value)
        if t is None:
            t = self.map[value] = 900000 + len(self.map)
        return t


# ---- nested sequences ----------------------------------------------------------
def prod(s):
    n = 1
    for i in s:
        n *= i
    return n


def indices(shape):
    return itertools.product(*map(range, shape))


def nest(flat, shape, kind='list'):
    """kind: list, tuple, or mixed: alternating levels"""
    if not shape:
        return flat[0]
    n = prod(shape[1:])
    r = [nest(flat[i * n:(i + 1) * n], shape[1:], kind) for i in range(shape[0])]
    if kind == 'mixed':
        return r if len(shape) % 2 else tuple(r)
    return tuple(r) if kind == 'tuple' else r


def py_item(it):
    if it[0] == 0:
        return it[1]
    if it[0] == 1:
        return None
    return slice(it[2] if it[1] else None, it[4] if it[3] else None, it[6] if it[5] else None)


def sat_item(it):
    if it[0] == 0 or it[0] == 1:
        return list(it)
    return [2] + [max(-BIG, min(BIG, v)) for v in it[1:]]


def item_len(it, size):
    return len(range(size)[py_item(it)]) if it[0] == 2 else size


def sel_shape(index, shape):
    """shape of x[index] by Python slicing, index possibly short"""
    full = list(index) + [[1]] * (len(shape) - len(index))
    return [item_len(it, n) for it, n in zip(full, shape) if it[0] != 0]


def parts(dims, part):
    cuts = [0] + list(part) + [len(dims)]
    return tuple(tuple(dims[a:b]) for a, b in zip(cuts[:-1], cuts[1:]))


CLS = dict(Buffer=S.Buffer, Strided=S.Strided, COO=S.COO, FlatCOO=S.FlatCOO, CSR=S.CSR, DM=S.DM)


def clamp(i):
    return max(-10 ** 6, min(10 ** 6, int(i)))


def same_items(a, b):
    """the same objects nested in the same way"""
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same_items, a, b))
    return a is b


def mutate(seq):
    """overwrite the items of a nested list"""
    if isinstance(seq, list):
        for i, v in enumerate(seq):
            if isinstance(v, (list, tuple)):
                mutate(v)
            else:
                seq[i] = 'mutated'
        if len(seq) > 1:
            seq.pop()


def as_int_list(seq):
    return [clamp(i) for i in seq]


class Executor:
    """One program: a sequence of operations on a growing list of arrays."""

    def __init__(self, mode='int', lazy=False):
        self.mode = mode
        self.lazy = lazy      # arrays are read only by Obs, Get, ... operations
        self.E = Encoder(mode)
        self.objs = []
        self.last = []
        self.ilist = None
        self.outer = {}       # sequences that Buffers were constructed over
        self.part = 'get'     # what of an array is being read
        self.sources = []     # nested sequences given to the library, and copies of them

    # -- observing
    def light(self, a):
        """what other arrays are compared by"""
        shape = as_int_list(a.shape)
        self.part = 'get'
        vals = [self.E.enc(a[i]) for i in indices(shape)]
        pos, evals = [], []
        self.part = 'els'
        for index, v in a.elements():
            r = 0
            for i, n in zip(index, shape):
                r = r * n + i
            pos.append(r)
            evals.append(self.E.enc(v))
        return dict(vals=vals, shape=shape, u=self.E.enc(a.unspecified), pos=pos, evals=evals)

    def rep(self, a, deep=0):
        r = dict(k=type(a).__name__, shape=as_int_list(a.shape), vals=[], rows=[], f=[], crow=[],
                 cols=[], n=0, g=[], rs=[], ro=[], inner=[])
        k = r['k']
        if k == 'COO':
            r['n'] = len(a.data)
            r['rows'] = [[clamp(a.indices[i, j]) for j in range(a.indices.shape[1])]
                         for i in range(a.indices.shape[0])]
        elif k == 'FlatCOO':
            r['n'] = len(a.data)
            r['f'] = as_int_list(a.findices)
        elif k == 'CSR':
            r['n'] = len(a.data)
            r['crow'] = as_int_list(a.crow_indices)
            r['cols'] = as_int_list(a.col_indices)
        elif k == 'DM':
            r['g'] = [as_int_list(g) for g in a.rdimensions]
            r['rs'] = [as_int_list(g) for g in a.rstrides]
            r['ro'] = as_int_list(a.roffset)
            inner = self.rep(a.data, deep + 1)
            inner['vals'] = [self.E.enc(a.data[i]) for i in indices(inner['shape'])]
            r['inner'] = [inner]
        return r

    def observe(self, a):
        o = self.light(a)
        shape = o['shape']
        nvals = []
        self.part = 'get'
        if type(a).__name__ != 'Buffer' and shape and len(o['vals']) <= 80:
            nvals = [self.E.enc(a[tuple(i - n for i, n in zip(ix, shape))])
                     for ix in indices(shape)]
        eidx, evals = [], []
        self.part = 'els'
        for index, v in a.elements():
            eidx.append(as_int_list(index))
            evals.append(self.E.enc(v))
        # iterations over the elements do not disturb each other
        inter = True
        if 1 < len(eidx) <= 60:
            it1, it2 = a.elements(), a.elements()
            got = [next(it1), next(it2), next(it2)] + list(it1) + list(it2)
            got = [(as_int_list(index), self.E.enc(v)) for index, v in got]
            one = list(zip(eidx, evals))
            inter = got == one[:1] + one[:2] + one[1:] + one[2:]
            # one begun, and left or resumed, while another is under way
            k = max(1, (2 * len(one) + 2) // 3)
            it1 = a.elements()
            got = list(itertools.islice(it1, k)) + list(a.elements())
            if len(one) % 3:
                got += list(it1)
            got = [(as_int_list(index), self.E.enc(v)) for index, v in got]
            inter = inter and got == one[:k] + one + (one[k:] if len(one) % 3 else [])
        self.part = 'size'
        size, full, n = clamp(a.size), bool(a.is_full()), len(a) if shape else 0
        self.part = 'rep'
        return dict(k=type(a).__name__, shape=shape, u=o['u'], vals=o['vals'], nvals=nvals,
                    eidx=eidx, evals=evals, inter=inter, size=size, full=full,
                    len=clamp(n), rep=self.rep(a)), o

    def changes(self):
        chg = []
        for i, a in enumerate(self.objs):
            try:
                o = self.light(a)
            except Exception as ex:  # an array that can no longer be read has changed
                o = dict(vals=[], shape=[-1], u=0, pos=[], evals=[], error=repr(ex)[:80])
            if o != self.last[i]:
                self.last[i] = o
                chg.append(dict(h=i + 1, **o))
        return chg

    # -- arguments
    def index(self, e):
        raw = e['x'].get('raw', e['index'])
        ix = tuple(py_item(it) for it in raw)
        if e['x'].get('bare') and len(ix) == 1:
            return ix[0]
        if e['x'].get('ilist'):     # a list of items, which stays what it is
            ix = list(ix)
            self.ilist = ix, list(ix)
        return ix

    def level_class(self, levels, skind, deep):
        """storage_class for the inner levels of a DM array"""
        if not levels:
            return CLS[skind]
        if deep:   # the plain class: documented defaults for the inner levels
            return S.DM
        lv = levels[0]
        inner = self.level_class(levels[1:], skind, False)

        def fromobject(cls, seq, shape=None, get_seq_index=None, unspecified=S.DEFAULT):
            return S.DM.fromobject(seq, shape=shape, get_seq_index=get_seq_index,
                                   unspecified=unspecified, dimensions=tuple(lv['dims']),
                                   partitioning=tuple(lv['part']), storage_class=inner)
        return type('DM', (S.DM,), dict(fromobject=classmethod(fromobject)))

    def dm_kwargs(self, e):
        x = e['x']
        lv = e['levels'][0]
        kw = {}
        if not x.get('dimdef'):
            kw['dimensions'] = tuple(lv['dims'])
        if not x.get('partdef'):
            kw['partitioning'] = (lv['part'][0] if x.get('partint') and len(lv['part']) == 1
                                  else tuple(lv['part']))
        if not x.get('clsdef'):
            kw['storage_class'] = self.level_class(e['levels'][1:], e['skind'], x.get('deep'))
        return kw

    # -- operations that make an array
    def make(self, e):
        op, x = e['op'], e['x']
        dec = self.E.dec
        if op == 'New':
            vals = [dec(t) for t in e['input']]
            nshape = tuple(x['nshape'])
            seq = nest(vals, nshape, x.get('nest', 'list'))
            keep = nest(vals, nshape, x.get('nest', 'list'))
            kw = {}
            if e['ue']:
                kw['unspecified'] = dec(e['u'])
            if x.get('giveshape'):
                kw['shape'] = nshape
            if e['kind'] == 'DM':
                kw.update(self.dm_kwargs(e))
            a = CLS[e['kind']].fromobject(seq, **kw)
            same = seq == keep and type(seq) is type(keep)
            if x.get('mut'):      # the array does not depend on what happens to the sequence
                mutate(seq)
            else:
                self.sources.append((seq, keep))
            return a, same
        if op == 'Stack':     # a nested sequence of arrays
            seq = nest([self.objs[h - 1] for h in e['hs']], tuple(e['oshape']), x.get('nest', 'list'))
            keep = nest([self.objs[h - 1] for h in e['hs']], tuple(e['oshape']), x.get('nest', 'list'))
            kw = {}
            if e['ue']:
                kw['unspecified'] = dec(e['u'])
            if x.get('giveshape'):
                kw['shape'] = tuple(e['oshape']) + self.objs[e['hs'][0] - 1].shape
            if e['kind'] == 'DM':
                kw.update(self.dm_kwargs(e))
            return CLS[e['kind']].fromobject(seq, **kw), same_items(seq, keep)
        if op == 'BufOver':
            vals = [dec(t) for t in e['input']]
            seq = {'seq': Seq, 'sub': List}.get(x['seq'], list)(vals)
            kw = {'unspecified': dec(e['u'])} if e['u'] != NIL or x.get('giveu') else {}
            self.outer.setdefault(len(self.objs) + 1, seq)
            if x.get('kw'):
                return S.Buffer(size=e['n'], offset=e['off'], data=seq, **kw), True
            return S.Buffer(e['n'], e['off'], seq, **kw), True
        if op == 'StridedOver':
            b = self.objs[e['h'] - 1]
            sh = e['shift']
            data = b if sh == 0 and not x.get('sliced') else b[sh:]
            return S.Strided(tuple(e['shape']), tuple(e['strides']), data), True
        if op == 'SparseOver':
            b = self.objs[e['h'] - 1]
            shape = tuple(e['shape'])
            ixs = []
            for p in e['ps']:
                ix = []
                for n in reversed(shape):
                    ix.insert(0, p % n)
                    p //= n
                ixs.append(ix)
            n = len(ixs)
            foff = e['x'].get('foff', 0)

            def ibuf(items):    # an index buffer: a window of a longer sequence if foff
                return S.Buffer(len(items), foff, [-7] * foff + items + [-9] * (foff // 2))
            if e['kind'] == 'COO':
                flat = [ix[i] for i in range(len(shape)) for ix in ixs]
                ind = S.Strided((len(shape), n), (n, 1), ibuf(flat))
                return S.COO(shape, ind, b), True
            if e['kind'] == 'FlatCOO':
                return S.FlatCOO(shape, ibuf(list(e['ps'])), b), True
            crow, k = [0], 0
            for row in range(shape[0]):
                k += sum(1 for ix in ixs if ix[0] == row)
                crow.append(k)
            return S.CSR(shape, ibuf(crow), ibuf([ix[1] for ix in ixs]), b), True
        if op == 'DMOver':
            s = self.objs[e['h'] - 1]
            shape = tuple(e['shape'])
            g = parts(e['dims'], e['part'])
            rs = tuple(tuple(prod([shape[d] for d in p[i + 1:]]) for i in range(len(p))) for p in g)
            return S.DM(shape, g, rs, (0,) * len(g), s), True
        a = self.objs[e['h'] - 1]
        if op == 'Slice':
            return a[self.index(e)], True
        if op == 'Win':
            it = py_item(e['sl'])
            if x.get('ctor'):    # another Buffer over the same sequence
                return S.Buffer(it.stop - it.start, a.offset + it.start, a.data,
                                unspecified=a.unspecified), True
            return a[(it,)] if x.get('tup') else a[it], True
        if op == 'Conv':
            kw = {'unspecified': dec(e['u'])} if e['ue'] else {}
            if e['kind'] == 'DM':
                kw.update(self.dm_kwargs(e))
            if x.get('via') == 'fromobject':
                if e['kind'] == 'DM' and x.get('giveshape'):
                    kw['shape'] = a.shape
                return CLS[e['kind']].fromobject(a, **kw), True
            return getattr(a, 'as_' + e['kind'])(**kw), True
        if op == 'Copy':
            return a.copy(unspecified=dec(e['u'])) if e['ue'] else a.copy(), True
        raise ValueError(op)

    MAKE = {'New', 'BufOver', 'Stack', 'StridedOver', 'SparseOver', 'DMOver', 'Slice', 'Win', 'Conv', 'Copy'}

    def assigned(self, e):
        """the Python value to assign, for a Set with e['vals'] and x['vform']"""
        x = e['x']
        if e['vh']:
            return self.objs[e['vh'] - 1]
        if e.get('hs'):
            return nest([self.objs[h - 1] for h in e['hs']], tuple(x['oshape']), x.get('nest', 'list'))
        if x.get('self'):     # the selected elements themselves
            return self.objs[e['h'] - 1][self.index(e)]
        vals = [self.E.dec(t) for t in e['vals']]
        shape = x['vshape']
        if not shape:
            return vals[0]
        form = x.get('vform', 'list')
        if form in ('list', 'tuple', 'mixed'):
            seq = nest(vals, shape, form)
            self.sources.append((seq, nest(vals, shape, form)))
            return seq
        seq = nest(vals, shape)
        sh = tuple(shape)
        if form == 'Buffer':
            return S.Buffer(len(vals), 0, list(vals))
        if form == 'rev':   # a reversed view
            full = tuple(slice(None, None, -1) for _ in shape)
            rv = [vals[0]] * len(vals)
            for k, ix in enumerate(indices(shape)):
                q = 0
                for i, n in zip(ix, shape):
                    q = q * n + (n - 1 - i)
                rv[q] = vals[k]
            return S.Strided.fromobject(nest(rv, shape), shape=sh)[full]
        return CLS[form].fromobject(seq, shape=sh)

    def run(self, op):
        """execute; return the event and the array (or None)"""
        e = dict(op)
        e.setdefault('x', {})
        sink = io.StringIO()
        try:
            with contextlib.redirect_stdout(sink):
                with time_limit(OP_TIMEOUT):
                    return self._run(e)
        except OpTimeout:
            e.update(out='raise', stage=e.get('stage', 'op'), err='timeout', chg=[], again=True,
                     src=True, lz=self.lazy)
            return e

    def _run(self, e):
        o = e['op']
        e.update(out='ok', stage='op', chg=[], again=True, src=True, lz=self.lazy)
        if o == 'Reset':
            return e
        res = None
        try:
            if o in self.MAKE:
                self.outer.pop(len(self.objs) + 1, None)
                a, e['src'] = self.make(e)
                if o in ('Conv', 'Copy'):
                    e['same'] = a is self.objs[e['h'] - 1]
                e['stage'] = 'read'
                if not isinstance(a, S.Storage):
                    raise TypeError('not an array: %r' % (a,))
                res = a
                light = None
                if self.lazy:
                    e['obs'] = dict(k=type(a).__name__, shape=as_int_list(a.shape))
                else:
                    e['obs'], light = self.observe(a)
                if o == 'Copy' and not e['ue']:
                    src = self.objs[e['h'] - 1]
                    self.part = 'equal'
                    e['ceq'] = self.lazy or (bool(a.equal(src)) and bool(src.equal(a)))
                if e['x'].get('twice') and not self.lazy:
                    e['stage'] = 'op'
                    b, _ = self.make(e)
                    ob, _ = self.observe(b)
                    e['again'] = ob == e['obs'] and (o in ('Conv', 'Copy', 'Win', 'Slice')
                                                     or b is not a)
                    ob, light2 = self.observe(a)
                    e['again'] = e['again'] and ob == e['obs']
            elif o == 'Obs':
                e['stage'] = 'read'
                e['obs'], _ = self.observe(self.objs[e['h'] - 1])
            elif o == 'Get':
                a = self.objs[e['h'] - 1]
                v = a[self.index(e)]
                e['val'] = self.E.enc(v)
                e['again'] = self.E.enc(a[self.index(e)]) == e['val']
            elif o == 'BufGet':
                a = self.objs[e['h'] - 1]
                ix = (e['i'],) if e['x'].get('tup') else e['i']
                e['val'] = self.E.enc(a[ix])
                e['again'] = self.E.enc(a[ix]) == e['val']
            elif o == 'Set':
                a = self.objs[e['h'] - 1]
                v = self.assigned(e)
                if e['x'].get('self'):
                    e['vals'] = [self.E.enc(t) for t in self.flat(v, e['x']['vshape'])]
                keep = [self.E.enc(t) for t in self.flat(v, e['x']['vshape'])]
                a[self.index(e)] = v
                e['src'] = (bool(e['x'].get('self')) or
                            keep == [self.E.enc(t) for t in self.flat(v, e['x']['vshape'])])
            elif o == 'BufSet':
                a = self.objs[e['h'] - 1]
                seq = self.outer.get(e['h']) if e['x'].get('ext') else None
                if seq is not None:     # the owner of the sequence assigns
                    seq[a.offset + e['i']] = self.E.dec(e['val'])
                else:
                    a[(e['i'],) if e['x'].get('tup') else e['i']] = self.E.dec(e['val'])
            elif o == 'Cmp':
                a, b = self.objs[e['h'] - 1], self.objs[e['g'] - 1]
                for rnd in (0, 1):
                    r = dict(equal=bool(a.equal(b)), eq=bool(a == b), ne=bool(a != b))
                    if rnd:
                        e['again'] = all(e[k] == r[k] for k in r)
                    e.update(r)
            elif o == 'CmpSeq':
                a = self.objs[e['h'] - 1]
                vals = [self.E.dec(t) for t in e['vals']]
                seq = nest(vals, e['shape'], e['x'].get('nest', 'list'))
                e['equal'] = bool(a.equal(seq))
                e['again'] = bool(a.equal(seq)) == e['equal']
                e['src'] = seq == nest(vals, e['shape'], e['x'].get('nest', 'list'))
            elif o == 'Bad':
                self.bad(e)
            elif o == 'Print':
                a = self.objs[e['h'] - 1]
                str(a), repr(a)
            elif o == 'Iter':
                a = self.objs[e['h'] - 1]
                e['vals'] = [self.E.enc(v) for v in a]
            else:
                raise ValueError(o)
        except Exception as ex:
            e['out'] = 'raise'
            if e['stage'] == 'read':
                e['part'] = self.part
            e['err'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
            if o == 'Win' and isinstance(ex, IndexError) and e['stage'] == 'op':
                e['out'] = 'IndexError'
            res = None
        if not self.lazy:
            e['chg'] = self.changes()
        if o in ('Set', 'BufSet') and any(seq != keep for seq, keep in self.sources):
            e['src'] = False
        if self.ilist and self.ilist[0] != self.ilist[1]:
            e['src'] = False
        self.ilist = None
        if res is not None and e['out'] == 'ok':
            self.objs.append(res)
            self.last.append(light)
            if o == 'Win' and e['h'] in self.outer:
                self.outer[len(self.objs)] = self.outer[e['h']]
        return e

    OTHER = [1.5, 'a', Ellipsis, 1j, object(), range(1), [0], (0,)]    # no index items

    def bad(self, e):
        """a request that has no answer"""
        x, what = e['x'], e['what']
        if what in ('get', 'set'):
            a = self.objs[e['h'] - 1]
            raw = [self.OTHER[it[1]] if it[0] == 3 else py_item(it) for it in x['raw']]
            ix = raw[0] if x.get('bare') and len(raw) == 1 else list(raw) if x.get('aslist') else tuple(raw)
            if what == 'get':
                a[ix]
            else:
                a[ix] = self.E.dec(e['val'])
        elif what == 'conv':
            a = self.objs[e['h'] - 1]
            kw = {}
            if e['kind'] == 'DM':
                part = tuple(e['levels'][0]['part'])
                kw = dict(dimensions=tuple(e['levels'][0]['dims']),
                          partitioning=part[0] if x.get('partint') else part, storage_class=CLS[e['skind']])
            if x.get('via') == 'fromobject':
                CLS[e['kind']].fromobject(a, **kw)
            else:
                getattr(a, 'as_' + e['kind'])(**kw)
        elif what == 'ragged':
            keep = [list(range(1, n + 1)) for n in e['rows']]
            seq = [list(range(1, n + 1)) for n in e['rows']]
            try:
                CLS[e['kind']].fromobject(seq)
            finally:
                e['src'] = seq == keep
        else:
            b = self.objs[e['h'] - 1]
            shape, k, n = tuple(e['shape']), e['kind'], e['n']
            if k == 'Buffer':
                S.Buffer(n, e['m'], b.data)
            elif k == 'Strided':
                S.Strided(shape, tuple(e['strides']), b)
            elif k == 'COO':
                S.COO(shape, S.Strided((len(shape), n), (n, 1), S.Buffer(len(shape) * n, 0, [0] * (len(shape) * n))), b)
            elif k == 'FlatCOO':
                S.FlatCOO(shape, S.Buffer(n, 0, list(range(n))), b)
            elif k == 'CSR':
                crow = [min(i, n) for i in range(e['m'])]
                S.CSR(shape, S.Buffer(len(crow), 0, crow), S.Buffer(n, 0, [0] * n), b)
            elif k == 'DM':
                S.DM(shape, (tuple(e['strides']),), ((1,) * len(e['strides']),), (0,), b)

    def flat(self, v, shape):
        if not shape:
            return [v]
        if isinstance(v, S.Storage):
            return [v[i] for i in indices(shape)]
        r = []
        for ix in indices(shape):
            y = v
            for i in ix:
                y = y[i]
            r.append(y)
        return r
