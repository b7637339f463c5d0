"""What each property's check runs, and which violated clause of the trace
specifications belongs to which property."""

FUNC = {'slice': {'C10'}, 'index': {'C11'}, 'solve': {'C12'}, 'dioph': {'C13'}, 'extgcd': {'C13'},
        'compress': {'C14'}, 'uncompress': {'C14'}, 'reduce': {'C09', 'C21'}, 'basics': {'C21'},
        'lookup': {'C22'}, 'bigslice': {'C10'}, 'bigindex': {'C11'}, 'bigsolve': {'C12'},
        'bigdioph': {'C13'}, 'biggcd': {'C13'},
        'bigreduce': {'C09', 'C21'}, 'biglookup': {'C22'}}

CONTENT = {'vals', 'nvals', 'marker', 'kind', 'shape', 'raise.op', 'raise.read'}


def made_by(e):
    """properties of the operation that made or changed an array"""
    op = e['op']
    if op == 'BufOver':
        return {'C01', 'C19'}
    if op in ('New', 'Stack', 'StridedOver', 'SparseOver'):
        return {'C01', 'C07'} if e.get('ue') else {'C01'}
    if op == 'DMOver':
        return {'C09'}
    if op == 'Slice':
        return {'C02', 'C03', 'C05'}
    if op == 'Conv':
        return {'C05', 'C06', 'C07'} if e['ue'] else {'C05', 'C06'}
    if op == 'Copy':
        return {'C07', 'C17'} if e['ue'] else {'C17'}
    if op == 'Win':
        return {'C19'}
    if op == 'Set':
        return {'C04', 'C05'}
    if op == 'BufSet':
        return {'C04', 'C05', 'C19'}
    return set()


def lineage(program, h):
    """events that made array number h (1-based) and the arrays it derives from"""
    makes = [e for e in program if e['op'] in ('New', 'BufOver', 'Stack', 'StridedOver', 'SparseOver', 'DMOver',
                                               'Slice', 'Win', 'Conv', 'Copy') and e['out'] == 'ok']
    out = []
    while h:
        e = makes[h - 1]
        if e['op'] == 'Stack':     # several arrays
            return makes
        out.append(e)
        h = e.get('h', 0) if e['op'] not in ('New', 'BufOver') else 0
    return out


# an array cannot be read, enumerated, ... at all
PART = {'els': {'C15'}, 'size': {'C18'}, 'rep': {'C08'}}


def attribute(module, e, kind, clause, program=()):
    """properties that the violated clause belongs to"""
    if module == 'FuncTrace':
        return set(FUNC[e['op']])
    r = set(belongs(e, kind, clause, program))
    if clause == 'raise.read':
        r |= PART.get(e.get('part'), set())
    if e['op'] in ('New', 'Conv') and kind == 'DM' and clause in CONTENT:
        r.add('C09')     # elements are not stored where they should be
    return r


def belongs(e, kind, clause, program):
    op = e['op']
    if op == 'Obs' and program and program[0].get('lazy') and clause in CONTENT:
        # arrays of a lazy program are read at its end: any step may be the cause
        r = {'C20'}
        for x in lineage(program, e['h']):
            r |= made_by(x)
        for x in program:
            if x['op'] in ('Set', 'BufSet'):
                r |= made_by(x)
        return r
    if op == 'Bad':
        return {'C19', 'C23'} if e['x'].get('buf') else {'C23'}
    # clauses with one meaning everywhere
    if clause == 'wf':
        return {'C08'}
    if clause == 'stored':
        return {'C07'}
    if clause == 'copyeq':
        return {'C17'}
    if clause == 'crash':     # the specification has no such array
        return (made_by(e) | {'C20'} if op not in ('Cmp', 'CmpSeq') else {'C16'})
    if clause == 'map':
        return {'C09', 'C06'} if op == 'Conv' else {'C09'}
    if clause == 'els':
        return {'C15'}
    if clause in ('size', 'full', 'len'):
        return {'C18', 'C19'} if clause == 'len' and kind == 'Buffer' else {'C18'}
    if clause in ('frame', 'again', 'src') and op not in ('Set', 'BufSet'):
        # "the source keeps its own marker and elements"
        if op in ('Cmp', 'CmpSeq'):     # "comparing changes neither operand"
            return {'C16', 'C20'}
        return {'C20', 'C07'} if clause == 'frame' and e.get('ue') else {'C20'}
    if op in ('New', 'Stack', 'StridedOver', 'SparseOver'):
        if clause in CONTENT:
            r = {'C01'}
            if op in ('New', 'Stack') and e['ue'] and clause in ('vals', 'marker', 'raise.op', 'raise.read'):
                r.add('C07')
            if e['x'].get('mut'):
                r.add('C05')
            return r
    if op == 'BufOver':
        return {'C01', 'C19'}
    if op == 'DMOver':
        return {'C09'}
    if op in ('Slice', 'Get'):
        # "after slicing, every element is still found at the storage index given by ..."
        return ({'C03', 'C09'} if op == 'Slice' and clause in CONTENT else {'C03'}) if kind == 'DM' else {'C02'}
    if op == 'Obs':
        if clause == 'nvals':
            return {'C03'} if kind == 'DM' else {'C02'}
        return {'C20'}
    if op in ('Win', 'BufGet', 'Iter'):
        return {'C19'}
    if op == 'Conv':
        if clause == 'share':
            return {'C05', 'C06'}
        if e['ue']:
            return {'C06', 'C07'}
        return {'C06'}
    if op == 'Copy':
        if clause == 'share':
            return {'C17'}
        if e['ue']:
            return {'C07', 'C17'}
        return {'C17'}
    if op in ('Set', 'BufSet'):
        if clause == 'src':
            return {'C04', 'C05', 'C20'}
        if clause in ('target', 'pattern', 'raise.op'):
            if op == 'BufSet':     # a Buffer of more items than it was made with
                made = lineage(program, e['h'])[:1] if program and clause == 'target' else []
                return {'C04', 'C19'} | {{'Copy': 'C17', 'Conv': 'C05'}.get(x['op'], 'C19') for x in made}
            return {'C04'}
        if clause in ('alias', 'leak'):     # "every other element keeps its value"
            return ({'C05', 'C19'} if op == 'BufSet' else {'C05'}) | ({'C04'} if clause == 'alias' else set())
        if clause == 'leakcopy':
            return {'C17'}
    if op in ('Cmp', 'CmpSeq'):
        return {'C16'}
    return set()


HEAP = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C15', 'C16', 'C17', 'C18',
        'C19', 'C20', 'C23']
FUNCS = ['C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C21', 'C22']

MC = {
    'C02': ['MC_Sparse'],
    'C03': ['MC_Sparse'],
    'C04': ['MC_Sparse'],
    'C09': ['MC_Layout'],
    'C10': ['MC_Slices'],
    'C11': ['MC_Slices', 'MC_Solve'],
    'C12': ['MC_Solve'],
    'C13': ['MC_Dioph'],
    'C14': ['MC_Compress'],
    'C21': ['MC_Layout'],
    'C22': ['MC_Search'],
    'C23': ['MC_Reject'],
}

SPARSE = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C15', 'C16', 'C17', 'C18', 'C20']

WORKERS = {}

# exhaustive exploration of MC_Formats (the formats refine ArrayHeap):
# per property the formats and operations it is about
ALLK = 'Buffer Strided COO FlatCOO CSR DM'
FLAT = 'Strided COO FlatCOO CSR'
INV = 'Refines NoBad Shares Compares TypeInv Families'
PROP = 'Frame WriteFrame'


def formats(kinds, mix, shapes, ops, objs=1):
    return dict(NewKinds=kinds, Mix=mix, Shapes=shapes, MaxOps=ops, MaxObjs=objs, Sim='FALSE',
                Emit='TRUE', INV=INV, PROP=PROP)


EXPLORE = {
    'C01': [formats(ALLK, 'MixNew', 'ShapesSmall', 1), formats('Buffer', 'MixExpl', 'ShapesTwo', 2),
            formats('Buffer Strided COO', 'MixStack', 'ShapesTwo', 2)],
    'C02': [formats(FLAT, 'MixSl', 'ShapesTiny', 2)],
    'C03': [formats('DM', 'MixSl', 'ShapesTwo', 2)],
    'C04': [formats(ALLK, 'MixSetB', 'ShapesTwo', 2)],
    'C05': [formats('Buffer Strided', 'MixSlSet', 'ShapesTwo', 3)],
    'C06': [formats(ALLK, 'MixCv', 'ShapesTwo', 2), formats('Buffer', 'MixReord', 'ShapesTwo', 3)],
    'C07': [formats(FLAT, 'MixCv', 'ShapesTwo', 2)],
    'C08': [formats('COO FlatCOO CSR', 'MixSl', 'ShapesTiny', 2)],
    'C09': [formats('Strided', 'MixOver', 'ShapesTwo', 3)],
    'C15': [formats('Strided COO DM', 'MixSl', 'ShapesTwo', 2)],
    'C16': [formats('Strided COO CSR', 'MixNew', 'ShapesTwo', 2, 2)],
    'C17': [formats('Strided COO Buffer', 'MixCpSet', 'ShapesTwo', 3)],
    'C18': [formats('Strided FlatCOO DM', 'MixSl', 'ShapesTwo', 2)],
    'C19': [formats('Buffer', 'MixWin', 'ShapesOne', 4), formats('Buffer', 'MixBufO', 'ShapesOne', 3)],
    'C20': [formats('Strided COO DM', 'MixMake', 'ShapesTwo', 2)],
    'C23': [formats('Buffer Strided CSR', 'MixBad', 'ShapesTwo', 2),
            formats('Strided DM', 'MixSlBad', 'ShapesOne', 3)],
}
DEEPER = {
    'C01': [formats(ALLK, 'MixNew', 'ShapesMore', 1), formats('Buffer', 'MixExpl', 'ShapesTiny', 2),
            formats('Strided COO DM', 'MixStack', 'ShapesTwo', 2)],
    'C02': [formats(FLAT, 'MixSl', 'ShapesSmall', 2), formats(FLAT, 'MixSl', 'ShapesTwo', 3),
            formats(FLAT, 'MixSl', 'ShapesCube', 2)],
    'C03': [formats('DM', 'MixSl', 'ShapesTiny', 2), formats('DM', 'MixSl', 'ShapesTwo', 3)],
    'C04': [formats(ALLK, 'MixSetB', 'ShapesTiny', 2), formats(FLAT, 'MixSlSet', 'ShapesTwo', 3)],
    'C05': [formats('Buffer Strided COO', 'MixSlSet', 'ShapesSmall', 3),
            formats('DM', 'MixSlSet', 'ShapesTwo', 3)],
    'C06': [formats(ALLK, 'MixCv', 'ShapesSmall', 2), formats(FLAT, 'MixCv', 'ShapesTwo', 3),
            formats('Buffer', 'MixReord', 'ShapesTiny', 3)],
    'C07': [formats(ALLK, 'MixCv', 'ShapesTiny', 2), formats(FLAT, 'MixCvCp', 'ShapesTwo', 3),
            formats('COO FlatCOO', 'MixSetCv', 'ShapesTwo', 3)],
    'C08': [formats('COO FlatCOO CSR', 'MixSl', 'ShapesSmall', 2),
            formats('COO FlatCOO CSR', 'MixConv', 'ShapesTwo', 3)],
    'C09': [formats('Strided COO', 'MixOver', 'ShapesTiny', 3)],
    'C15': [formats(ALLK, 'MixSl', 'ShapesTiny', 2)],
    'C16': [formats(ALLK, 'MixNew', 'ShapesTwo', 2, 2), formats(FLAT, 'MixConv', 'ShapesTwo', 3)],
    'C17': [formats('Strided COO CSR DM', 'MixCpSet', 'ShapesTwo', 3)],
    'C18': [formats(ALLK, 'MixSl', 'ShapesTiny', 2)],
    'C19': [formats('Buffer', 'MixWin', 'ShapesTiny', 4), formats('Buffer', 'MixBufO', 'ShapesTwo', 4)],
    'C20': [formats(ALLK, 'MixMake', 'ShapesTiny', 2)],
    'C23': [formats(ALLK, 'MixBad', 'ShapesTwo', 2), formats(ALLK, 'MixSlBad', 'ShapesOne', 3)],
}
# weights of the operations and formats of random programs
MIX = {'C02': 'MixSlice', 'C03': 'MixDM', 'C04': 'MixSet', 'C05': 'MixSet', 'C06': 'MixConv',
       'C07': 'MixConv', 'C08': 'MixConv', 'C09': 'MixDM', 'C17': 'MixCopy', 'C19': 'MixBuf'}
SIMKINDS = {'C02': FLAT, 'C03': 'DM', 'C08': 'COO FlatCOO CSR DM', 'C09': 'DM Strided',
            'C19': 'Buffer Strided'}

RULE = ('programs of public operations on arrays of all formats (and calls of the index '
        'functions) chosen by the seed, executed on the code in /repo, each event validated '
        'by TLC against the specification')
ASSUME = [
    'values are compared by Python equality through an injective token map (no NaN)',
    'arrays have at least one axis (0-d Strided arrays only by explicit construction/slicing)',
    'integer indices are within the axis; an assigned array does not share elements with the target',
]


def PLAN(pid, tier, seed):
    thorough = tier == 'thorough'
    conf = []
    if pid in HEAP:
        n = 40 if thorough else 15
        m = 16 if thorough else 4
        if pid in FUNCS:
            n = n * 2 // 3
        for i in range(n):
            conf.append(dict(name='h%d' % i, gen='gen.py', profile=pid, seed=seed * 1000 + i,
                             count=700 if thorough else 320, module='GCSTrace'))
        for i in range(m):
            conf.append(dict(name='a%d' % i, gen='gen.py', profile='all',
                             seed=seed * 1000 + 500 + i + 17 * int(pid[1:]),
                             count=700 if thorough else 320, module='GCSTrace'))
        for i in range(10 if thorough else 3):      # a few programs on large arrays
            conf.append(dict(name='g%d' % i, gen='gen.py', profile='large:' + pid,
                             seed=seed * 1000 + 700 + i, count=150 if thorough else 50,
                             module='GCSTrace'))
    if pid in FUNCS:
        n = (24 if thorough else 8) if pid not in HEAP else (12 if thorough else 4)
        per = {'C12': 800, 'C21': 700, 'C09': 500, 'C22': 1800}.get(pid, 2500)
        for i in range(n):
            conf.append(dict(name='f%d' % i, gen='genfunc.py', profile=pid, seed=seed * 1000 + i,
                             count=per * (3 if thorough else 1), module='FuncTrace'))
    if pid in SPARSE:    # sparse arrays of any shape
        for i in range(8 if thorough else 3):
            conf.append(dict(name='b%d' % i, gen='genbig.py', profile=pid, seed=seed * 1000 + i,
                             count=900 if thorough else 450, module='SparseTrace'))
    if pid in EXPLORE:
        # every program of a few operations on tiny arrays: model checked (the formats
        # refine ArrayHeap), and executed on the real code (a sample, if they are many)
        for i, c in enumerate(EXPLORE[pid] + (DEEPER.get(pid, []) if thorough else [])):
            conf.insert(0, dict(name='x%d' % i, gen='behave.py', profile='exhaustive ' + c['Mix'],
                                seed=seed, count=20000 if thorough else 3500, module='GCSTrace',
                                extra=c))
        # random programs of the specification
        for i in range(12 if thorough else 2):
            conf.append(dict(name='s%d' % i, gen='behave.py', profile='random ' + MIX.get(pid, 'MixHeap'),
                             seed=seed * 1000 + i + 37 * int(pid[1:]), count=600 if thorough else 250,
                             module='GCSTrace', extra=dict(Mix=MIX.get(pid, 'MixHeap') if i % 2 == 0 else 'MixHeap',
                                                           NewKinds=SIMKINDS.get(pid, ALLK))))
    mc = []
    if thorough and pid in EXPLORE:     # random programs, the formats checked at every step
        for i in range(4):
            mc.append(dict(name='sim%d' % i, module='MC_Formats.tla', workers=1,
                           args=['-simulate', 'num=1500', '-depth', '40', '-seed', str(seed * 100 + i)],
                           cfg=dict(Mix=MIX.get(pid, 'MixHeap'), Emit='FALSE', INV=INV, PROP=PROP)))
    for name in MC.get(pid, []):
        cfg = name + ('_thorough' if thorough else '') + '.cfg'
        import os
        here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
        if not os.path.exists(os.path.join(here, cfg)):
            cfg = name + '.cfg'
        mc.append(dict(name=name, module=name + '.tla', cfg=cfg, workers=WORKERS.get(name, 2)))
    return dict(conf=conf, mc=mc, rule=RULE, assumptions=ASSUME)
