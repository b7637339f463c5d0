"""behave.py PROGRAMS SEED COUNT TRACE.ndjson  (at most COUNT programs, picked by the seed)

Executes operation programs generated from the specification (PROGRAM lines
printed by TLC, spec/MC_Formats.tla) on the real code and records the trace.
Value kind, forms of the arguments and laziness vary from program to program.
"""
import json
import random
import sys
import time

from executor import Executor

MODES = ['int', 'float', 'str', 'mixed', 'tuple', 'alias', 'int', 'obj', 'dict']


def programs(path):
    for line in open(path):
        i = line.find('PROGRAM ')
        if i < 0:
            continue
        text = line[i + 8:].rstrip()
        if line.startswith('"'):
            text = json.loads('"' + text)
        yield json.loads(text)


def vary(op, rnd, mode, ex):
    """the same operation, called in another way"""
    x = {} if op.get('x') == {'s': 0} else dict(op.get('x', {}))
    o = op['op']
    if o == 'New':
        x['nest'] = rnd.choice(['list', 'list', 'tuple', 'mixed'])
        n = 1
        for k in x['nshape']:
            n *= k
        if mode == 'tuple' or (n == 0 and 0 in x['nshape'][:-1]):
            x['giveshape'] = True     # not visible in the nested sequence
        elif rnd.random() < .2:
            x['giveshape'] = True
        x['mut'] = rnd.random() < .1
    elif o == 'Set':
        if not op['vh'] and x['vshape'] and 0 not in x['vshape']:
            f = ['list', 'tuple', 'Strided', 'mixed'] + (['CSR'] if len(x['vshape']) == 2 else [])
            x['vform'] = rnd.choice(f) if mode != 'tuple' else 'list'
    elif o in ('Win', 'BufGet', 'BufSet'):
        x['tup'] = rnd.random() < .3
    elif o == 'Conv':
        if rnd.random() < .3:
            x['via'] = 'fromobject'
    elif o == 'Stack':
        x['nest'] = rnd.choice(['list', 'list', 'tuple', 'mixed'])
        x['giveshape'] = rnd.random() < .1
    elif o == 'BufOver':
        x['seq'] = rnd.choice(['list', 'list', 'sub', 'seq'])
        x['kw'] = rnd.random() < .3
    elif o == 'StridedOver':
        x['sliced'] = rnd.random() < .5
    elif o == 'Bad':
        x['raw'] = [[3, rnd.randrange(len(Executor.OTHER))] if it[0] == 3 else it for it in op['index']]
        buf = type(ex.objs[op['h'] - 1]).__name__ == 'Buffer'
        one = len(x['raw']) == 1
        x.update(buf=int(buf), aslist=int(not buf and rnd.random() < .1),
                 # (a bare (0,) is an index)
                 bare=int(one and (x['raw'][0][1] < 5 if x['raw'][0][0] == 3 else buf and rnd.random() < .7)))
    if o in ('Slice', 'Conv', 'Copy', 'Win') and rnd.random() < .1:
        x['twice'] = True
    return dict(op, x=x)


def plain(prog):
    """no element is ever stored with the value of a marker"""
    for op in prog:
        if op['op'] in ('Stack', 'BufOver'):
            return False
        if op.get('ue') or (op['op'] == 'New' and 5 in op['input']):
            return False
        if op['op'] == 'Set' and (op['vh'] or any(v < 1000 for v in op['vals'])):
            return False
    return True


def main(path, seed, count, out):
    rnd = random.Random(seed)
    progs = list(programs(path))
    if len(progs) > count:
        progs = rnd.sample(progs, count)
    t0 = time.time()
    n = 0
    with open(out, 'w') as fh:
        def put(e):
            fh.write(json.dumps(e, separators=(',', ':')) + '\n')
        for prog in progs:
            mode = MODES[n % len(MODES)]
            lazy = plain(prog) and rnd.random() < .5
            n += 1
            ex = Executor(mode, lazy)
            put(dict(op='Reset', mode=mode, lazy=lazy, x={}))
            ok = True
            for op in prog:
                e = ex.run(vary(op, rnd, mode, ex))
                put(e)
                ok = e['out'] != 'raise' or e['op'] == 'Bad'
                if not ok:
                    break
            if ok and not lazy and len(ex.objs) > 1 and (
                    rnd.random() < .25 or sum(op['op'] == 'New' for op in prog) > 1):
                pairs = [(g, h) for g in range(1, len(ex.objs) + 1) for h in range(1, len(ex.objs) + 1)]
                for g, h in pairs if len(pairs) < 10 else rnd.sample(pairs, 9):
                    e = ex.run(dict(op='Cmp', h=h, g=g, x={}))
                    put(e)
                    if e['out'] == 'raise':
                        break
            if lazy and ok:       # read everything, in any order
                order = list(range(1, len(ex.objs) + 1))
                rnd.shuffle(order)
                for h in order:
                    e = ex.run(dict(op='Obs', h=h, x={}))
                    put(e)
                    if e['out'] == 'raise':
                        break
    if n == 0:
        sys.exit('no programs')
    print(n, 'programs %.1f s' % (time.time() - t0))


if __name__ == '__main__':
    main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
