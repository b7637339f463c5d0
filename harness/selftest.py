#!/usr/bin/env python3
"""selftest.py [SEED]: does the binding notice?

Records executions of the real code, corrupts one recorded observation in each
program (each call of the index functions) and lets TLC judge the corrupted
trace.  Reports, per corrupted field, how many corruptions were rejected, at
the corrupted event.  Development tool, used by no check.
"""
import copy
import json
import os
import random
import shutil
import sys
import tempfile

from run_check import generate, validate


def others(r, v, lo=-2, hi=12):
    while True:
        w = r.randint(lo, hi)
        if w != v:
            return w


def corrupt_seq(r, s, num=True):
    """another sequence: an item changed, dropped, repeated, two swapped"""
    s = copy.deepcopy(s)
    for _ in range(20):
        t = copy.deepcopy(s)
        k = r.choice('cdis')
        if k == 'i':
            t.insert(r.randint(0, len(t)), copy.deepcopy(r.choice(t)) if t else 0)
        elif not t:
            continue
        elif k == 'c' and num and not isinstance(t[0], list):
            i = r.randrange(len(t))
            t[i] = others(r, t[i])
        elif k == 'c' and isinstance(t[0], list):
            i = r.randrange(len(t))
            u = corrupt_seq(r, t[i])
            if u is None:
                continue
            t[i] = u
        elif k == 'd':
            del t[r.randrange(len(t))]
        elif k == 's' and len(t) > 1:
            i, j = r.sample(range(len(t)), 2)
            t[i], t[j] = t[j], t[i]
        if t != s:
            return t
    return None


def change_seq(r, s):
    """one item of an integer sequence changed"""
    if not s:
        return None
    t = list(s)
    i = r.randrange(len(t))
    t[i] = others(r, t[i], 600, 700)
    return t


def heap_fields(e):
    """names of the fields of an event that can be corrupted"""
    f = []
    if 'obs' in e and e['out'] == 'ok' and 'vals' in e['obs']:
        o = e['obs']
        f += ['obs.vals', 'obs.shape', 'obs.u', 'obs.k', 'obs.eidx', 'obs.evals', 'obs.size',
              'obs.full', 'obs.len', 'obs.inter']
        if o['nvals']:
            f.append('obs.nvals')
        f += {'COO': ['rep.rows'], 'FlatCOO': ['rep.f'], 'CSR': ['rep.crow', 'rep.cols'],
              'DM': ['rep.g', 'rep.rs', 'rep.ro']}.get(o['rep']['k'], [])
    if e['op'] in ('Get', 'BufGet') and e['out'] == 'ok':
        f.append('val')
    if e['op'] == 'Iter':
        f.append('vals')
    if e['op'] in ('Cmp', 'CmpSeq'):
        f.append('equal')
    if e['op'] == 'Cmp':
        f += ['ne', 'eq']
    if e['op'] == 'Win' and e['out'] == 'IndexError':
        f.append('noraise')
    if 'ceq' in e:
        f.append('ceq')
    f += ['again', 'src', 'chg.add', 'raise']
    if e['chg']:
        f += ['chg.drop', 'chg.vals', 'chg.shape', 'chg.pos']
    return f


def corrupt(r, e, f, nobj):
    """False if not applicable"""
    if f.startswith('obs.') or f.startswith('rep.'):
        o = e['obs'] if f.startswith('obs.') else e['obs']['rep']
        k = f[4:]
        if k in ('vals', 'nvals', 'evals'):
            v = change_seq(r, o[k])
        elif k == 'shape':
            v = corrupt_seq(r, o[k])
        elif k == 'u':
            v = others(r, o[k], 600, 700)
        elif k == 'k':
            v = r.choice([x for x in ('Buffer', 'Strided', 'COO', 'FlatCOO', 'DM') if x != o[k]])
        elif k in ('full', 'inter'):
            v = not o[k]
        elif k in ('size', 'len'):
            v = o[k] + r.choice([1, -1])
            if k == 'size' and o['k'] == 'DM' or k == 'len' and not o['shape']:
                return False
        else:
            v = corrupt_seq(r, o[k])
        if v is None:
            return False
        o[k] = v
        return True
    if f == 'val':
        e['val'] = others(r, e['val'], 600, 700)
    elif f == 'vals':
        v = corrupt_seq(r, e['vals'])
        if v is None:
            return False
        e['vals'] = v
    elif f in ('equal', 'ne', 'eq', 'again', 'src', 'ceq'):
        if f == 'again' and e['op'] in ('Set', 'BufSet', 'Print', 'Iter', 'Reset') or e['out'] != 'ok':
            return False
        if f == 'src' and e['op'] in ('Print', 'Iter', 'Reset'):
            return False
        if f == 'eq':
            e['ne'] = e['eq']
        e[f] = not e[f]
    elif f == 'noraise':
        e['out'] = 'ok'
        e['same'] = False
        e['obs'] = dict(k='Buffer', shape=[0], u=0, vals=[], nvals=[], eidx=[], evals=[], inter=True,
                        size=0, full=True, len=0,
                        rep=dict(k='Buffer', shape=[0], vals=[], rows=[], f=[], crow=[], cols=[],
                                 n=0, g=[], rs=[], ro=[], inner=[]))
    elif f == 'raise':
        if e['out'] != 'ok' or e['op'] in ('Reset', 'Print'):
            return False
        e['out'] = 'raise'
    elif f == 'chg.add':
        if not nobj or e['lz']:
            return False
        h = r.randint(1, nobj)
        if any(c['h'] == h for c in e['chg']):
            return False
        e['chg'].append(dict(h=h, vals=[601], shape=[1], u=0, pos=[0], evals=[601]))
    else:
        i = r.randrange(len(e['chg']))
        c = e['chg'][i]
        if f == 'chg.drop':
            del e['chg'][i]
        else:
            k = f[4:]
            v = change_seq(r, c[k]) if k == 'vals' else corrupt_seq(r, c[k])
            if v is None:
                return False
            c[k] = v
    return True


def sparse_fields(e):
    f = []
    if 'obs' in e and e['out'] == 'ok':
        o = e['obs']
        f += ['obs.shape', 'obs.u', 'obs.k', 'obs.len', 'obs.full']
        if o['pvals']:
            f += ['obs.pvals', 'obs.nvals']
        if o['k'] != 'DM':
            f += ['obs.eidx', 'obs.evals', 'obs.size']
        f += {'COO': ['rep.rows'], 'FlatCOO': ['rep.f'], 'CSR': ['rep.crow', 'rep.cols']}.get(o['k'], [])
    if e['op'] == 'Get' and e['out'] == 'ok':
        f.append('val')
    if e['op'] == 'Cmp':
        f += ['equal', 'ne', 'eq']
    if e['chg']:
        f += ['chg.drop', 'chg.pvals', 'chg.evals']
    return f + ['again', 'src', 'raise']


def corrupt_sparse(r, e, f):
    if f.startswith('obs.') or f.startswith('rep.'):
        o = e['obs'] if f.startswith('obs.') else e['obs']['rep']
        k = f[4:]
        if k in ('pvals', 'nvals', 'evals'):
            v = change_seq(r, o[k])
        elif k == 'u':
            v = others(r, o[k], 600, 700)
        elif k == 'k':
            v = r.choice([x for x in ('COO', 'FlatCOO', 'CSR', 'DM') if x != o[k]])
        elif k == 'full':
            if not o['fk']:
                return False
            v = not o[k]
        elif k in ('len', 'size'):
            v = o[k] + r.choice([1, -1])
        elif k == 'f':
            if not o[k] or not o[k][0]['d']:
                return False
            v = copy.deepcopy(o[k])
            v[0]['n'] = 1 - v[0]['n']
        else:
            v = corrupt_seq(r, o[k])
        if v is None:
            return False
        o[k] = v
    elif f == 'val':
        e['val'] = others(r, e['val'], 600, 700)
    elif f == 'raise':
        if e['out'] != 'ok' or e['op'] == 'Reset':
            return False
        e['out'] = 'raise'
    elif f in ('equal', 'ne', 'eq', 'again', 'src'):
        if e['out'] != 'ok' or e['op'] == 'Reset' or f == 'again' and e['op'] == 'Set':
            return False
        if f == 'eq':
            e['ne'] = e['eq']
        e[f] = not e[f]
    else:
        i = r.randrange(len(e['chg']))
        c = e['chg'][i]
        if f == 'chg.drop':
            del e['chg'][i]
        else:
            v = change_seq(r, c[f[4:]])
            if v is None:
                return False
            c[f[4:]] = v
    return True


# fields of FuncTrace events that record results
FUNC = {'slice': ['r', 'n', 'n2'], 'index': ['nidx', 'sshape', 'is', 'ap'],
        'solve': ['res', 'pre', 'gsi', 'gis', 'gi', 'gp'], 'dioph': ['none', 'x0', 'zs'],
        'extgcd': ['g', 'x', 'y'], 'compress': ['comp', 'unc', 'basics'],
        'uncompress': ['unc', 'comp'], 'reduce': ['rdims', 'rstrides', 'rshape', 'red', 'pro', 'back', 'forth'],
        'basics': ['rdims', 'rstrides', 'rshape', 'red', 'pro', 'back', 'forth'],
        'lookup': ['res', 'res2'], 'bigdioph': ['none', 'x0', 'zs'], 'biggcd': ['g', 'x', 'y'],
        'bigslice': ['r', 'n', 'n2'], 'bigindex': ['nidx', 'sshape', 'is', 'ap'], 'bigsolve': ['res', 'pre'],
        'bigreduce': ['rstrides', 'rshape', 'red', 'back'], 'biglookup': ['res', 'res2']}


def bigs(v):
    """the big integers within a value"""
    if isinstance(v, dict) and set(v) == {'n', 'd'}:
        return [v]
    if isinstance(v, (dict, list)):
        return [x for y in (v.values() if isinstance(v, dict) else v) for x in bigs(y)]
    return []


def corrupt_func(r, e, f):
    v = e.get(f)
    if bigs(v):
        b = r.choice(bigs(v))
        if not b['d']:
            b['d'] = [r.randint(1, 3)]
        elif r.random() < .5 and b['d'][-1] != 9999:
            b['d'][-1] += 1
        else:
            b['n'] = 1 - b['n']
        return True
    if isinstance(v, bool):
        e[f] = not v
    elif isinstance(v, int):
        e[f] = others(r, v)
    elif isinstance(v, list):
        # answers are sequences of fixed length: change one item
        if not v:
            return False
        i = r.randrange(len(v))
        if isinstance(v[i], int):
            v[i] = others(r, v[i])
        elif isinstance(v[i], list) and v[i] and isinstance(v[i][0], int):
            j = r.randrange(len(v[i]))
            if f == 'nidx' and (j == 0 or v[i][0] != 0):
                return False
            v[i][j] = others(r, v[i][j])
        elif f == 'x0' or f == 'zs' or not v[i]:
            return False
    elif isinstance(v, dict):
        k = r.choice(sorted(v))
        if isinstance(v[k], int):
            v[k] = others(r, v[k])
        elif v[k]:
            i = r.randrange(len(v[k]))
            v[k][i] = others(r, v[k][i])
        else:
            return False
    else:
        return False
    return True


def run(work, name, gen, profile, seed, count, module, stats):
    r = random.Random(seed)
    trace, _ = generate(work, name, gen, profile, seed, count)
    events = [json.loads(x) for x in open(trace)]
    clean = copy.deepcopy(events)
    hit = {}
    if module != 'FuncTrace':
        sparse = module == 'SparseTrace'
        starts = [i for i, e in enumerate(events) if e['op'] == 'Reset'] + [len(events)]
        for a, b in zip(starts[:-1], starts[1:]):
            cand = []
            nobj = 0
            made = {}
            for i in range(a + 1, b):
                made[i] = nobj
                if events[i].get('obs') and events[i]['out'] == 'ok' and events[i]['op'] != 'Obs':
                    nobj += 1
                if events[i]['out'] == 'raise':
                    break
                cand += [(i, f) for f in (sparse_fields if sparse else heap_fields)(events[i])]
            if not cand:
                continue
            byf = {}
            for i, f in cand:
                byf.setdefault(f, []).append(i)
            f = min(byf, key=lambda g: (stats.get('sparse ' * sparse + g, [0, 0])[0], r.random()))
            i = r.choice(byf[f])
            ok = corrupt_sparse(r, events[i], f) if sparse else corrupt(r, events[i], f, made[i])
            f = 'sparse ' * sparse + f
            if ok and events[i] != clean[i]:
                hit[i] = f
                stats.setdefault(f, [0, 0, []])[0] += 1
            else:
                events[i] = clean[i]
                stats.setdefault(f, [0, 0, []])
    else:
        for i, e in enumerate(events):
            if e['out'] == 'raise':
                continue
            f = r.choice(FUNC[e['op']])
            if f in e and corrupt_func(r, e, f) and e != clean[i]:
                hit[i] = f
                stats.setdefault(e['op'] + '.' + f, [0, 0, []])[0] += 1
            else:
                events[i] = clean[i]
    with open(trace, 'w') as fh:
        for e in events:
            fh.write(json.dumps(e) + '\n')
    v, _ = validate(work, name, trace, module)
    bad = {x['l'] - 1 for x in v['fails']}
    for i, f in hit.items():
        key = f if module != 'FuncTrace' else events[i]['op'] + '.' + f
        if i in bad:
            stats[key][1] += 1
        else:
            stats[key][2].append((clean[i], events[i]))
    return len(hit), len(bad - set(hit))


if __name__ == '__main__':
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    work = tempfile.mkdtemp(prefix='gcsself-')
    stats = {}
    try:
        for k, p in enumerate(('all', 'C03', 'C08', 'C16', 'C19', 'C04')):
            n, spurious = run(work, 'h%d' % k, 'gen.py', p, seed * 10 + k, 200, 'GCSTrace', stats)
            print(p, n, 'corrupted,', spurious, 'other events rejected')
        for k, p in enumerate(('all', 'C03', 'C04', 'C16')):
            n, spurious = run(work, 'b%d' % k, 'genbig.py', p, seed * 10 + k, 200, 'SparseTrace', stats)
            print(p, n, 'corrupted,', spurious, 'other events rejected')
        for p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C21', 'C22'):
            n, spurious = run(work, p, 'genfunc.py', p, seed, 150, 'FuncTrace', stats)
            print(p, n, 'corrupted,', spurious, 'other events rejected')
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for f in sorted(stats):
        a, b, miss = stats[f]
        print('%-18s %4d corrupted %4d rejected' % (f, a, b))
        if miss and '-v' in sys.argv:
            for c, d in miss[:2]:
                print('    clean  ', {k: c[k] for k in c if k not in ('x',)})
                print('    corrupt', {k: d[k] for k in d if k not in ('x',)})
