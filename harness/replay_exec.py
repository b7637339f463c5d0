"""replay_exec.py REPLAY.json TRACE.ndjson: run the recorded program again."""
import json
import sys

f = json.load(open(sys.argv[1]))
out = []
DROP = ('out', 'stage', 'err', 'obs', 'chg', 'again', 'src', 'same', 'equal', 'eq', 'ne')
if f['module'] == 'GCSTrace':
    from executor import Executor
    ex = None
    for e in f['program']:
        op = {k: v for k, v in e.items() if k not in DROP}
        if e['op'] in ('Get', 'BufGet'):
            op.pop('val', None)
        if e['op'] == 'Iter':
            op.pop('vals', None)
        if e['op'] == 'Reset':
            ex = Executor(e['mode'], e.get('lazy', False))
            out.append(op)
            continue
        r = ex.run(op)
        out.append(r)
        if r['out'] == 'raise':
            break
elif f['module'] == 'SparseTrace':
    from genbig import BigExecutor
    for e in f['program']:
        op = {k: v for k, v in e.items() if k not in DROP and (k != 'val' or e['op'] != 'Get')}
        if e['op'] == 'Reset':
            ex = BigExecutor(e['mode'])
            out.append(op)
            continue
        out.append(ex.run(op))
        if out[-1]['out'] == 'raise':
            break
else:
    import genfunc
    for e in f['program']:
        c = {k: v for k, v in e.items() if k not in ('out', 'err')}
        if c['op'] == 'extgcd':
            c.pop('x', None)
        if c['op'] == 'biggcd':
            c['x'] = c.pop('xx')
        c.setdefault('x', {})
        out.append(genfunc.run(c))
with open(sys.argv[2], 'w') as fh:
    for e in out:
        fh.write(json.dumps(e, separators=(',', ':')) + '\n')
