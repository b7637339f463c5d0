#!/usr/bin/env python3
"""run_check.py <property id> [--replay FILE]

Decides one property on /repo's current working tree:
 1. model checking of the specification modules behind the property (TLC);
 2. conformance: programs / calls are run on the real code and recorded, TLC
    validates every recorded event against the specification (total verdicts,
    clause by clause); a violated clause that belongs to the property is
    confirmed by running the program again in a fresh process.

Environment: VERIF_SEED, VERIF_TIER (quick | thorough).
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Any other exit: machinery failure.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('GCS_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CPUS = min(8, os.cpu_count() or 1)

sys.path.insert(0, HERE)
from plan import PLAN, attribute  # noqa: E402


class Machinery(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', GCS_REPO=REPO,
             PYTHONPATH=REPO)
    return e


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def java(args, work, name, cfg, module, extra_env=None, heap='1500m', workers='1', timeout=800):
    meta = os.path.join(work, 'meta-' + name)
    e = env()
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(extra_env or {})
    gc = '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC'
    cmd = ['java', '-Xss64m', '-Xmx' + heap, gc, '-XX:TieredStopAtLevel=4', '-cp', JARS,
           'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg] + args + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def states_of(out):
    m = re.search(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', out)
    if not m:      # simulation
        m = re.search(r'Progress: (\d+) states checked, (\d+) traces', out)
        return (int(m.group(1)),) * 2 if m else (0, 0)
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def write_cfg(work, name, c):
    """configuration of MC_Formats: c overrides the defaults"""
    d = dict(Shapes='ShapesSim', NewKinds='Buffer Strided COO FlatCOO CSR DM', MaxOps=9, MaxObjs=3,
             Sim='TRUE', Emit='TRUE', Mix='MixHeap', INV='TypeInv', PROP='')
    d.update(c)
    path = os.path.join(work, name + '.cfg')
    with open(path, 'w') as f:
        f.write('SPECIFICATION %s\n' % ('SpecSim' if d['Sim'] == 'TRUE' else 'Spec'))
        f.write('CONSTANTS\n  Shapes <- %s\n  Mix <- %s\n' % (d['Shapes'], d['Mix']))
        f.write('  NewKinds = {%s}\n' % ', '.join('"%s"' % k for k in d['NewKinds'].split()))
        for k in ('MaxOps', 'MaxObjs', 'Sim', 'Emit'):
            f.write('  %s = %s\n' % (k, d[k]))
        if d['Sim'] != 'TRUE':
            f.write('VIEW view\n')
        f.write('INVARIANTS %s\n' % d['INV'])
        if d['PROP']:
            f.write('PROPERTIES %s\n' % d['PROP'])
        f.write('CHECK_DEADLOCK FALSE\n')
    return path


# ---- model checking jobs -----------------------------------------------------
def mc_job(work, job):
    """job: (name, module, cfg, workers)"""
    t0 = time.time()
    cfg = job['cfg']
    if isinstance(cfg, dict):
        cfg = write_cfg(work, 'mc-' + job['name'], cfg)
    rc, out = java(job.get('args', []), work, 'mc-' + job['name'], cfg, job['module'], heap=job.get('heap', '3g'),
                   workers=str(job.get('workers', 2)), timeout=job.get('timeout', 700))
    if rc != 0 or ('No error has been found' not in out and not re.search(
            r'The number of states generated: \d', out)):
        raise Machinery('model checking of %s failed:\n%s' % (job['name'], out[-3000:]))
    g, d = states_of(out)
    return dict(job=job['name'], module=job['module'], cfg=job['cfg'] if isinstance(job['cfg'], str) else ' '.join(
                    '%s=%s' % kv for kv in sorted(job['cfg'].items())), generated=g, distinct=d,
                wall_s=round(time.time() - t0, 1))


# ---- conformance jobs ------------------------------------------------------------
def validate(work, name, trace, module):
    """verdict on a trace; an event the specification cannot even evaluate (it refers to
    elements that do not exist there) is a violation too: clause `crash`"""
    verdict = os.path.join(work, 'verdict-%s.json' % name)
    lines = open(trace).read().split('\n')[:-1]
    events = lines[:]
    crashed = []
    heap_trace = module != 'FuncTrace'
    skip = '{"op":"Reset","mode":"int","x":{}}' if heap_trace else '{"op":"skip","out":"ok"}'
    while True:
        if os.path.exists(verdict):
            os.remove(verdict)
        rc, out = java([], work, name, module + '.cfg', module + '.tla',
                       dict(TRACE=trace, VERDICT=verdict))
        if rc == 0 and os.path.exists(verdict):
            break
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        if not m or 'evaluating the nested' not in out or len(crashed) >= 5:
            raise Machinery('trace validation of %s failed (rc %d):\n%s' % (trace, rc, out[-2500:]))
        crashed.append(int(m.group(1)))        # 1-based number of the event
        i = crashed[-1] - 1
        last = len(crashed) >= 4      # enough seen: leave out the rest of the trace
        start = i
        while i < len(lines) and (i == start or last or (heap_trace and '"op":"Reset"' not in lines[i])):
            lines[i] = skip
            i += 1
        trace = trace + '.cut'
        with open(trace, 'w') as f:
            f.write('\n'.join(lines) + '\n')
    with open(verdict) as f:
        v = json.load(f)
    for n in crashed:
        v['fails'].append(dict(l=n, op=json.loads(events[n - 1])['op'], kind='-', clause='crash'))
    return v, states_of(out)


def generate(work, name, gen, profile, seed, count, extra=()):
    trace = os.path.join(work, name + '.ndjson')
    explored = (0, 0)
    if gen == 'behave.py':
        # operation programs generated from the specification by TLC
        cfg = write_cfg(work, name, extra)
        args = [] if extra.get('Sim') == 'FALSE' else ['-simulate', 'num=%d' % count, '-depth', '40',
                                                       '-seed', str(seed)]
        rc, out = java(args, work, name, cfg, 'MC_Formats.tla', heap='3g',
                       workers='1' if args else '3')
        if rc != 0 or 'PROGRAM' not in out or 'Error:' in out:
            raise Machinery('generating programs failed:\n' + out[:1500] + out[-1500:])
        profile = os.path.join(work, name + '.programs')
        with open(profile, 'w') as f:
            f.write('\n'.join(x for x in out.split('\n') if 'PROGRAM' in x) + '\n')
        explored = states_of(out)
        extra = ()
    p = subprocess.run([PY, os.path.join(HERE, gen), profile, str(seed)] +
                       [str(count), trace] + list(extra),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=800, preexec_fn=limits)
    if p.returncode != 0:
        raise Machinery('driver %s %s failed:\n%s' % (gen, profile, p.stdout[-3000:]))
    return trace, explored


def program_of(events, i):
    """events of the program that contains event number i (0-based), up to i"""
    s = i
    while s > 0 and events[s]['op'] != 'Reset':
        s -= 1
    return events[s:i + 1]


def conf_job(work, job):
    t0 = time.time()
    trace, mst = generate(work, job['name'], job['gen'], job['profile'], job['seed'], job['count'],
                     job.get('extra', ()))
    with open(trace) as f:
        events = [json.loads(line) for line in f]
    v, st = validate(work, job['name'], trace, job['module'])
    if v['events'] != len(events):
        raise Machinery('trace %s was not consumed' % trace)
    found = []
    for f in v['fails']:
        e = events[f['l'] - 1]
        prog = (program_of(events, f['l'] - 1) if job['module'] != 'FuncTrace' else [e])
        found.append(dict(module=job['module'], job=job, l=f['l'], clause=f['clause'], kind=f['kind'], op=f['op'],
                          event=e, program=prog,
                          props=sorted(attribute(job['module'], e, f['kind'], f['clause'], prog))))
    ops = {}
    for e in events:
        k = e['op']
        ops[k] = ops.get(k, 0) + 1
    sample = None
    for e in events[len(events) // 2:]:
        if e['op'] != 'Reset':
            sample = {k: e[k] for k in e if k not in ('obs', 'chg', 'red', 'pro', 'back', 'forth',
                                                      'res', 'pre', 'gsi', 'gis', 'gi', 'gp')}
            break
    programs = (sum(1 for e in events if e['op'] == 'Reset') if job['module'] != 'FuncTrace'
                else len(events))
    os.remove(trace)
    return dict(job=job['name'], profile=job['profile'], seed=job['seed'], events=len(events),
                validated=v['validated'], programs=programs, ops=ops, found=found, sample=sample,
                generated=st[0] + mst[0], distinct=st[1] + mst[1],
                model=mst[1], wall_s=round(time.time() - t0, 1))


# ---- confirming and reporting -----------------------------------------------------
def rerun(work, f, name):
    """run the failing program again in a fresh process and validate it"""
    src = os.path.join(work, 're-%s.json' % name)
    with open(src, 'w') as fh:
        json.dump(f, fh)
    trace = os.path.join(work, 're-%s.ndjson' % name)
    # a generous time limit for each call: this machine may have been busy
    p = subprocess.run([PY, os.path.join(HERE, 'replay_exec.py'), src, trace],
                       env=dict(env(), GCS_OP_TIMEOUT='40'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600,
                       preexec_fn=limits)
    if p.returncode != 0:
        raise Machinery('replay failed:\n' + p.stdout[-2000:])
    v, _ = validate(work, 're-' + name, trace, f['module'])
    with open(trace) as fh:
        events = [json.loads(line) for line in fh]
    props = set()
    for x in v['fails']:
        props |= attribute(f['module'], events[x['l'] - 1], x['kind'], x['clause'],
                           program_of(events, x['l'] - 1) if f['module'] != 'FuncTrace' else ())
    return props, v['fails'], events


def main(pid, replay=None):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='gcsverif-')
    try:
        if replay:
            with open(replay) as fh:
                f = json.load(fh)
            if f.get('whole_job'):
                found = conf_job(work, f['job'])['found']
                props = set(p for x in found for p in x['props'])
                print('violates:', sorted(props))
                return 1 if pid in props else 0
            props, fails, events = rerun(work, f, 'r')
            print(json.dumps(fails, indent=1))
            print('violates:', sorted(props))
            return 1 if pid in props else 0
        return check(pid, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, work, t0):
    plan = PLAN(pid, TIER, SEED)
    mc, conf = [], []
    # a traced job uses one core, a model checking job a few
    with cf.ThreadPoolExecutor(CPUS) as pool:
        futs = [pool.submit(conf_job, work, j) for j in plan['conf']]
        mfuts = [pool.submit(mc_job, work, j) for j in plan['mc']]
        # a job that fails is reported at the end, unless another one finds a violation
        broken = []
        for fs, out in ((futs, conf), (mfuts, mc)):
            for f in fs:
                try:
                    out.append(f.result())
                except (Machinery, subprocess.TimeoutExpired) as ex:
                    broken.append(ex)
    found = [x for c in conf for x in c['found']]
    mine = [x for x in found if pid in x['props']]
    violation = None
    known = load_known()
    shown = set()
    rejobs = {}
    for n, x in enumerate(mine[:25]):
        props, fails, events = rerun(work, x, 'c%d' % n)
        if pid not in props:
            # not reproducible alone: a time limit hit on a busy machine, or behaviour
            # that depends on what the process did before: run the whole job again
            j = x['job']
            if j['name'] not in rejobs:
                if len(rejobs) >= 2:
                    continue
                os.environ['GCS_OP_TIMEOUT'] = '40'
                rejobs[j['name']] = conf_job(work, j)['found']
            # preferably the same failure; behaviour that depends on object addresses
            # may fail elsewhere this time
            again = [y for y in rejobs[j['name']] if pid in y['props']]
            again = [y for y in again if y['l'] == x['l'] and y['clause'] == x['clause']] or again
            if not again:
                continue
            fails = [dict(clause=y['clause'], op=y['op'], kind=y['kind'], l=y['l']) for y in again[:20]]
            x = dict(again[0], whole_job=True)
        key = signature(x)
        if key in known.get(pid, {}):
            if key not in shown:
                shown.add(key)
                print('KNOWN-FINDING: property=%s %s' % (pid, known[pid][key]))
            continue
        violation = dict(x, fails=fails, program=x['program'])
        break
    wall = time.time() - t0
    write_evidence(pid, plan, mc, conf, found, violation, wall)
    if violation:
        path = write_replay(pid, violation)
        e = violation['event']
        print('property %s: clause %r violated by %s on %s' %
              (pid, violation['clause'], violation['op'], violation['kind'] or '-'))
        if e.get('err'):
            print('   ', e['err'])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        raise broken[0]
    tot = sum(c['validated'] for c in conf)
    print('property %s held: %d events of %d programs validated, %d model states, %.1f s' %
          (pid, tot, sum(c['programs'] for c in conf), sum(m['distinct'] for m in mc) + sum(c['model'] for c in conf), wall))
    return 0


def signature(x):
    """identifies the failing input: operation arguments without results"""
    keep = ('op', 'a', 'b', 'c', 'shape', 'strides', 'index', 'sshape', 'sstrides', 'kind', 'h',
            'lo', 'ps', 'sets', 'rows', 'crow', 'size', 's', 'dims', 'part', 'input', 'levels')
    prog = [{k: e[k] for k in e if k in keep} for e in x['program']]
    return hashlib.sha1(json.dumps([prog, x['clause']], sort_keys=True).encode()).hexdigest()[:16]


def load_known():
    """known_findings.txt: lines  known: property=<id> <signature> <what fails>"""
    r = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\w+) (\w+) (.*)', line)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r


def write_replay(pid, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(v['program'], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, module=v['module'], clause=v['clause'], op=v['op'],
                       kind=v['kind'], program=v['program'], fails=v['fails'], job=v['job'],
                       whole_job=v.get('whole_job', False)), f, indent=1)
    return path


def write_evidence(pid, plan, mc, conf, found, violation, wall):
    ops = {}
    for c in conf:
        for k, n in c['ops'].items():
            ops[k] = ops.get(k, 0) + n
    other = {}
    for x in found:
        for p in x['props'] or ['unattributed']:
            other[p] = other.get(p, 0) + 1
    cov = dict(
        states=sum(m['distinct'] for m in mc) + sum(c['distinct'] for c in conf),
        transitions=sum(m['generated'] for m in mc) + sum(c['generated'] for c in conf),
        traces_validated_against_impl=sum(c['programs'] for c in conf),
        events_validated=sum(c['validated'] for c in conf),
        operations=ops,
        model_checking=mc,
        conformance_jobs=[{k: c[k] for k in ('job', 'profile', 'seed', 'events', 'programs', 'model',
                                             'wall_s')} for c in conf],
        violated_clauses_by_property=other,
        samples=[c['sample'] for c in conf if c['sample']][:3],
        rule=plan['rule'])
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
              level='model_checking', coverage=cov, assumptions=plan['assumptions'],
              wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        rp = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
        sys.exit(main(sys.argv[1], rp))
    except Machinery as ex:
        print('MACHINERY:', ex)
        sys.exit(3)
    except subprocess.TimeoutExpired as ex:
        print('MACHINERY: timeout', str(ex)[:300])
        sys.exit(3)
