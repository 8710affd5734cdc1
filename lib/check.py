"""python3 lib/check.py <property> quick|thorough     run one check
   python3 lib/check.py setup                         build what the checks need
   python3 lib/check.py replay <file>                 re-run a saved counterexample
   python3 lib/check.py list                          the registered checks"""
import json, os, shutil, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, vf, explore
from vf import SEED

PROPS = {}          # id -> list of jobs
META = {}           # id -> dict(assumptions=[..], known=..)

def register(pid, jobs, assumptions=()):
    PROPS[pid] = jobs; META[pid] = {'assumptions': list(assumptions)}

class MC:
    """exhaustive exploration of a model with TLC"""
    def __init__(self, label, module, quick, thorough=None, spec='Spec', invariants=('Good',), properties=(), constraint='Bounded', timeout=700, heap='12g', only=None, symmetry=None):
        self.__dict__.update(locals())
    def run(self, pid, res, tier):
        if self.only and tier != self.only: return
        consts = dict(self.quick)
        if tier == 'thorough' and self.thorough: consts.update(self.thorough)
        d = vf.workdir('mc')
        try:
            shutil.copytree(vf.SPEC, os.path.join(d, 'spec'), ignore=shutil.ignore_patterns('states'))
            c = 'CONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in consts.items()) + 'SPECIFICATION %s\n' % self.spec
            c += ''.join('INVARIANT %s\n' % i for i in self.invariants) + ''.join('PROPERTY %s\n' % i for i in self.properties)
            if self.constraint: c += 'CONSTRAINT %s\n' % self.constraint
            c += 'CHECK_DEADLOCK FALSE\n'
            open(os.path.join(d, 'spec', 'gen.cfg'), 'w').write(c)
            r = vf.tlc(self.module, 'gen', wd=d, timeout=self.timeout, heap=self.heap)
        finally: shutil.rmtree(d, ignore_errors=True)
        if r['violated']:
            f = vf.save_replay(pid, {'property': pid, 'kind': 'model', 'model': self.label, 'constants': consts, 'output': r['out'][-20000:]})
            res.violation(f, 'the specification itself breaks the property in model %s' % self.label)
        elif r['err'] or r['rc'] not in (0,): raise vf.TLCError('%s: rc %s\n%s' % (self.label, r['rc'], r['out'][-3000:]))
        if r['distinct'] < 2: raise vf.TLCError('%s explored only %d states' % (self.label, r['distinct']))
        res.add_mc(r, self.label)

class Walks:
    """executions of the real code, guided by the states they reach, validated against the specification"""
    def __init__(self, make, module, nq, nt, length=40, focus=None, relevant=None, variant='rel', batches=1, only=None):
        self.__dict__.update(locals())
    def run(self, pid, res, tier):
        if self.only and tier != self.only: return
        S = self.make(); lib = build.build(self.variant)
        n = self.nq if tier == 'quick' else self.nt
        nb = 1 if tier == 'quick' else max(1, -(-n // 800))
        for b in range(nb):
            traces, st = explore.explore(S, lib, n // nb, self.length, SEED * 1000 + b * 7919 + hash_id(pid))
            for k, v in st.items(): res.cov['%s_%s' % (S.name, k)] = res.cov.get('%s_%s' % (S.name, k), 0) + v
            if len(res.samples) < 5 and traces:
                t = traces[len(traces) // 2]
                res.samples.append({'subsystem': S.name, 'cfg': t['cfg'], 'ops': t['_ops'][:30]})
            if min((len(t['steps']) for t in traces), default=0) == 0: raise RuntimeError('a walk recorded nothing')
            explore.check_traces(S, self.module, traces, lib, pid, res, variant=self.variant,
                                 relevant=lambda m, t: relevant(pid, m, self.focus))
            if len(res.violations) >= 3: break

def hash_id(pid): return sum((i + 1) * ord(c) for i, c in enumerate(pid)) % 9973

def relevant(pid, m, focus):
    """a difference counts for this property if what was observed breaks one of its clauses, or if it
    shows in an operation (and in a field) that the property is about.  focus = (operations, fields)"""
    fields = m['fields']
    if fields <= {'last', 'par'}:
        return bool(focus and focus[1] and 'last' in focus[1]) and not any(k.startswith('[order]') for k in vf.known_findings(pid))
    if 'crash' in fields or not m['trace']: return True
    if pid in {f.split('.')[0] for f in fields if '.' in f}: return True
    if focus is None: return True
    ops, fl = focus
    return (ops is None or bool(set(m['op'].split('+')) & set(ops))) and (fl is None or bool(fields & fl))

def run(pid, tier):
    res = vf.Result(pid, tier, 'model_checking')
    res.assumptions = META[pid]['assumptions']
    res.known = [l for l in vf.known_findings(pid)]
    for j in PROPS[pid]:
        if len(res.violations) >= 3: break
        j.run(pid, res, tier)
    return res.finish()

def load():
    import importlib
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('c_') and f.endswith('.py'): importlib.import_module(f[:-3]).define(sys.modules[__name__])

def main(a):
    load()
    if not a or a[0] == 'list':
        for p, j in PROPS.items(): print(p, [type(x).__name__ for x in j])
        return 0
    if a[0] == 'setup':
        for v in ('rel', 'sched'): build.build(v)
        return 0
    if a[0] == 'replay': return replay(a[1])
    try: return run(a[0], a[1] if len(a) > 1 else 'quick')
    except build.BuildError as x:
        print('the tree does not build:\n' + str(x)[-3000:]); return 3
    except Exception:
        traceback.print_exc(); return 3

def replay(f):
    r = json.load(open(f))
    if r['kind'] != 'walk': print(r.get('output', '')[-6000:]); return 1
    lib = build.build(r['variant'])
    (lines, status), = vf.run_walks(lib, [(r['drv'], r['ops'])])
    for o, l in zip([x for x in r['ops'] if not x.startswith('#')], lines): print(o, '\n   ', json.dumps(l))
    print('status', status); print(r['mismatch'])
    return 1

if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main(sys.argv[1:]))
