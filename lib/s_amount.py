import random
from s_cpuinfo import Ctx, par_op
class Amount:
    """processes that are not bound to CPUs and exchange numbers of them"""
    name = 'amount'
    def __init__(self, confs, weights=None, par=0): self.confs = confs; self.weights = weights or {}; self.par = par; self.shapes = {}
    def setup(self, rng, ci):
        c = dict(ncpus=8, nproc=3, mode='polling', keep=False, greedy=False); c.update(self.confs[ci])
        x = Ctx(); x.c = c
        x.defs = {p: rng.randint(1, 4) for p in range(1, c['nproc'] + 1)}
        x.drv = dict(ncpus=c['ncpus'], ncores=c['ncpus'], nnodes=1, nproc=c['nproc'], dumps='w' if c['mode'] == 'async' else '')
        x.spec = {'ncpus': c['ncpus'], 'nproc': c['nproc'], 'async': c['mode'] == 'async', 'keep': c['keep'], 'greedy': c['greedy']}
        x.args = ' '.join(['--lewi=yes', '--mode=' + c['mode']] + (['--lewi-keep-one-cpu'] if c['keep'] else []) + (['--lewi-greedy'] if c['greedy'] else []))
        x.shape = self.shapes.setdefault((ci, repr(x.defs)), object())
        return x
    def replay(self, ctx, ops):
        st = {'up': set(), 'in': set(), 'n': 0}
        for o in ops: self.note(ctx, st, o)
        return st
    def note(self, ctx, st, o):
        t = o.split(); p = int(t[0]); st['n'] += 1
        if t[1] == 'par':
            for u in o.split(';')[1:]: self.note(ctx, st, u.strip())
            return
        if t[1] == 'init': st['up'].add(p)
        elif t[1] == 'fin': st['up'].discard(p); st['in'].discard(p)
        elif t[1] == 'into': st['in'].add(p)
        elif t[1] == 'outof': st['in'].discard(p)
    BASE = dict(fin=2, disable=3, enable=5, lend=10, reclaim=12, borrow=12, borrow_cpus=12, into=10, outof=4, init=0.3, nothing=0.6)
    ASY = dict(lend_cpus=16, acquire_cpus=26)
    POL = dict(maxpar=5, unsetmax=2, lend_cpus=0.3, acquire_cpus=0.3)
    def op(self, rng, ctx, st):
        o = self.op1(rng, ctx, st)
        if self.par and rng.random() < self.par:
            for _ in range(4):
                b = self.op1(rng, ctx, st)
                if b.split()[0] != o.split()[0]: return par_op(rng, o, b)
        return o
    def op1(self, rng, ctx, st):
        c = ctx.c; procs = sorted(ctx.defs)
        down = [p for p in procs if p not in st['up']]
        if down and (st['n'] < c['nproc'] or rng.random() < 0.1): return self.init(rng, ctx, rng.choice(down))
        w = dict(self.BASE); w.update(self.ASY if c['mode'] == 'async' else self.POL); w.update(self.weights)
        p = rng.choice(sorted(st['up'])) if st['up'] and rng.random() < 0.97 else rng.choice(procs)
        k = rng.choices(list(w), list(w.values()))[0]
        if p in st['in'] and rng.random() < 0.5: k = 'outof'
        if k == 'outof' and p not in st['in']: k = 'reclaim'
        if k == 'init': return self.init(rng, ctx, p)
        if k == 'nothing': return '%d %s' % (p, rng.choice(['lend_cpu 0', 'reclaim_cpu 0', 'acquire_cpu 0', 'borrow_cpu 0', 'return', 'reclaim_cpus 1', 'check 0']))
        if k in ('into', 'outof'): return '%d %s 1' % (p, k)
        if k == 'acquire_cpus': return '%d %s %d' % (p, k, rng.choice([0, 1, 1, 2, 2, 3, 4, 6, -1, 32767 if rng.random() < 0.2 else 2]))
        if k == 'borrow_cpus': return '%d %s %d' % (p, k, rng.choice([0, 1, 1, 2, 3, 5]))
        if k == 'lend_cpus': return '%d %s %d' % (p, k, rng.choice([0, 1, 1, 2, 2, 3, 4, -1]))
        if k == 'maxpar': return '%d %s %d' % (p, k, rng.choice([1, 2, 3, 4, 5, 7, 0, -1]))
        return '%d %s' % (p, k)
    def init(self, rng, ctx, p): return '%d init %d 0 %s' % (p, ctx.defs[p], ctx.args)
    def one(self, t):
        e = {'p': int(t[0]), 'op': t[1], 'n': 0}
        if t[1] in ('init', 'acquire_cpus', 'borrow_cpus', 'lend_cpus', 'maxpar'): e['n'] = int(t[2])
        return e
    def step(self, ctx, o, l):
        t = o.split()
        e = {'p': 0, 'op': '', 'n': 0, 'p2': 0, 'op2': '', 'n2': 0, 'r': 0, 'r2': 0, 'cb': [], 'ok': False, 'rq': [], 'up': False}
        if t[1] == 'par':
            a, b = [self.one(u.split()) for u in o.split(';')[1:]]
            e.update(a); e.update({k + '2': v for k, v in b.items()})
        else: e.update(self.one(t))
        if 'r' not in l: return e
        e['ok'] = True; e['r'] = l['r']; e['r2'] = l.get('r2', 0); e['cb'] = l['cb']
        q = l['st'].get('rqs', [])
        e['up'] = bool(q) and q[0] >= 0; e['rq'] = q
        return e
    def key(self, ctx, l): return repr((l['st'], l['r'], l['cb']))
