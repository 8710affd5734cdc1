import random
from s_cpuinfo import Ctx, mint, bits
NAMES = ['a', 'bb', 'phase,2', 'a-name-of-30-characters-xxxxxx']
class Barrier:
    """processes that synchronize in the barriers of the node"""
    name = 'barrier'
    def __init__(self, confs, weights=None): self.confs = confs; self.weights = weights or {}; self.shapes = {}
    def setup(self, rng, ci):
        c = dict(ncpus=4, nproc=3, mode='polling', lewi=True, lb=True, sel=[], bid=None, nobar=[], keep=False); c.update(self.confs[ci])
        x = Ctx(); x.c = c; n = c['ncpus']
        cpus = list(range(n)); rng.shuffle(cpus)
        masks = {p: [] for p in range(1, c['nproc'] + 1)}
        for p in masks:
            if cpus: masks[p].append(cpus.pop())
        for k in cpus: masks[rng.randint(1, c['nproc'])].append(k)
        x.masks = {p: sorted(m) for p, m in masks.items()}
        bid = c['bid'] or [0] * c['nproc']
        x.drv = dict(ncpus=n, ncores=n, nnodes=1, nproc=c['nproc'], dumps='cb')
        x.spec = {'ncpus': n, 'nproc': c['nproc'], 'async': c['mode'] == 'async', 'lewi': c['lewi'], 'lb': c['lb'], 'sel': c['sel'], 'bid': bid, 'keep': c['keep'],
                  'bar': [p for p in masks if p not in c['nobar']]}
        def args(p):
            a = ['--mode=' + c['mode'], '--lewi=' + ('yes' if c['lewi'] else 'no'), '--barrier=' + ('no' if p in c['nobar'] else 'yes'), '--lewi-barrier=' + ('yes' if c['lb'] else 'no')]
            if not c['lewi']: a.append('--drom')
            if c['keep']: a.append('--lewi-keep-one-cpu')
            if c['sel']: a.append('--lewi-barrier-select=' + ','.join(c['sel']))
            if bid[p - 1]: a.append('--barrier-id=%d' % bid[p - 1])
            return ' '.join(a)
        x.args = {p: args(p) for p in masks}
        x.names = NAMES + (['default (id: 1)'] if False else [])
        x.shape = self.shapes.setdefault((ci, repr(x.masks)), object())
        return x
    def replay(self, ctx, ops):
        st = {'up': set(), 'n': 0, 'inb': {}, 'handles': set(), 'names': {}}
        for o in ops: self.note(ctx, st, o)
        return st
    def note(self, ctx, st, o):
        t = o.split(); p = int(t[0]); st['n'] += 1
        if t[1] == 'init': st['up'].add(p)
        elif t[1] == 'fin': st['up'].discard(p)
        elif t[1] == 'bar': st['last'] = t[2]
        elif t[1] == 'bar_reg': st['names'].setdefault(t[2], len(st['names']) + 1 + len(set(ctx.spec['bid']))); st['handles'] = set(st['names'].values())
    BASE = dict(fin=2, bar=46, bar_att=8, bar_det=8, bar_reg=14, lend_cpu=3, borrow=3, borrow_cpu=3, reclaim=2, acquire_cpu=2, disable=0.6, enable=1, **{'return': 2})
    def op(self, rng, ctx, st):
        c = ctx.c; n = c['ncpus']; procs = list(range(1, c['nproc'] + 1)); st.pop('obs', None)
        alive = [p for p in procs if ctx.masks[p]]
        down = [p for p in alive if p not in st['up']]
        if down and (st['n'] < c['nproc'] or rng.random() < 0.2): p = rng.choice(down); return '%d init 0 %d %s' % (p, mint(ctx.masks[p]), ctx.args[p])
        w = dict(self.BASE); w.update(self.weights)
        if not c['lewi']:
            for k in ('lend_cpu', 'borrow', 'borrow_cpu', 'reclaim', 'acquire_cpu', 'disable', 'enable', 'return'): w[k] = 0.05
        p = rng.choice(sorted(st['up'])) if st['up'] else rng.choice(alive)
        k = rng.choices(list(w), list(w.values()))[0]
        if k in ('fin', 'borrow', 'reclaim', 'disable', 'enable', 'return'): return '%d %s' % (p, k)
        if k.endswith('_cpu'): return '%d %s %d' % (p, k, rng.randrange(n))
        if k == 'bar_reg': return '%d bar_reg %s %d' % (p, rng.choice(ctx.names[:rng.randint(1, len(ctx.names))]), rng.randrange(3))
        hs = sorted(st['handles']) or [1]
        h = 0 if rng.random() < 0.5 else min(n, rng.choice(hs)) if rng.random() < 0.9 else rng.randint(1, n)
        if k == 'bar':
            if rng.random() < 0.75 and 'last' in st: h = int(st['last'])
            own = ctx.masks[p]
            m = mint(own) if rng.random() < 0.4 else 1 << rng.choice(own) if rng.random() < 0.8 else 1 << rng.randrange(n)
            return '%d bar %d %d' % (p, h, m)
        return '%d %s %d' % (p, k, h)
    def step(self, ctx, o, l):
        t = o.split(); op = t[1]
        e = {'p': int(t[0]), 'op': op, 'a': 0, 'm': [], 'n': '', 'v': 0, 'r': 0, 'cb': [], 'ok': False, 'blk': False, 'fin': [], 'bar': [], 'barup': False, 'st': {'full': False, 'up': False}}
        if op == 'init': e['m'] = bits(int(t[3]))
        elif op == 'bar_reg': e['n'] = t[2]; e['a'] = int(t[3])
        elif op == 'bar': e['a'] = int(t[2]); e['m'] = bits(int(t[3]))
        elif len(t) > 2: e['a'] = int(t[2])
        if 'r' not in l: return e
        e['ok'] = True; e['r'] = l['r']; e['cb'] = l['cb']; e['blk'] = bool(l.get('blk')); e['fin'] = [[q, r] for q, r, v in l['done']]
        e['v'] = l.get('n', 0)
        if l['st']['bar'] is not None: e['bar'] = l['st']['bar']; e['barup'] = True
        s = l['st']['cpu']
        if 'free' in s:
            e['st'] = dict(s); e['st']['up'] = True; e['st']['full'] = 'own' in s
            if 'grq' in s: e['st']['grq'] = [[a, b, bits(m)] for a, b, m in s['grq']]
        return e
    def key(self, ctx, l): return repr((l['st'], l.get('blk')))
