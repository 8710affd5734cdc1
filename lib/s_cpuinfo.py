import random
class Ctx: pass
def mint(l):
    m = 0
    for c in l: m |= 1 << c
    return m
def bits(m): return [c for c in range(64) if m >> c & 1]
def par_op(rng, a, b):
    """two calls at the same time; where the processes are switched"""
    k = [rng.choice([rng.randint(0, 12), rng.randint(0, 60), rng.randint(0, 250), 1000]) for _ in range(3)]
    if rng.random() < 0.5: k[1] = 10000
    return '%s par %d %d %d ; %s ; %s' % (a.split()[0], *k, a, b)
class CpuInfo:
    name = 'cpuinfo'
    def __init__(self, confs, weights=None, par=0):
        self.confs = confs; self.weights = weights or {}; self.par = par     # par: how often two processes call at the same time
        self.shapes = {}
    # conf: dict(ncpus,ncores,nnodes,nproc,async,pub,resp,aff,keep,maxp,lewi,cbmode,masks)
    def setup(self, rng, ci):
        c = dict(ncpus=4, ncores=4, nnodes=1, nproc=3, mode='polling', pub=False, resp=True, aff='mask', keep=False, maxp=0, lewi=True, cbmode=0, masks=None)
        c.update(self.confs[ci])
        x = Ctx(); x.c = c
        per = c['ncpus'] // c['ncores']
        masks = c['masks']
        if masks is None:
            cores = list(range(c['ncores'])); assign = {p: [] for p in range(1, c['nproc'] + 1)}
            order = cores[:]
            if rng.random() < 0.5: rng.shuffle(order)
            left = order[:]
            for p in assign:
                if left: assign[p].append(left.pop(0))
            for k in left:
                q = rng.randint(0, c['nproc'])      # 0: nobody's
                if q: assign[q].append(k)
            masks = {p: sorted(cpu for k in v for cpu in range(k * per, k * per + per)) for p, v in assign.items()}
        x.masks = masks
        x.drv = dict(ncpus=c['ncpus'], ncores=c['ncores'], nnodes=c['nnodes'], nproc=c['nproc'], cbmode=c['cbmode'], dumps='c')
        x.spec = {'ncpus': c['ncpus'], 'ncores': c['ncores'], 'nnodes': c['nnodes'], 'nproc': c['nproc'], 'async': c['mode'] == 'async',
                  'pub': c['pub'], 'resp': c['resp'], 'aff': c['aff'], 'keep': c['keep'], 'maxp': c['maxp'], 'lewi': c['lewi']}
        a = ['--mode=' + c['mode'], '--lewi=' + ('yes' if c['lewi'] else 'no')]
        if c['lewi']: a += ['--lewi-affinity=' + c['aff']]
        else: a += ['--drom']
        if c['keep']: a.append('--lewi-keep-one-cpu')
        if not c['resp']: a.append('--lewi-respect-cpuset=no')
        if c['pub']: a.append('--debug-opts=lend-post-mortem')
        if c['maxp']: a.append('--lewi-max-parallelism=%d' % c['maxp'])
        x.args = ' '.join(a)
        x.shape = self.shapes.setdefault((ci, tuple(sorted((p, tuple(m)) for p, m in masks.items()))), object())
        return x
    BASE = dict(init=3, fin=2, enable=2, disable=2, maxpar=2, unsetmax=1, lend=4, lend_cpu=10, lend_cpus=0.2, lend_mask=3,
                reclaim=5, reclaim_cpu=6, reclaim_cpus=3, reclaim_mask=3, acquire_cpu=6, acquire_cpus=5, acquire_mask=3, acquire_in=2,
                borrow=5, borrow_cpu=4, borrow_cpus=4, borrow_mask=2, borrow_in=2, **{'return': 4}, return_cpu=4, return_mask=3, check=3, into=3, outof=4)
    def replay(self, ctx, ops):
        st = {'up': set(), 'in': {}, 'n': 0}
        for o in ops: self.note(ctx, st, o)
        return st
    def note(self, ctx, st, o):
        if o.startswith('#'): return
        if ';' in o:
            for x in o.split(';')[1:]: self.note(ctx, st, x.strip())
            return
        t = o.split(); p = int(t[0]); st['n'] += 1
        if t[1] == 'init': st['up'].add(p)
        elif t[1] == 'fin': st['up'].discard(p); st['in'].pop(p, None)
        elif t[1] == 'into': st['in'][p] = t[2]
        elif t[1] == 'outof': st['in'].pop(p, None)
    def op(self, rng, ctx, st):
        o = self.op1(rng, ctx, st)
        if rng.random() < self.par:
            for _ in range(8):
                b = self.op1(rng, ctx, st)
                if b.split()[0] != o.split()[0] and self.together(ctx, o.split(), b.split()): return par_op(rng, o, b)
        return o
    def together(self, ctx, a, b):
        # leaving a blocking call is several calls in one: with messages to other processes it is not one step
        return ctx.c['mode'] != 'async' or 'outof' not in (a[1], b[1])
    def op1(self, rng, ctx, st):
        c = ctx.c; n = c['ncpus']; up = st['up']
        obs = (st.pop('obs', None) or {}).get('cpu')
        alive = [p for p in range(1, c['nproc'] + 1) if ctx.masks[p]]
        down = [p for p in alive if p not in up]
        if down and (st['n'] < c['nproc'] or rng.random() < 0.08) and rng.random() < 0.93:
            p = rng.choice(down); return '%d init 0 %d %s' % (p, mint(ctx.masks[p]), ctx.args)
        w = dict(self.BASE); w.update(self.weights); w['init'] = 0.3
        if c['mode'] == 'async':
            for k in ('return', 'return_cpu', 'return_mask'): w[k] = min(w[k], 0.3)
        if not up: p = rng.choice(alive)
        else: p = rng.choice(sorted(up)) if rng.random() < 0.97 else rng.choice(alive)
        k = rng.choices(list(w), list(w.values()))[0]
        if p in st['in'] and rng.random() < 0.5: k = 'outof'
        if k == 'outof' and p not in st['in']: k = 'into'
        if k == 'into' and p in st['in']: k = 'lend_cpu'
        if k == 'init': return '%d init 0 %d %s' % (p, mint(ctx.masks[p]), ctx.args)
        if k in ('fin', 'enable', 'disable', 'unsetmax', 'lend', 'reclaim', 'borrow', 'return'): return '%d %s' % (p, k)
        if k.endswith('_cpu') or k == 'check':
            cpu = rng.randrange(n)
            if rng.random() < 0.5 and ctx.masks.get(p):
                own = ctx.masks[p]; oth = [x for x in range(n) if x not in own]
                pref = own if k in ('lend_cpu', 'reclaim_cpu') else oth
                if pref: cpu = rng.choice(pref)
            if obs and 'own' in obs:            # one of each kind of CPU, seen from p
                kinds = {}
                for x in range(n):
                    rel = lambda y: 0 if y == 0 else 1 if y == p else 2
                    kinds.setdefault((obs['st'][x], rel(obs['own'][x]), rel(obs['gst'][x]), bool(obs['rq'][x]), p in obs['rq'][x]), []).append(x)
                cpu = rng.choice(kinds[rng.choice(sorted(kinds))])
            elif rng.random() < 0.02: cpu = rng.choice([n, n + 1, 1000, -1, -2])
            return '%d %s %d' % (p, k, cpu)
        if k in ('maxpar', 'lend_cpus', 'reclaim_cpus', 'acquire_cpus', 'borrow_cpus'):
            v = rng.choice([1, 1, 1, 2, 2, 3, n, 0, -1] if k != 'maxpar' else [1, 1, 2, 2, 3, n, 0])
            return '%d %s %d' % (p, k, v)
        def rmask():
            r = rng.random()
            if r < 0.3: m = mint(ctx.masks[p])
            elif r < 0.4: m = (1 << n) - 1
            elif r < 0.45: m = rng.randrange(1, 1 << n) | 1 << (n + rng.randrange(20))     # CPUs that do not exist
            else: m = rng.randrange(1, 1 << n)
            return m
        if k in ('acquire_in', 'borrow_in'): return '%d %s %d %d' % (p, k, rng.choice([1, 1, 2, 3, 0]), rmask())
        if k in ('into', 'outof'):
            if k == 'outof': return '%d outof %s' % (p, st['in'][p])
            per = n // c['ncores']
            r = rng.random()
            if r < 0.6 and ctx.masks[p]: m = mint([x for x in [rng.choice(ctx.masks[p])]])
            elif r < 0.8 and ctx.masks[p]: m = mint(ctx.masks[p])
            else: m = 1 << rng.randrange(n)
            if per > 1: m = mint([y for x in bits(m) for y in range(x // per * per, x // per * per + per)])
            return '%d into %d' % (p, m)
        return '%d %s %d' % (p, k, rmask())
    def step(self, ctx, o, l):
        if ';' in o:
            _, a, b = o.split(';'); f = self.step(ctx, b, dict(l, r=l['r2']) if 'r2' in l else {}); e = self.step(ctx, a, l)
            e['q'] = {k: f[k] for k in ('p', 'op', 'a', 'm', 'r')}; e['ok'] = e['ok'] and not l['blk2']; return e
        t = o.split(); op = t[1]
        e = {'p': int(t[0]), 'op': op, 'a': 0, 'm': [], 'r': 0, 'cb': [], 'ok': False, 'q': {'p': 0, 'op': '', 'a': 0, 'm': [], 'r': 0}, 'st': {'full': False, 'up': False}}
        if op == 'init': e['m'] = bits(int(t[3]))
        elif op in ('acquire_in', 'borrow_in'): e['a'] = int(t[2]); e['m'] = bits(int(t[3]))
        elif op.endswith('_mask') or op in ('into', 'outof'): e['m'] = bits(int(t[2]))
        elif len(t) > 2: e['a'] = int(t[2])
        if 'r' not in l or l.get('blk'): return e
        e['ok'] = True; e['r'] = l['r']; e['cb'] = l['cb']
        s = l['st']['cpu']
        if 'free' in s:
            e['st'] = dict(s); e['st']['up'] = True; e['st']['full'] = 'own' in s
            if 'grq' in s: e['st']['grq'] = [[a, b, bits(m)] for a, b, m in s['grq']]
        return e
    def key(self, ctx, l): return repr(l['st']['cpu'])
