from s_cpuinfo import CpuInfo, Ctx, mint, bits
PRE = {'preinit', 'drom_preinit'}
class Drom:
    """processes that change each other's masks; on top of the sharing of CPUs"""
    name = 'drom'
    BASE = dict(fin=2, drom_set=16, drom_get=4, poll=12, poll_upd=5, drom_preinit=5, drom_post=3, drom_recover=4, drom_pids=2, drom_ncpus=0.3, die=0, acquire_cpus=0.7, drom_attach=1.5, drom_detach=1.5, preinit=0.7, tick=2,
                lend_cpu=4, borrow=2, borrow_cpu=3, reclaim=2, reclaim_cpu=2, acquire_cpu=3, lend=1, disable=0.3, enable=0.5, **{'return': 2})
    def __init__(self, confs, weights=None):
        self.confs = confs; self.weights = weights or {}; self.shapes = {}
    def setup(self, rng, ci):
        c = dict(ncpus=4, nproc=3, mode='polling', lewi=True, drom=True, retst=False, par=[[8, 7], [9, 1]], cbmode=0, admin=False)
        c.update(self.confs[ci])
        x = Ctx(); x.c = c; n = c['ncpus']
        cpus = list(range(n)); rng.shuffle(cpus)
        masks = {p: [] for p in range(1, c['nproc'] + 1)}
        for p in masks:
            if cpus: masks[p].append(cpus.pop())
        for k in cpus:
            q = rng.randint(0, c['nproc'])
            if q: masks[q].append(k)
        x.masks = {p: sorted(m) for p, m in masks.items()}
        x.drv = dict(ncpus=n, ncores=n, nnodes=1, nproc=c['nproc'], cbmode=c['cbmode'], dumps='cp', sleepclk=0)
        x.spec = {'ncpus': n, 'nproc': c['nproc'], 'async': c['mode'] == 'async', 'lewi': c['lewi'], 'drom': c['drom'], 'retst': c['retst'], 'par': c['par'] or [[0, 0]]}
        a = ['--mode=' + c['mode'], '--lewi=' + ('yes' if c['lewi'] else 'no')]
        if c['drom']: a.append('--drom')
        if c['retst']: a.append('--debug-opts=return-stolen')
        x.args = ' '.join(a); x.ext = [7, 6]
        x.shape = self.shapes.setdefault((ci, repr(x.masks)), object())
        return x
    def replay(self, ctx, ops):
        st = {'up': set(), 'ever': set(), 'att': {}, 'pre': set(), 'res': {}, 'n': 0, 'inflight': set(), 'dead': set()}
        for o in ops: self.note(ctx, st, o)
        return st
    def note(self, ctx, st, o):
        if o.startswith('#'): return
        t = o.split(); p = int(t[0]); st['n'] += 1; op = t[1]
        if op == 'init':
            st['up'].add(p); st['ever'].add(p)
            for a in t[4:]:
                if a.startswith('--preinit-pid='): st['res'].pop(int(a[14:]), None)
        elif op == 'die': st['dead'].add(p); st['up'].discard(p); st['att'].pop(p, None)
        elif op == 'fin':
            if p not in st['up']: st['pre'].discard(p)        # the first one only finalizes what was initialized
            st['up'].discard(p)
        elif op == 'drom_attach': st['att'][p] = st['att'].get(p, 0) + 1
        elif op == 'drom_detach': st['att'][p] = max(0, st['att'].get(p, 0) - 1)
        elif op == 'preinit': st['pre'].add(p); st['res'][p] = int(t[2]) | st['res'].get(p, 0)
        elif op == 'drom_preinit': st['res'][int(t[2])] = int(t[3]) | st['res'].get(int(t[2]), 0); 
        elif op == 'drom_post': st['res'].pop(int(t[2]), None)
        if op == 'drom_preinit' and int(t[4]) & 4: st['inflight'].add((p, int(t[2])))
        if op == 'tick': st['inflight'].clear()
    def op(self, rng, ctx, st):
        if not st['n'] and ctx.c['par'] and not st.get('par'):
            st['par'] = 1
            st['todo'] = ['#parent %d %d' % tuple(x) for x in ctx.c['par']]
        if st.get('todo'): return st['todo'].pop()
        c = ctx.c; n = c['ncpus']; full = (1 << n) - 1
        obs = st.pop('obs', None)
        every = list(range(1, c['nproc'] + 1)); dead = st['dead']; procs = [p for p in every if p not in dead]
        up = st['up']; down = [p for p in procs if p not in up and not (c['admin'] and p == c['nproc'])]
        flying = {x for _, x in st['inflight']}
        def rmask(p=0):
            r = rng.random()
            if r < 0.25 and p in ctx.masks: return mint(ctx.masks[p]) or 1
            if r < 0.5: return 1 << rng.randrange(n)
            if r < 0.55: return full
            if r < 0.57: return rng.randrange(1, 1 << n) | 1 << (n + rng.randrange(8))
            return rng.randrange(1, 1 << n)
        def init(p):
            pres = [x for x in st['res'] if x not in flying]
            if p in flying: return None
            if pres and rng.random() < 0.7:
                q = p if p in pres else rng.choice(pres)
                if q in procs and q != p: q = 0
                if q:
                    r = rng.random(); m = st['res'][q]
                    if r < 0.6: mm = m & full
                    elif r < 0.8: mm = (m | rmask()) & full
                    elif q == p: mm = full
                    else: mm = rmask() & full
                    return '%d init 0 %d %s --preinit-pid=%d' % (p, mm or full, ctx.args, q)
            if p in st['res']: return None
            m = mint(ctx.masks[p]) if rng.random() < 0.8 else rmask() & full
            return '%d init 0 %d %s' % (p, m or 0, ctx.args)
        if down and (st['n'] < c['nproc'] or rng.random() < 0.15):
            o = init(rng.choice(down))
            if o: return o
        w = dict(self.BASE); w.update(self.weights)
        if not c['lewi']:
            for k in ('lend_cpu', 'borrow', 'borrow_cpu', 'reclaim', 'reclaim_cpu', 'acquire_cpu', 'acquire_cpus', 'lend', 'disable', 'enable', 'return'): w[k] = 0.02
        for _ in range(20):
            k = rng.choices(list(w), list(w.values()))[0]
            p = rng.choice(sorted(up)) if up and rng.random() < 0.9 else rng.choice(procs)
            if k == 'die':
                if len(procs) < 2 or not (p in up or st['att'].get(p)) or (p in st['pre'] and p not in up): continue
                return '%d die' % p
            if k == 'tick':
                return '%d tick 2000000000' % p
            if k in ('fin', 'lend', 'borrow', 'reclaim', 'return', 'poll', 'poll_upd', 'disable', 'enable', 'drom_pids', 'drom_ncpus'):
                if k == 'fin' and p in st['pre'] and p not in up and st['att'].get(p): continue
                if p not in up and k in ('lend', 'borrow', 'reclaim', 'return', 'disable', 'enable'): continue
                return '%d %s' % (p, k)
            if k in ('lend_cpu', 'borrow_cpu', 'reclaim_cpu', 'acquire_cpu'):
                if p not in up: continue
                return '%d %s %d' % (p, k, rng.randrange(n))
            if k == 'acquire_cpus':
                if p not in up: continue
                return '%d acquire_cpus %d' % (p, rng.randint(1, n))
            if k == 'drom_attach':
                if st['att'].get(p, 0) >= 2 or (p in st['pre'] and p not in up): continue
                return '%d drom_attach' % p
            if k == 'drom_detach':
                if st['att'].get(p, 0) == 0 and (p in up or p in st['pre']): continue
                return '%d drom_detach' % p
            maysync = p in up or (c['admin'] and p == c['nproc'])     # a process that starts meanwhile would have to wait
            if k == 'preinit':
                if c['admin'] and p == c['nproc']: continue
                if p in up or st['att'].get(p) or p in flying: continue
                return '%d preinit %d' % (p, rmask() & full)
            if k == 'drom_preinit':
                t = rng.choice(ctx.ext + [x for x in procs if x not in up] + ([rng.choice(procs)] if rng.random() < 0.1 else []))
                if t in flying: continue
                f = rng.choice([0, 0, 1, 1, 1 | 4, 1 | 2, 1 | 2 | 4]) & (7 if maysync else 3)
                return '%d drom_preinit %d %d %d' % (p, t, rmask() & full or 1, f)
            if k == 'drom_post':
                t = rng.choice(ctx.ext + [x for x in procs if x not in st['ever']] + [8] + sorted(dead) * 2)
                return '%d drom_post %d %d' % (p, t, rng.choice([0, 2]))
            if k == 'drom_recover': return '%d drom_recover %d' % (p, rng.choice(every + ctx.ext + [9, 8, 30]))
            if k == 'drom_get': return '%d drom_get %d %d' % (p, rng.choice(every + [0, 0] + ctx.ext[:1] + [9, 30]), rng.choice([0, 0, 4]) if maysync else 0)
            if k == 'drom_set':
                t = rng.choice(sorted(up) + [0] * (p in up) + [p] * (p in up) + ([9, 30] if rng.random() < 0.1 else []) + sorted(dead)) if up else 30
                if t == 9 and 1 not in up and 1 not in dead: continue
                if t in every and t not in up and t not in dead: continue
                f = rng.choice([0, 0, 0, 4, 4, 2, 2 | 4] if t not in (0, p) else [0, 0, 2, 16, 16]) & (31 if maysync else 27)
                return '%d drom_set %d %d %d' % (p, t, rmask(t) & full or 1, f)
        return '%d drom_pids' % procs[0]
    def step(self, ctx, o, l):
        t = o.split(); op = t[1]
        e = {'p': int(t[0]), 'op': op, 'a': 0, 'm': [], 'f': [], 'r': 0, 'cb': [], 'ok': False, 'st': {'full': False, 'up': False}, 'blk': False, 'fin': [], 'v': 0, 'vm': [], 'l': [], 'prc': [], 'prcup': False}
        FL = {1: 'steal', 2: 'ret', 4: 'sync', 16: 'nosync'}
        fl = lambda x: [v for k, v in FL.items() if int(x) & k]
        if op == 'init':
            m = int(t[3]); e['m'] = bits(m) if m else list(range(ctx.c['ncpus']))
            for a in t[4:]:
                if a.startswith('--preinit-pid='): e['a'] = int(a[14:])
        elif op in ('drom_preinit', 'drom_set'): e['a'] = int(t[2]); e['m'] = bits(int(t[3])); e['f'] = fl(t[4])
        elif op in ('drom_post', 'drom_get'): e['a'] = int(t[2]); e['f'] = fl(t[3])
        elif op == 'preinit' or op.endswith('_mask'): e['m'] = bits(int(t[2]))
        elif op == 'tick': pass
        elif len(t) > 2: e['a'] = int(t[2])
        if 'r' not in l: return e
        e['ok'] = True; e['r'] = l['r']; e['blk'] = bool(l.get('blk'))
        e['cb'] = [dict(p=p, k=k, c=0 if k == 'P' else v, m=bits(v) if k == 'P' else []) for p, k, v in l['cb']]
        e['fin'] = [dict(p=p, r=r, m=bits(v)) for p, r, v in l['done']]
        if 'm' in l: e['vm'] = bits(l['m'])
        if op in ('drom_ncpus', 'drom_preinit'): e['v'] = l.get('n', 0)
        if 'l' in l: e['l'] = l['l']
        s = l['st'].get('cpu') or {}
        if 'free' in s:
            e['st'] = dict(s); e['st']['up'] = True; e['st']['full'] = 'own' in s
            if 'grq' in s: e['st']['grq'] = [[a, b, bits(m)] for a, b, m in s['grq']]
        q = l['st'].get('prc')
        if q is not None:
            e['prcup'] = True
            e['prc'] = [dict(pid=a, cur=bits(b), fut=bits(c), stl=bits(d), dirty=z) for a, b, c, d, z in q]
        return e
    def key(self, ctx, l): return repr((l['st'].get('cpu'), l['st'].get('prc')))
