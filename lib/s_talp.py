from s_cpuinfo import Ctx, mint
NAMES = ['a', 'foo', 'b,c', 'Global', 'global', 'GLOBAL', '-', '%e', 'all', 'All', 'ALL', 'long:126:a', 'long:127:a', 'long:127:b', 'long:128:a', 'long:128:b', 'long:300:a']
P0 = lambda: {'up': False, 'omp': False, 'obs': False, 'refs': 0, 'names': [], 'anon': 0, 'sync': set(), 'coll': None, 'thr': set(), 'dead': set(), 'stk': {}, 'par': {}, 'wait': set(), 'att': 0, 'minit': False}
def canon(n):
    if n in NAMES[3:6]: return 'Global'
    if n.startswith('long:'): k, c = int(n.split(':')[1]), n.split(':')[2]; return n if k <= 127 else 'long>127'
    return n
class Talp:
    """processes whose performance is measured"""
    name = 'talp'
    def __init__(self, confs, weights=None): self.confs = confs; self.weights = weights or {}; self.shapes = {}
    def setup(self, rng, ci):
        # o: one letter per process: T talp, E external profiler, M talp with the summary of the node, O OpenMP, X never initialized, N no talp ; lower case: without barriers
        c = dict(ncpus=4, o='TE', unit=1, lb=False, mult=0, sel=None, cp=None); c.update(self.confs[ci])
        x = Ctx(); x.c = c; np = len(c['o']); n = c['ncpus']
        cp = c['cp'] or [max(1, n // np)] * np
        x.masks = {}; k = 0
        for p in range(1, np + 1): x.masks[p] = list(range(k, k + cp[p - 1])); k += cp[p - 1]
        sel = c['sel']; sl = {'all': True, 'inc': True, 'names': []}
        if sel: b = sel.split(':'); sl = {'all': b[-1] == 'all', 'inc': b[0] == 'include', 'names': [] if b[-1] == 'all' else b[-1].split(',')}
        def opt(ch): U = ch.upper(); return {'talp': U in 'TEMO', 'ext': U == 'E', 'node': U == 'M', 'bar': ch == U and U != 'X', 'sel': sl}
        x.kind = {p: c['o'][p - 1] for p in range(1, np + 1)}
        x.drv = dict(ncpus=n, ncores=n, nnodes=1, nproc=np, dumps='rt', step=0, unit=c['unit'])
        x.spec = {'ncpus': n, 'nproc': np, 'mult': c['mult'] or 1, 'lb': c['lb'], 'cp': cp, 'o': [opt(ch) for ch in c['o']]}
        def args(p):
            o = x.spec['o'][p - 1]; a = ['--barrier=' + ('yes' if o['bar'] else 'no')]
            if c['lb']: a += ['--lewi', '--lewi-barrier=yes', '--lewi-mpi=no']
            else: a.append('--lewi-barrier=no')
            a.append('--talp' if o['talp'] else '--talp=no')
            if o['ext']: a.append('--talp-external-profiler')
            if o['node']: a.append('--talp-summary=node')
            if x.kind[p].upper() == 'O': a.append('--talp-openmp')
            if sel: a.append('--talp-region-select=' + sel)
            if c['mult']: a.append('--shm-size-multiplier=%d' % c['mult'])
            return ' '.join(a)
        x.args = {p: args(p) for p in x.masks}
        x.shape = self.shapes.setdefault(ci, object())
        return x
    def replay(self, ctx, ops):
        st = {p: P0() for p in ctx.masks}; st['n'] = 0
        for o in ops: self.note(ctx, st, o)
        return st
    def note(self, ctx, st, o):
        f, op, *a = o.split(); p = int(f.split(':')[0]); t = int(f.split(':')[1]) if ':' in f else 0; st['n'] += 1; s = st[p]
        if op in ('init', 'omp_start'):
            if not s['up']:
                r = P0(); r.update(obs=s['obs'], refs=s['refs'], att=s['att']); st[p] = s = r
                s['up'] = True; s['omp'] = op == 'omp_start'; s['names'] = ['Global'] if ctx.spec['o'][p - 1]['talp'] else []; s['stk'] = {0: []}
                if s['omp']: s['thr'] = {0}
        elif op in ('fin', 'omp_stop'): s['up'] = False; s['omp'] = s['omp'] and op == 'fin'
        elif op == 'observer': s['obs'] = a[0] != '0'
        elif op == 'reg':
            if s['up'] and ctx.spec['o'][p - 1]['talp'] and a[0] not in ('all', 'All', 'ALL'):
                if a[0] in ('-', '%e'): s['names'].append(None)
                elif canon(a[0]) not in s['names']: s['names'].append(canon(a[0]))
        elif op == 'sin': s['sync'].add(t)
        elif op == 'sout': s['sync'].discard(t)
        elif op == 'tatt': s['att'] += 1; s['obs'] = s['obs'] or not s['up']
        elif op == 'tdet': s['att'] = max(0, s['att'] - 1)
        elif op == 'mpi_init': s['minit'] = True
        elif op == 'collect':
            if ctx.spec['o'][p - 1]['talp'] and ctx.spec['o'][p - 1]['bar'] and int(a[0]) <= len(s['names']):
                s['coll'] = int(a[0])
                part = [q for q in ctx.masks if st[q]['up'] and ctx.spec['o'][q - 1]['bar']]
                if all(st[q]['coll'] is not None for q in part):
                    for q in part: st[q]['coll'] = None
        elif op == 'tb': s['thr'].add(t); s['stk'][t] = []
        elif op == 'te': s['thr'].discard(t); s['dead'].add(t)
        elif op == 'pb': s['par'][int(a[0])] = {'n': int(a[1]), 'own': t, 'team': {}, 'bar': set(), 'left': set(), 'done': False}; s['stk'][t] = s['stk'][t] + [('?', int(a[0]))]
        elif op == 'imp':
            k, i = int(a[0]), int(a[1]); s['par'][k]['team'][i] = t
            if i == 0: s['stk'][t] = s['stk'][t][:-1]
            s['stk'][t] = s['stk'][t] + [('r', k)]
        elif op == 'ibar': k = int(a[0]); s['par'][k]['bar'].add(t); s['stk'][t] = s['stk'][t][:-1] + [('b', k)]
        elif op == 'iend':
            k = int(a[0]); s['par'][k]['left'].add(t); s['stk'][t] = s['stk'][t][:-1]
            if t == s['par'][k]['own'] and not s['par'][k]['done']: s['stk'][t] = s['stk'][t] + [('e', k)]
        elif op == 'pe':
            k = int(a[0]); s['par'][k]['done'] = True; q = s['stk'][t]; s['stk'][t] = q[:-1] if q and q[-1] == ('e', k) else q
        elif op == 'tdone' or op == 'si' and s['stk'][t]: s['wait'].add(t)
        elif op in ('so', 'tsw'): s['wait'].discard(t)
        if op in ('iend', 'pe'):
            for k, P in list(s['par'].items()):
                if P['done'] and len(P['left']) == P['n']: del s['par'][k]
    BASE = dict(fin=1.2, reg=6, glob=0.6, rstart=14, rstop=13, rreset=2.5, rrep=0.4, rupd=3, mpi_init=0.8, mpi_fin=0.8, sync=9, tick=18, times=3, ntimes=3, query=3, collect=7, observer=0.7, tatt=1.5, tdet=1.5, omp=60, tsin=3, init=1)
    def op(self, rng, ctx, st):
        c = ctx.c; st.pop('obs', None)
        procs = sorted(ctx.masks)
        blocked = [p for p in procs if st[p]['coll'] is not None]
        ext = [p for p in procs if ctx.kind[p].upper() == 'X']
        norm = [p for p in procs if p not in ext]
        down = [p for p in norm if not st[p]['up']]
        def init(p): return ('%d omp_start %d %s' % (p, mint(ctx.masks[p]), ctx.args[p])) if ctx.kind[p].upper() == 'O' else '%d init 0 %d %s' % (p, mint(ctx.masks[p]), ctx.args[p])
        if down and not blocked and (st['n'] < len(procs) or rng.random() < 0.15): return init(rng.choice(down))
        w = dict(self.BASE); w.update(self.weights)
        tick = lambda: '%d tick %d' % (procs[0], rng.choice([1, 1, 2, 3, 5, 7, 10]))
        for _ in range(40):
            if rng.random() < w['tick'] / 2000: return tick()
            p = rng.choice(procs); s = st[p]
            if p in blocked or p in ext and rng.random() < 0.5: continue
            if p in ext:
                k = rng.choice(['tatt', 'tdet', 'times', 'ntimes', 'query', 'reg', 'rstart', 'observer'])
                if k in ('reg', 'rstart', 'observer') and rng.random() < 0.9: continue
                if k == 'observer': continue
                if k == 'rstart': return '%d rstart 0' % p
                return self.look(rng, ctx, st, p, k)
            if not s['up']: continue
            if s['omp'] and rng.random() < w['omp'] / 100:
                o = self.omp(rng, ctx, s, p)
                if o: return o
                continue
            k = rng.choices(list(w), list(w.values()))[0]
            if k == 'omp': continue
            if k == 'tick': return tick()
            inpar = bool(s['par'])
            if inpar and k not in ('reg', 'glob', 'times', 'ntimes', 'query', 'sync', 'init'): continue
            if s['wait'] and k != 'times': continue
            t = 0
            if k == 'sync':
                ts = sorted(s['thr'] | {0}) if s['omp'] and inpar else [0]
                t = rng.choice(ts)
                if not s['stk'].get(t, []) and t: continue
                if s['stk'].get(t) and s['stk'][t][-1][0] != 'r': continue
                return '%s sout %d' % (self.pt(p, t), s.get('c%d' % t, 0)) if t in s['sync'] else '%s sin %d' % (self.pt(p, t), rng.randrange(2))
            if 0 in s['sync'] and k not in ('times', 'ntimes', 'query', 'rupd', 'reg'): continue
            if s['sync']: continue
            if k == 'init':
                if rng.random() < 0.3: return init(p) if not s['omp'] else tick()
                continue
            if k == 'fin':
                if blocked or s['obs'] or s['thr'] - {0} and not inpar:
                    if blocked or s['obs']: continue
                    live = sorted(s['thr'] - {0})
                    if not live or any(s['stk'][q] for q in live): continue
                    if rng.random() < 0.3: return '%d:%d te' % (p, rng.choice(live))
                if s['omp'] and rng.random() < 0.7: return '%d omp_stop' % p
                return '%d fin' % p
            if k == 'reg': return '%d reg %s' % (p, rng.choice(NAMES[:rng.randint(1, len(NAMES))]))
            if k in ('glob', 'rupd'): return '%d %s' % (p, k)
            nr = len(s['names'])
            h = 0 if rng.random() < 0.35 else rng.randint(1, max(1, nr)) if rng.random() < 0.98 else nr + 1
            if k == 'rstop' and rng.random() < 0.3: h = -1
            if k in ('rstart', 'rstop') and rng.random() < 0.06 and not s['omp']: t = rng.randint(1, 3)
            if k in ('rstart', 'rstop', 'rreset', 'rrep'): return '%s %s %d' % (self.pt(p, t), k, h)
            if k in ('mpi_init', 'mpi_fin') and s['obs'] or k == 'mpi_init' and s['minit'] and rng.random() < 0.7: continue
            if k in ('mpi_init', 'mpi_fin'): return '%d %s' % (p, k)
            if k == 'collect':
                if any(st[q]['sync'] or st[q]['par'] or st[q]['obs'] or st[q]['wait'] for q in norm): continue
                if blocked and rng.random() < 0.7: h = st[blocked[0]]['coll']
                return '%d collect %d' % (p, h)
            if k == 'observer':
                if s['omp'] or blocked: continue
                return '%d observer %d' % (p, 0 if s['obs'] or rng.random() < 0.4 else 1)
            if k == 'tsin':
                if s['omp']: continue
                t = rng.randint(1, 3); return '%d:%d sin %d' % (p, t, rng.randrange(2)) if t not in s['sync'] else None or tick()
            if k in ('times', 'ntimes', 'query', 'tatt', 'tdet'): return self.look(rng, ctx, st, p, k)
        return tick()
    def pt(self, p, t): return '%d:%d' % (p, t) if t else str(p)
    def look(self, rng, ctx, st, p, k):
        s = st[p]
        if k == 'times': return '%d times %d' % (p, 0 if rng.random() < 0.2 and s['up'] else rng.choice(sorted(ctx.masks) + [77]))
        names = ['-', 'Global', 'a', 'long:300:a', 'none'] + 2 * [n for q in ctx.masks for n in st[q]['names'] if n and n != 'long>127']
        if not s['att'] and k in ('ntimes', 'query') and ctx.kind[p].upper() not in 'EM' and rng.random() < 0.6: k = 'tatt'
        if k == 'ntimes': return '%d ntimes %s %d' % (p, rng.choice(names), rng.choice([1, 2, 8]))
        if k == 'query': return '%d query %s' % (p, rng.choice(names))
        if k == 'reg': return '%d reg %s' % (p, rng.choice(NAMES[:4]))
        if k == 'tdet' and not s['att']: return '%d tdet' % p if not s['up'] else '%d tatt' % p
        return '%d %s' % (p, k)
    def omp(self, rng, ctx, s, p):
        L = []
        for t in range(0, 7):
            if t not in s['thr']:
                if t not in s['dead'] and t: L.append((0.5 if len(s['thr']) < 4 else 0.05, '%d:%d tb' % (p, t)))
                continue
            if t in s['sync']:
                L.append((0.6, '%s sout 0' % self.pt(p, t))); continue
            q = s['stk'][t]; top = q[-1] if q else None
            if t in s['wait']: L.append((1, '%s so %d %d' % (self.pt(p, t), q[-1][1], rng.randrange(4)) if q and rng.random() < 0.6 else '%s tsw' % self.pt(p, t))); continue
            if top is None or top[0] == 'r':
                run = top is not None or t == 0
                if run:
                    ks = [k for k in range(6) if k not in s['par']]
                    if ks and len(q) < 3: L.append((0.9 if not q else 0.25, '%s pb %d %d' % (self.pt(p, t), rng.choice(ks), rng.choice([1, 2, 2, 3, 3, 4]))))
                    L.append((0.1, '%s si %d %d' % (self.pt(p, t), q[-1][1] if q else 63, rng.randrange(4))))
                    L.append((0.12, '%s tc' % self.pt(p, t)))
                    if q: L += [(0.1, '%s tdone' % self.pt(p, t)), (0.06, '%s tsw' % self.pt(p, t))]
                    if q: L.append((0.1, '%s sin %d' % (self.pt(p, t), rng.randrange(2))))
                elif not q:
                    for k, P in s['par'].items():
                        for i in range(1, P['n']):
                            if i not in P['team'] and not P['done']: L.append((1.5, '%d:%d imp %d %d %d' % (p, t, k, i, P['n']))); break
            if top and top[0] == '?': L.append((3, '%s imp %d 0 %d' % (self.pt(p, t), top[1], s['par'][top[1]]['n'])))
            if top and top[0] == 'r': L.append((1, '%s ibar %d %d' % (self.pt(p, t), top[1], rng.randint(1, 2))))
            if top and top[0] in 'be':
                k = top[1]; P = s['par'][k]
                if len(P['bar']) == P['n']:
                    if top[0] == 'b': L.append((1.5, '%s iend %d' % (self.pt(p, t), k)))
                    if P['own'] == t and not P['done'] and top[0] == 'e': L.append((2, '%s pe %d' % (self.pt(p, t), k)))
        # a team that cannot be completed with the threads there are: more threads
        if not L: return None
        return rng.choices([o for w, o in L], [w for w, o in L])[0]
    def step(self, ctx, o, l):
        f, op, *a = o.split(); p = int(f.split(':')[0]); t = int(f.split(':')[1]) if ':' in f else 0
        if op in ('init', 'omp_start', 'fin', 'omp_stop'): A = [0]
        elif op in ('reg', 'query'): A = [a[0]]
        elif op == 'ntimes': A = [a[0], int(a[1])]
        else: A = [int(x) for x in a] or [0]
        e = {'p': p, 't': t, 'op': op, 'a': A, 'ok': False, 'r': 0, 'v': 0, 'x': [], 'pm': [], 'nm': '', 'blk': False, 'fin': [], 'reg': [], 'tal': []}
        if 'r' not in l: return e
        e['ok'] = True; e['r'] = l['r']; e['v'] = l.get('n', 0); e['blk'] = bool(l.get('blk')); e['nm'] = l.get('name', '')
        def xs(d):
            x = d.get('x', [])
            return (x[0], x[1]) if op in ('query', 'collect') and x else (x, [])
        e['x'], e['pm'] = xs(l)
        dx = {d['p']: d for d in l.get('dx', [])}
        for q, r, v in l['done']:
            d = dx.get(q, {}); x, pm = xs(d); e['fin'].append({'p': q, 'r': r, 'x': x, 'pm': pm, 'nm': d.get('name', '')})
        e['reg'] = l['st']['reg']; e['tal'] = l['st']['tal']
        return e
    def key(self, ctx, l):
        return repr(([[(r[0], r[9] >= 0, r[8] >= 0, r[1], min(r[3], 2), r[11] > 0, r[12] > 0, r[13] > 0, r[14] > 0, r[15] > 0) for r in q] for q in l['st']['reg']], [(a, b, c > 0, d > 0) for a, b, c, d in l['st']['tal']], l.get('blk')))
