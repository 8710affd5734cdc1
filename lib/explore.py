"""Guided generation of walks over the real code.  A subsystem S provides
  S.setup(rng, ci)      -> ctx   (with ctx.drv: driver CFG, ctx.spec: trace cfg)
  S.op(rng, ctx, hist)  -> operation line
  S.step(ctx, line, out)-> recorded step (dict) for the trace
  S.key(ctx, out)       -> hashable abstraction of the observed state"""
import json, random
import vf

def explore(S, libdir, nwalks, length, seed, rounds=6, prefix_prob=0.6, conf=None, start=()):
    """returns list of traces [{id,cfg,steps}], stats"""
    rng = random.Random(seed)
    ncfg = len(S.confs) if conf is None else len(conf)
    arch = {}          # key -> [ctx, prefix ops, times used]
    keys = []
    traces, nops, seen = [], 0, set()
    per = max(1, nwalks // rounds)
    for rd in range(rounds):
        jobs, ctxs = [], []
        for k in range(per):
            if keys and rng.random() < prefix_prob:
                cand = [keys[rng.randrange(len(keys))] for _ in range(4)]
                kk = min(cand, key=lambda x: arch[x][2]); ctx, pre, n, obs = arch[kk]; arch[kk][2] += 1
                ops = list(pre); ext = rng.randint(2, max(4, length // 2))
            else:
                ci = (conf or range(len(S.confs)))[rng.randrange(ncfg)]
                ctx = S.setup(rng, ci); ops = []; ext = length; obs = None
            st = S.replay(ctx, ops)
            if obs is not None: st['obs'] = obs            # the state that was observed there, to choose the first operation
            for _ in range(ext):
                o = S.op(rng, ctx, st); ops.append(o); S.note(ctx, st, o)
            jobs.append((ctx.drv, ops)); ctxs.append((ctx, ops))
        res = vf.run_walks(libdir, jobs)
        for (ctx, ops), (lines, status) in zip(ctxs, res):
            tr = make_trace(S, ctx, ops, lines, status, 'w%d' % len(traces))
            traces.append(tr); nops += len(tr['steps'])
            real = [o for o in ops]
            j = 0
            for o, l in zip([x for x in real if not x.startswith('#')], lines):
                j += 1
                key = (id(ctx.shape), S.key(ctx, l)) if 'st' in l else None
                if key and key not in seen:
                    seen.add(key)
                    idx = nth_op_index(real, j)
                    arch[key] = [ctx, real[:idx], 0, l['st']]; keys.append(key)
    return traces, {'walks': len(traces), 'ops': nops, 'distinct_observed_states': len(seen)}

def nth_op_index(ops, j):
    n = 0
    for i, o in enumerate(ops):
        if not o.startswith('#'): n += 1
        if n == j: return i + 1
    return len(ops)

def make_trace(S, ctx, ops, lines, status, tid):
    steps, idx = [], []
    real = [o for o in ops if not o.startswith('#')]
    for k, o in enumerate(real):
        l = lines[k] if k < len(lines) else {'crash': status}
        if l.get('skip'): continue
        steps.append(S.step(ctx, o, l)); idx.append(k + 1)
        if not steps[-1]['ok']: break
    return {'id': tid, 'cfg': ctx.spec, 'steps': steps, '_ops': ops, '_drv': ctx.drv, '_idx': idx, '_ctx': ctx}

def public(tr): return {k: v for k, v in tr.items() if not k.startswith('_')}

def check_traces(S, module, traces, libdir, prop, res, cfg=None, timeout=800, variant='rel', relevant=None):
    """validate; on a mismatch re-run that walk and re-validate it alone before reporting"""
    r, n = vf.validate(module, [public(t) for t in traces], cfg, timeout)
    res.traces += len(traces); res.transitions += r['generated']; res.states += r['distinct']
    res.cov['implementation_steps_validated'] = res.cov.get('implementation_steps_validated', 0) + n
    byid = {t['id']: t for t in traces}
    done = 0; gone = []
    for m in sorted(r['mism'], key=lambda m: (m['step'] or 0)):
        if done >= 3: break
        t = byid.get(m['trace'])
        if t is not None and relevant and not relevant(m, t):
            res.cov['differences_of_other_properties'] = res.cov.get('differences_of_other_properties', 0) + 1; continue
        if t is None: res.violation('-', 'unparsed mismatch ' + m['text'][:300]); done += 1; continue
        j = nth_op_index(t['_ops'], t['_idx'][m['step'] - 1])
        ops = t['_ops'][:j]
        (lines, status), = vf.run_walks(libdir, [(t['_drv'], ops)])
        t2 = make_trace(S, t['_ctx'], ops, lines, status, t['id'])
        r2, _ = vf.validate(module, [public(t2)], cfg, timeout)
        ms = [x for x in r2['mism'] if x['step'] == m['step']]
        if not ms: gone.append('%s step %d %s %s' % (m['trace'], m['step'], m['op'], m['what'])); continue
        m2 = ms[0]
        f = vf.save_replay(prop, {'property': prop, 'kind': 'walk', 'module': module, 'variant': variant, 'subsystem': S.name, 'drv': t['_drv'], 'ops': ops,
                                  'trace': public(t2), 'mismatch': m2['text'][:3000]})
        res.violation(f, '%s trace %s step %d (%s): differs in %s' % (module, t['id'], m2['step'], ops[-1], m2['what']))
        done += 1
    if gone: print('  note: not reproduced, or not of this property: ' + '; '.join(gone)[:600])
    return r
