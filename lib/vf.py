"""Common machinery of the checks: running walks on the real code, running TLC,
evidence, violations and known findings."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, 'work')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPAR = int(os.environ.get('VERIF_PAR', '8'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

def workdir(tag):
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + '-', dir=WORK)

# ---------------------------------------------------------------- walks
def cfg_lines(cfg):
    return ''.join('CFG %s %s\n' % (k, v) for k, v in cfg.items())

def _run_batch(args):
    libdir, cfg, walks = args
    inp = [cfg_lines(cfg)]
    for w in walks:
        inp.append('WALK %d\n' % len(w)); inp.extend(l + '\n' for l in w)
    env = {'PATH': os.environ.get('PATH', ''), 'HOME': '/tmp'}
    if 'GCOV_PREFIX' in os.environ: env['GCOV_PREFIX'] = os.environ['GCOV_PREFIX']
    p = subprocess.run([os.path.join(libdir, 'drv'), libdir], input=''.join(inp), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, env=env, errors='replace')
    res, cur = [], []
    for l in p.stdout.split('\n'):
        if l.startswith('END '):
            res.append((cur, int(l[4:]))); cur = []
        elif l:
            try: cur.append(json.loads(l))
            except ValueError: cur.append({'garbage': l[:200]})
    while len(res) < len(walks): res.append((cur, -1)); cur = []
    return res

def run_walks(libdir, jobs):
    """jobs: list of (drvcfg dict, ops list of str); returns list of (lines, status) in order."""
    groups = {}
    for i, (c, w) in enumerate(jobs):
        groups.setdefault(json.dumps(c, sort_keys=True), []).append(i)
    batches = []
    for k, idx in groups.items():
        n = max(1, min(len(idx), max(20, -(-len(jobs) // NPAR))))
        for a in range(0, len(idx), n): batches.append((json.loads(k), idx[a:a+n]))
    out = [None] * len(jobs)
    with ThreadPoolExecutor(NPAR) as ex:
        for (c, idx), r in zip(batches, ex.map(_run_batch, [(libdir, c, [jobs[i][1] for i in idx]) for c, idx in batches])):
            for i, x in zip(idx, r): out[i] = x
    return out

# ---------------------------------------------------------------- TLC
class TLCError(Exception): pass

def tlc(module, cfg=None, env=None, workers=8, timeout=800, heap='6g', extra=(), wd=None, dump=False):
    """Runs TLC in a private copy of spec/.  Returns dict(out, rc, generated, distinct, violated, mismatches)."""
    d = wd or workdir('tlc')
    own = wd is None
    sd = os.path.join(d, 'spec'); 
    if not os.path.isdir(sd): shutil.copytree(SPEC, sd, ignore=shutil.ignore_patterns('states', '*_TTrace*'))
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Dtlc2.TLC.stopAfter=%d' % timeout, '-cp', CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', os.path.join(d, 'meta'), '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=sd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
        o, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        o, rc = (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout or ''), -9
    if own: shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', o)
    gen, dis = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    viol = re.findall(r'Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|property (\w+) of', o)
    err = None
    if rc not in (0, 12, 13) and not ('violated' in o):
        err = o[-3000:]
    return dict(out=o, rc=rc, generated=gen, distinct=dis, violated=bool(viol) or 'violated' in o, vnames=[''.join(v) for v in viol],
                mism=[parse_print(x) for x in find_prints(o, 'MISMATCH')], err=err, wall=time.time() - t0)

def find_prints(o, tag):
    """<<"TAG", ...>> values printed by PrintT (may span lines)."""
    r = []
    for m in re.finditer(r'<<\s*"%s"' % tag, o):
        i = m.start(); d = 0; j = i
        while j < len(o):
            if o.startswith('<<', j): d += 1; j += 2; continue
            if o.startswith('>>', j):
                d -= 1; j += 2
                if d == 0: break
                continue
            j += 1
        r.append(re.sub(r'\s+', ' ', o[i:j]))
    return r

def parse_print(s):
    m = re.match(r'<<\s*"\w+", (-?\d+|"[^"]*"), (\d+), (\{[^}]*\}), "([^"]*)"', s)
    if not m: return dict(trace=None, step=None, what=s[:200], fields=set(), op='', text=s)
    return dict(trace=m.group(1).strip('"'), step=int(m.group(2)), what=m.group(3), fields=set(re.findall(r'"([^"]*)"', m.group(3))),
                op=m.group(4), text=s)

def validate(module, traces, cfg=None, timeout=800, workers=8):
    """Validates recorded traces against a Trace module; returns (tlc result, nsteps)."""
    d = workdir('val')
    try:
        f = os.path.join(d, 'trace.ndjson')
        n = 0
        with open(f, 'w') as h:
            for t in traces:
                n += len(t['steps']); h.write(json.dumps(t, separators=(',', ':')) + '\n')
        r = tlc(module, cfg, env={'TRACE': f}, wd=d, timeout=timeout, workers=workers)
        exp = n + len(traces)
        if (r['err'] or r['rc'] != 0) and not r['mism']: raise TLCError('TLC failed on %s (rc %s):\n%s' % (module, r['rc'], (r['err'] or r['out'])[-3000:]))
        if not r['mism'] and r['generated'] < exp - 0:
            raise TLCError('%s: only %d of %d trace states were examined' % (module, r['generated'], exp))
        return r, n
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- results
class Result:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time(); self.cov = {}; self.assumptions = []; self.violations = []; self.known = []
        self.states = self.transitions = self.traces = 0; self.samples = []
    def add_mc(self, r, label):
        self.states += r['distinct']; self.transitions += r['generated']
        self.cov.setdefault('models', []).append({'model': label, 'distinct_states': r['distinct'], 'transitions': r['generated'], 'wall_s': round(r['wall'], 1)})
    def violation(self, replay, text): self.violations.append((replay, text))
    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces, 'samples': self.samples[:5]}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for replay, text in self.violations[:5]:
            print('  ' + text)
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
        sys.stdout.flush()
        print('%s %s: %d states, %d traces, %.1fs, %d violation(s)' % (self.prop, self.tier, self.states, self.traces, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0

def save_replay(prop, obj):
    d = os.path.join(WORK, 'replays'); os.makedirs(d, exist_ok=True)
    s = json.dumps(obj, indent=1); f = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    open(f, 'w').write(s); return f

def known_findings(prop):
    """lines 'known: property=<id> <what fails>' of known-findings.txt"""
    f = os.path.join(VERIF, 'known-findings.txt'); r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\w+) (.*)', l)
            if m and m.group(1) == prop: r.append(m.group(2).strip())
    return r
