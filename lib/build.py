"""Builds the library copies and the driver from the current tree of /repo."""
import hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
NLIB = 13

class BuildError(Exception): pass

def lib_sources():
    txt = open(os.path.join(REPO, 'meson.build')).read()
    s = sorted(set(re.findall(r"'(src/(?:support|LB_comm|LB_core|LB_numThreads|LB_policies|apis)/[\w./]+\.c)'", txt)))
    return [x for x in s if os.path.exists(os.path.join(REPO, x))]

def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for root in (os.path.join(REPO, 'src'), H):
        for d, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.c', '.h', '.in')):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'meson.build'), 'rb').read())
    return h.hexdigest()[:16]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])

def build(variant='rel', drivers=('drv',)):
    flags = {'rel': ['-O1', '-g'],
             'dbg': ['-O1', '-g', '-DDEBUG_VERSION'],
             'cov': ['-O0', '-g', '--coverage'],
             'sched': ['-O1', '-g', '-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1']}[variant]
    hsh = tree_hash(variant + ' '.join(flags))
    out = os.path.join(VERIF, 'build', variant + '-' + hsh)
    if os.path.exists(os.path.join(out, 'ok')): return out
    tmp = out + '.tmp%d' % os.getpid()
    os.makedirs(os.path.join(tmp, 'inc', 'apis'), exist_ok=True)
    hdr = open(os.path.join(REPO, 'src/apis/dlb.h.in')).read().replace('@DLB_VERSION_HEXA@', '0x030500')
    open(os.path.join(tmp, 'inc', 'apis', 'dlb.h'), 'w').write(hdr)
    open(os.path.join(tmp, 'inc', 'dlb.h'), 'w').write(hdr)
    inc = ['-I' + H, '-I' + os.path.join(tmp, 'inc'), '-I' + os.path.join(tmp, 'inc', 'apis'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/apis')]
    base = ['gcc', '-std=gnu11', '-w', '-fPIC', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-DDLB_VERIF'] + inc
    jobs, objs = [], []
    for s in lib_sources():
        o = os.path.join(tmp, s.replace('/', '_') + '.o'); objs.append(o)
        jobs.append(base + flags + ['-c', os.path.join(REPO, s), '-o', o])
    o = os.path.join(tmp, 'hwrap.o'); objs.append(o); jobs.append(base + ['-O1', '-c', os.path.join(H, 'hwrap.c'), '-o', o])
    dobjs = []
    for f in ('sim', 'drv', 'extra', 'sched'):
        o = os.path.join(tmp, f + '.drv.o'); dobjs.append(o)
        jobs.append(base + ['-O1', '-g', '-c', os.path.join(H, f + '.c'), '-o', o])
    with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    wraps = ['-Wl,' + ','.join('--wrap=' + n for n in ('info', 'info0', 'info0_force_print', 'warning', 'warning0'))]
    san = []
    run(['gcc', '-shared', '-o', os.path.join(tmp, 'libdlb0.so'), '-Wl,-Bsymbolic', '-Wl,-z,lazy'] + wraps + (['--coverage'] if variant == 'cov' else []) + objs + ['-lm', '-lrt', '-ldl', '-lpthread'])
    for i in range(1, NLIB): shutil.copyfile(os.path.join(tmp, 'libdlb0.so'), os.path.join(tmp, 'libdlb%d.so' % i))
    run(['gcc', '-rdynamic', '-o', os.path.join(tmp, 'drv')] + dobjs + ['-ldl', '-lm', '-lpthread'] + (['--coverage'] if variant == 'cov' else []))
    if variant != 'cov':
        for o in objs + dobjs: os.remove(o)
    open(os.path.join(tmp, 'ok'), 'w').write('ok')
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    prune(out)
    return out

def prune(keep, n=6):
    b = os.path.join(VERIF, 'build')
    ds = sorted((os.path.join(b, d) for d in os.listdir(b)), key=os.path.getmtime, reverse=True)
    for d in ds[n:]:
        if d != keep and os.path.isdir(d) and '.tmp' not in d: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    print(build(*(sys.argv[1:] or ['rel'])))
