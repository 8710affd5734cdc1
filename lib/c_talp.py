"""T01..T04: performance measurement"""
from s_talp import Talp
CONFS = [dict(o='T'), dict(o='O', unit=10**9), dict(o='OT'), dict(o='TEX', ncpus=4), dict(o='EEX', ncpus=3, mult=2), dict(o='MTE', ncpus=4, unit=7 * 10**11), dict(o='TeNX', ncpus=4), dict(o='TT', lb=True), dict(o='T', sel='include:a,global'), dict(o='Ot', sel='exclude:foo,Global'), dict(o='E', sel='exclude:all'), dict(o='O', ncpus=2, cp=[2])]

def mc(ck, label, kinds, ops, threads=1, names=('a',), now=3, maxreg=2, maxc=2, teams=(1,), pks=(0,), depth=1, n=4, lb=False, excl=(), mult=1, thorough=None, **kw):
    b = lambda x: 'TRUE' if x else 'FALSE'
    q = lambda l: '{' + ','.join(('"%s"' % x) if isinstance(x, str) else str(x) for x in l) + '}'
    def consts(**o):
        v = dict(n=n, kinds=kinds, threads=threads, names=names, now=now, maxreg=maxreg, maxc=maxc, teams=teams, pks=pks, depth=depth, lb=lb, excl=excl, mult=mult, ops=ops); v.update(o)
        return dict(NCPUS=v['n'], KSTR='"%s"' % v['kinds'], THREADS=v['threads'], OPS=q(v['ops']), NAMES=q(v['names']), MAXNOW=v['now'], MAXREG=v['maxreg'], MAXC=v['maxc'],
                    TEAMS=q(v['teams']), PKS=q(v['pks']), DEPTH=v['depth'], LB=b(v['lb']), EXCL=q(v['excl']), MULT=v['mult'])
    return ck.MC('MC_Talp/' + label, 'MC_Talp', consts(), consts(**thorough) if thorough else None, **kw)

REG = ['reg', 'glob', 'rstart', 'rstop', 'rreset', 'rrep', 'rupd']
OMP = ['tb', 'te', 'pb', 'imp', 'ibar', 'iend', 'pe', 'si', 'so', 'tc', 'tdone', 'tsw']
def define(ck):
    A = ['processes are simulated in one address space, threads are real; each call of the library is atomic, and the clock moves only between calls',
         'OpenMP events arrive in the order in which a runtime produces them; monitoring regions are not opened or closed inside parallel regions']
    T = dict(timeout=200)
    life = mc(ck, 'regions', 'T', ['init', 'fin', 'reg', 'rstart', 'rstop', 'rreset', 'tick', 'rupd', 'sin', 'sout'], names=('a', '-'), now=2, maxc=1, thorough=dict(now=3, maxc=2), **T)
    sel = mc(ck, 'select', 'T', ['init', 'fin', 'reg', 'rstart', 'rstop', 'rreset', 'glob', 'observer', 'tick'], names=('a', 'b', 'global', '%e', 'all'), now=1, maxreg=3, maxc=1, excl=('a', 'global'), thorough=dict(maxreg=4, maxc=2), **T)
    threads = mc(ck, 'threads', 'T', ['init', 'reg', 'rstart', 'rstop', 'rreset', 'tick', 'rupd'], threads=2, now=2, thorough=dict(now=3, threads=3), **T)
    mpi = mc(ck, 'mpi', 'T', ['init', 'fin', 'rstart', 'rstop', 'rreset', 'tick', 'rupd', 'sin', 'sout', 'mpi_init', 'mpi_fin', 'observer'], maxreg=1, thorough=dict(now=4, maxc=3, maxreg=2), **T)
    omp = mc(ck, 'openmp', 'O', ['omp_start', 'tick', 'rstop', 'tb', 'pb', 'imp', 'ibar', 'iend', 'pe', 'si', 'so'], n=2, threads=2, maxreg=1, now=2, teams=(1, 2), maxc=1, thorough=dict(now=3, maxc=2, pks=(0, 1)), **T)
    team = mc(ck, 'team', 'O', ['omp_start', 'tick', 'tb', 'pb', 'imp', 'ibar', 'iend', 'pe'], n=2, threads=3, maxreg=1, now=2, teams=(2, 3), maxc=1, thorough=dict(now=4, maxc=2), **T)
    task = mc(ck, 'tasks', 'O', ['omp_start', 'tick', 'tb', 'pb', 'imp', 'ibar', 'iend', 'pe', 'tc', 'tdone', 'tsw', 'sin', 'sout'], n=2, threads=2, maxreg=1, now=2, teams=(2,), maxc=2, only='thorough', **T)
    nest = mc(ck, 'nested', 'O', ['omp_start', 'tick', 'tb', 'pb', 'imp', 'ibar', 'iend', 'pe'], n=2, threads=3, maxreg=1, now=2, teams=(2,), maxc=2, depth=2, pks=(0, 1), only='thorough', timeout=300)
    node = mc(ck, 'node', 'MMT', ['init', 'fin', 'rstart', 'reg', 'rstop', 'tick', 'mpi_fin', 'collect', 'query'], maxreg=1, now=1, maxc=1, thorough=dict(now=2, maxreg=2), **T)
    coll = mc(ck, 'collect', 'TTX', ['init', 'rstart', 'rstop', 'tick', 'collect', 'tatt', 'query', 'ntimes'], names=('Global',), maxreg=1, now=2, maxc=1, only='thorough', thorough=dict(maxc=2), **T)
    ext = mc(ck, 'external', 'EX', ['init', 'fin', 'rstart', 'reg', 'rstop', 'rreset', 'tick', 'rupd', 'times', 'tatt', 'tdet', 'ntimes'], now=2, maxc=1, thorough=dict(now=3, maxc=2), **T)
    extc = mc(ck, 'external-collect', 'ETX', ['init', 'fin', 'rstart', 'reg', 'rstop', 'tick', 'collect'], now=2, maxc=1, only='thorough', **T)
    def W(focus, confs=None, weights=None, nq=1500, nt=10000): return ck.Walks(lambda: Talp(CONFS if confs is None else [CONFS[i] for i in confs], weights), 'TraceTalp', nq, nt, focus=focus)
    life_ops = set(REG) | {'init', 'fin', 'mpi_init', 'mpi_fin', 'omp_start', 'omp_stop', 'observer'}
    ck.register('T01', [life, sel, W((life_ops, {'r', 'v', 'reg', 'x'}))], A)
    ck.register('T02', [threads, mpi, W(({'sin', 'sout', 'rupd', 'rstart', 'rstop', 'rreset', 'mpi_init', 'mpi_fin', 'collect', 'tb', 'te', 'fin', 'omp_stop', 'tick'}, {'reg'}), None, dict(sync=25, rupd=8))], A)
    ck.register('T03', [omp, team, task, nest, W((set(OMP) | {'omp_start', 'omp_stop', 'rupd', 'rstart', 'rstop', 'fin'}, {'reg'}), [1, 2, 11], dict(omp=85))], A)
    ck.register('T04', [node, ext, coll, extc, W(({'times', 'ntimes', 'query', 'collect', 'tatt', 'tdet', 'init', 'fin', 'mpi_fin', 'rupd', 'rstop', 'rstart'}, {'r', 'x', 'pm', 'blk', 'fin', 'tal'}), [0, 3, 4, 5, 6, 7, 9, 10], dict(collect=14, query=6, ntimes=5, times=5))], A)
