"""C01-C09: sharing CPUs (cpuinfo shared memory, LeWI mask policy)"""
from s_cpuinfo import CpuInfo

POLL = [dict(), dict(ncpus=6, ncores=6, nnodes=2), dict(aff='nearby-only', nnodes=2), dict(aff='spread-ifempty', nnodes=2), dict(aff='nearby-first', nnodes=2),
        dict(resp=False), dict(pub=True), dict(keep=True), dict(maxp=2), dict(ncpus=4, ncores=4, nproc=4)]
ASYN = [dict(mode='async'), dict(mode='async', resp=False), dict(mode='async', pub=True), dict(mode='async', maxp=2), dict(mode='async', keep=True),
        dict(mode='async', ncpus=6, ncores=6, nnodes=2, aff='nearby-only'), dict(mode='async', ncpus=2, ncores=2, nproc=3)]
SMT = [dict(ncpus=4, ncores=2, nproc=2), dict(ncpus=8, ncores=4), dict(ncpus=8, ncores=4, keep=True, nproc=2), dict(ncpus=6, ncores=2, nproc=2), dict(ncpus=8, ncores=4, nnodes=2, aff='spread-ifempty'),
       dict(ncpus=8, ncores=4, nproc=3, maxp=3)]
SMTA = [dict(c, mode='async') for c in SMT]
NOLEWI = [dict(lewi=False)]
ALL = POLL + ASYN + SMT + SMTA + NOLEWI

def mc(ck, label, ops, n=2, per=1, pern=None, np=2, async_=False, pub=False, resp=True, aff='mask', keep=False, maxp=0, nargs='{0,1,2}', masks=None, qlen=1, down=True, thorough=None, **kw):
    b = lambda x: 'TRUE' if x else 'FALSE'
    def consts(n=n, per=per, pern=pern, np=np, async_=async_, pub=pub, resp=resp, aff=aff, keep=keep, maxp=maxp, nargs=nargs, masks=masks, qlen=qlen, down=down, ops=ops):
        if masks is None: masks = '{{0},{1},{0,1}}' if n == 2 else '{' + ','.join('{%d}' % i for i in range(n)) + ',' + '{' + ','.join(map(str, range(n))) + '}}'
        return dict(NCPUS=n, PER=per, PERN=pern or n, NP=np, ASYNC=b(async_), PUB=b(pub), RESP=b(resp), AFF='"%s"' % aff, KEEP=b(keep), MAXP=maxp, NARGS=nargs, MASKS=masks,
                    QLEN=qlen, DOWN=b(down), OPS='{' + ','.join('"%s"' % o for o in ops) + '}')
    return ck.MC('MC_CpuInfo/' + label, 'MC_CpuInfo', consts(), consts(**thorough) if thorough else None, **kw)

EVERY = ['init', 'fin', 'enable', 'disable', 'maxpar', 'unsetmax', 'lend', 'lend_cpu', 'lend_mask', 'reclaim', 'reclaim_cpu', 'reclaim_cpus', 'reclaim_mask', 'acquire_cpu', 'acquire_cpus',
         'acquire_mask', 'acquire_in', 'borrow', 'borrow_cpu', 'borrow_cpus', 'borrow_mask', 'borrow_in', 'return', 'return_cpu', 'return_mask', 'check', 'into', 'outof']
CORE = ['lend_cpu', 'reclaim_cpu', 'acquire_cpu', 'borrow_cpu', 'return_cpu']
LEND = {'lend', 'lend_cpu', 'lend_mask', 'lend_cpus'}
RECL = {'reclaim', 'reclaim_cpu', 'reclaim_cpus', 'reclaim_mask'}
ACQ = {'acquire_cpu', 'acquire_cpus', 'acquire_mask', 'acquire_in'}
BORR = {'borrow', 'borrow_cpu', 'borrow_cpus', 'borrow_mask', 'borrow_in'}
RET = {'return', 'return_cpu', 'return_mask'}

def define(ck):
    A = ['processes are simulated in one address space: one private copy of the library per process, shared memory and clock simulated by the harness',
         'operations on the shared table are atomic in the model; pairs of concurrent calls are run under a sampled set of schedules (context switches at accesses to memory and at locks) and have to agree with one of the two orders']
    def W(confs, weights=None, nq=1600, nt=8000, focus=None, **kw):
        return ck.Walks(lambda: CpuInfo(confs, weights), 'TraceCpuInfo', nq, nt, focus=focus, **kw)
    def P(confs, weights=None, ops=None, nq=500, nt=4000, **kw):
        """two processes calling at the same time"""
        return ck.Walks(lambda: CpuInfo(confs, weights, 0.5), 'TraceCpuInfo', nq, nt, focus=(ops, {'par'}), variant='sched', **kw)
    def reg(pid, *jobs): ck.register(pid, list(jobs), A)
    reg('C01', mc(ck, 'all-polling', ['fin', 'init', 'disable', 'enable', 'lend_cpu', 'lend', 'reclaim', 'reclaim_cpu', 'acquire_cpu', 'borrow', 'borrow_cpu', 'return', 'check', 'into', 'outof'], thorough=dict(ops=EVERY)),
        mc(ck, 'all-async', ['fin', 'init', 'disable', 'lend_cpu', 'reclaim', 'reclaim_cpu', 'acquire_cpu', 'acquire_cpus', 'borrow', 'into', 'outof'], async_=True, thorough=dict(ops=EVERY)),
        mc(ck, '3x3-polling', CORE + ['fin', 'init'], n=3, np=3, only='thorough'), mc(ck, '3x3-async', CORE + ['fin', 'init'], n=3, np=3, async_=True, only='thorough'),
        W(ALL, nt=10000, focus=(None, {'own', 'gst', 'cb'})), P(ALL))
    reg('C02', mc(ck, 'borrow-polling', ['fin', 'init', 'lend_cpu', 'reclaim', 'acquire_cpu', 'acquire_in', 'borrow', 'borrow_cpu', 'borrow_in', 'return', 'check'], thorough=dict(ops=EVERY, maxp=1)),
        mc(ck, 'private', ['fin', 'init', 'lend_cpu', 'acquire_cpus', 'borrow', 'check', 'acquire_cpu'], resp=False, n=3, np=2, thorough=dict(ops=EVERY, n=2)),
        mc(ck, '3x3', ['lend_cpu', 'borrow', 'borrow_cpu', 'acquire_cpu', 'reclaim', 'return', 'check', 'fin', 'init'], n=3, np=3, async_=True, only='thorough'),
        W(ALL, dict(borrow=8, borrow_cpu=8, acquire_cpu=8, check=8, borrow_mask=4, borrow_in=4, lend_cpu=14), focus=(BORR | ACQ | {'check', 'outof', 'init'}, None)),
        P(ALL, dict(borrow=8, borrow_cpu=8, acquire_cpu=8, borrow_cpus=8, check=4, lend_cpu=14), BORR | ACQ | {'check'}))
    live = mc(ck, 'liveness', ['lend_cpu', 'reclaim_cpu', 'borrow_cpu', 'acquire_cpu', 'return', 'into', 'outof'], down=False, spec='FairSpec', properties=('ComesBack',), constraint=None,
              thorough=dict(ops=['lend_cpu', 'reclaim_cpu', 'reclaim', 'borrow', 'acquire_cpu', 'return', 'return_cpu', 'into', 'outof', 'disable', 'enable', 'maxpar']))
    reg('C03', live, mc(ck, 'reclaim-polling', ['fin', 'init', 'lend_cpu', 'lend', 'disable', 'enable'] + sorted(RECL | RET) + ['borrow_cpu', 'acquire_cpu', 'check'], thorough=dict(ops=EVERY)),
        mc(ck, 'reclaim-async', ['lend_cpu', 'disable', 'enable', 'borrow_cpu', 'acquire_cpu'] + sorted(RECL), async_=True, thorough=dict(ops=EVERY)),
        mc(ck, 'reclaim-smt', ['lend_cpu', 'lend', 'borrow_cpu', 'borrow', 'return', 'return_cpu', 'check'] + sorted(RECL), n=4, per=2, np=2, nargs='{1,2}', only='thorough', down=False),
        W(ALL, {'reclaim': 8, 'reclaim_cpu': 10, 'reclaim_cpus': 6, 'reclaim_mask': 6, 'return': 8, 'return_cpu': 6, 'return_mask': 5, 'borrow': 8, 'check': 5}, focus=(RECL | RET | {'acquire_cpu', 'outof', 'disable'}, None)),
        P(ALL, {'reclaim': 8, 'reclaim_cpu': 10, 'return': 8, 'return_cpu': 6, 'borrow': 8, 'lend_cpu': 14}, RECL | RET | {'acquire_cpu'}))
    reg('C04', mc(ck, 'queues', ['lend_cpu', 'acquire_cpu', 'acquire_cpus', 'maxpar', 'disable', 'into', 'outof'], async_=True, qlen=1, nargs='{0,1}', thorough=dict(ops=EVERY, nargs='{0,1,2}', qlen=2)),
        mc(ck, 'queues-3', ['lend_cpu', 'acquire_cpu', 'acquire_cpus', 'fin', 'reclaim'], n=2, np=2, async_=True, qlen=2, nargs='{0,1}', thorough=dict(n=3, np=3, qlen=1, nargs='{0,1}')),
        W(ASYN + SMTA, dict(acquire_cpu=16, acquire_cpus=10, acquire_mask=4, acquire_in=8, lend_cpu=16, borrow=1, borrow_cpu=1, borrow_mask=1, borrow_in=1, borrow_cpus=1), focus=(LEND | ACQ | {'into', 'fin', 'disable', 'maxpar', 'outof', 'reclaim', 'reclaim_cpu', 'reclaim_mask'}, None)),
        P(ASYN + SMTA, dict(acquire_cpu=16, acquire_cpus=10, acquire_in=8, lend_cpu=16, lend=6), LEND | ACQ))
    reg('C05', mc(ck, 'limits', ['maxpar', 'unsetmax', 'lend', 'lend_cpu', 'reclaim', 'return', 'borrow', 'borrow_cpus', 'borrow_in', 'acquire_cpus', 'acquire_in', 'acquire_mask', 'reclaim_cpus'], thorough=dict(ops=EVERY, maxp=1)),
        mc(ck, 'limits-3', ['maxpar', 'lend', 'borrow_cpus', 'borrow_in', 'acquire_in', 'return'], n=3, np=2, nargs='{1,2}', down=False, thorough=dict(async_=True)),
        W(POLL + ASYN + SMT + [dict(maxp=1), dict(maxp=3, nproc=2), dict(maxp=1, mode='async'), dict(aff='nearby-only', nnodes=2, maxp=2)],
          dict(maxpar=10, unsetmax=2, borrow_cpus=10, borrow_in=8, acquire_cpus=10, acquire_in=8, acquire_mask=6, reclaim_cpus=8, lend=8), focus=(BORR | ACQ | {'maxpar', 'unsetmax', 'reclaim_cpus', 'init'}, None)),
        P([dict(maxp=1), dict(maxp=2, nproc=2), dict(maxp=2, ncpus=6, ncores=6), dict(maxp=1, mode='async'), dict(maxp=2, mode='async')],
          dict(maxpar=10, unsetmax=2, borrow_cpus=10, borrow=8, acquire_cpus=10, lend=8), BORR | ACQ | {'maxpar', 'reclaim_cpus'}))
    reg('C06', mc(ck, 'smt', ['lend_cpu', 'lend', 'borrow_cpu', 'borrow', 'acquire_cpu', 'return', 'check'], n=4, per=2, np=2, nargs='{1}', down=False, thorough=dict(ops=['lend_cpu', 'lend', 'borrow_cpu', 'borrow', 'acquire_cpu', 'acquire_cpus', 'reclaim_cpu', 'reclaim', 'return', 'return_cpu', 'check'])),
        mc(ck, 'smt-async', ['lend_cpu', 'lend', 'acquire_cpu', 'reclaim_cpu'], n=4, per=2, np=2, async_=True, nargs='{1}', down=False, qlen=1, thorough=dict(ops=['lend_cpu', 'lend', 'acquire_cpu', 'borrow', 'reclaim', 'acquire_cpus'])),
        W(SMT + SMTA, dict(borrow_cpu=8, acquire_cpu=8, borrow_cpus=8, acquire_cpus=8, check=6, lend_cpu=14), focus=(LEND | RECL | ACQ | BORR | RET | {'check'}, None)),
        P(SMT + SMTA, dict(borrow_cpu=8, acquire_cpu=8, borrow_cpus=8, acquire_cpus=8, lend_cpu=14)))
    reg('C07', mc(ck, 'leave', ['init', 'fin', 'enable', 'disable', 'lend_cpu', 'borrow', 'acquire_cpu', 'reclaim', 'return'], thorough=dict(ops=EVERY)),
        mc(ck, 'leave-async-public', ['init', 'fin', 'enable', 'disable', 'lend_cpu', 'acquire_cpu', 'acquire_cpus'], async_=True, pub=True, nargs='{1}', thorough=dict(n=3, np=3)),
        W(ALL, dict(fin=8, disable=8, enable=8, acquire_cpu=8, acquire_cpus=8), focus=({'init', 'fin', 'enable', 'disable'}, None)),
        P(ALL, dict(fin=10, disable=8, enable=8, acquire_cpu=8, init=5), {'init', 'fin', 'enable', 'disable'}))
    reg('C08', mc(ck, 'blocking', ['into', 'outof', 'lend_cpu', 'borrow', 'reclaim', 'return', 'acquire_cpu', 'check'], thorough=dict(ops=EVERY)),
        mc(ck, 'blocking-async', ['into', 'outof', 'lend_cpu', 'borrow', 'reclaim', 'acquire_cpu', 'acquire_cpus'], async_=True, nargs='{1}', thorough=dict(n=3, np=3)),
        W(ALL + [dict(keep=True, ncpus=6, ncores=3, nproc=2), dict(keep=True, mode='async')], dict(into=20, outof=20, borrow=8), focus=({'into', 'outof', 'return', 'return_cpu', 'return_mask', 'check'}, None)),
        P(POLL + SMT, dict(into=20, outof=20, borrow=8), {'into', 'outof'}))
    reg('C09', mc(ck, 'results', EVERY[4:26], nargs='{1}', down=False, thorough=dict(ops=EVERY, down=True)),
        W(ALL, dict(lend_cpus=2, check=6, enable=4, disable=4), focus=(None, {'r'})))
    reg('C10', P(POLL + SMT + NOLEWI, nq=900, nt=10000), P(ASYN + SMTA, nq=600, nt=10000))
