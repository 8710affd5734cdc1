"""B01, B02: barriers of the node"""
from s_barrier import Barrier
CONFS = [dict(), dict(lewi=False), dict(mode='async'), dict(lb=False), dict(sel=['default', 'bb']), dict(sel=['a']), dict(nobar=[2]), dict(bid=[0, 1, 1]), dict(ncpus=5, nproc=4, bid=[1, 1, 0, 1]), dict(keep=True), dict(nproc=2, ncpus=2), dict(ncpus=6, nproc=4)]

def mc(ck, label, ops, n=2, np=2, slots=2, async_=False, lewi=True, lb=True, sel=(), names=('a',), maxt=1, thorough=None, **kw):
    b = lambda x: 'TRUE' if x else 'FALSE'
    q = lambda l: '{' + ','.join('"%s"' % x for x in l) + '}'
    def consts(ops=ops, n=n, np=np, slots=slots, async_=async_, lewi=lewi, lb=lb, sel=sel, names=names, maxt=maxt):
        return dict(NCPUS=n, NP=np, SLOTS=slots, ASYNC=b(async_), LEWI=b(lewi), LB=b(lb), SEL=q(sel), NAMES=q(names), MAXT=maxt, OPS=q(ops))
    return ck.MC('MC_Barrier/' + label, 'MC_Barrier', consts(), consts(**thorough) if thorough else None, **kw)

LIFE = ['init', 'fin', 'bar', 'bar_att', 'bar_det', 'bar_reg']
def define(ck):
    A = ['processes are simulated in one address space; a call that waits in a barrier is a suspended fiber, and each operation of another process is atomic',
         'programs do not join or leave a barrier while other processes wait in it (the library aborts such programs by design)']
    T = dict(timeout=250)
    team = mc(ck, 'team', LIFE, lewi=False, thorough=dict(np=3, n=3, slots=2), **T)
    names = mc(ck, 'names', LIFE, np=2, slots=2, names=('a', 'bb'), lewi=False, maxt=1, thorough=dict(slots=3, maxt=2), **T)
    lend = mc(ck, 'lend', ['init', 'fin', 'bar', 'lend_cpu', 'borrow_cpu', 'reclaim_cpu', 'return', 'acquire_cpu', 'bar_reg'], thorough=dict(n=4), maxt=1, **T)
    asy = mc(ck, 'lend-async', ['init', 'bar', 'lend_cpu', 'borrow_cpu', 'acquire_cpu', 'reclaim_cpu'], async_=True, n=2, np=2, thorough=dict(np=3, n=3), **T)
    sel = mc(ck, 'select', ['init', 'bar', 'bar_reg', 'bar_att'], sel=('bb',), names=('a', 'bb'), slots=3, thorough=dict(np=3, n=3), **T)
    def W(focus, weights=None, nq=1200, nt=10000): return ck.Walks(lambda: Barrier(CONFS, weights), 'TraceBarrier', nq, nt, focus=focus)
    ck.register('B01', [team, names, W(({'bar', 'bar_att', 'bar_det', 'bar_reg', 'init', 'fin'}, {'r', 'v', 'blk', 'fin', 'bar'}))], A)
    ck.register('B02', [lend, asy, sel, W(({'bar'}, {'own', 'gst', 'st', 'rq', 'grq', 'free', 'occ', 'cb'}), dict(bar=60, bar_reg=20, borrow=8, borrow_cpu=8, acquire_cpu=8, lend_cpu=8, reclaim=6, bar_det=2, bar_att=2))], A)
