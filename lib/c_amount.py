"""N01-N04: processes that exchange numbers of CPUs (LeWI without CPU binding)"""
from s_amount import Amount
ASY = [dict(mode='async'), dict(mode='async', keep=True), dict(mode='async', nproc=4, ncpus=16), dict(mode='async', nproc=2, ncpus=4)]
POL = [dict(), dict(keep=True), dict(greedy=True), dict(nproc=4), dict(greedy=True, nproc=2)]
AOPS = ['init', 'fin', 'enable', 'disable', 'lend', 'lend_cpus', 'into', 'reclaim', 'acquire_cpus', 'borrow', 'borrow_cpus']
POPS = ['init', 'fin', 'enable', 'disable', 'lend', 'maxpar', 'unsetmax', 'into', 'outof', 'reclaim', 'borrow', 'borrow_cpus']

def mc(ck, label, async_, ops, np=2, keep=False, greedy=False, owns='{1,2}', ns='{0,1,3}', maxrq=2, thorough=None, **kw):
    b = lambda x: 'TRUE' if x else 'FALSE'
    def consts(ops=ops, np=np, keep=keep, greedy=greedy, owns=owns, ns=ns, maxrq=maxrq):
        return dict(NCPUS=4, NP=np, ASYNC=b(async_), KEEP=b(keep), GREEDY=b(greedy), OPS='{' + ','.join('"%s"' % o for o in ops) + '}', OWNS=owns, NS=ns, MAXRQ=maxrq)
    return ck.MC('MC_Amount/' + label, 'MC_Amount', consts(), consts(**thorough) if thorough else None, timeout=300, **kw)

def define(ck):
    A = ['processes are simulated in one address space, and the helper thread of a process runs when it is sent a message',
         'concurrent calls are switched at accesses to the shared memory, two calls at a time']
    a2 = mc(ck, 'async', True, AOPS, maxrq=3, thorough=dict(np=3, maxrq=2))
    a3 = mc(ck, 'async-3', True, ['init', 'lend', 'into', 'reclaim', 'acquire_cpus', 'disable', 'enable'], np=3, ns='{1,2}', thorough=dict(keep=True, ns='{1,3}', ops=AOPS))
    af = mc(ck, 'async-fin', True, ['init', 'fin', 'lend', 'reclaim', 'acquire_cpus', 'borrow_cpus'], np=3, ns='{2}', maxrq=2, thorough=dict(ns='{1,2}', maxrq=3))
    p2 = mc(ck, 'polling', False, POPS, thorough=dict(np=3))
    p3 = mc(ck, 'polling-3', False, ['init', 'lend', 'into', 'outof', 'reclaim', 'borrow', 'borrow_cpus', 'disable', 'enable', 'fin'], np=3, ns='{1,3}', thorough=dict(np=3, owns='{1,2,3}'))
    pg = mc(ck, 'greedy', False, ['init', 'lend', 'into', 'outof', 'borrow', 'maxpar', 'disable', 'enable'], np=3, greedy=True, ns='{1,2}', thorough=dict(ops=POPS))
    def W(confs, focus, weights=None, nq=1500, nt=16000): return ck.Walks(lambda: Amount(confs, weights), 'TraceAmount', nq, nt, focus=focus)
    def P(confs, focus, nq=700, nt=10000): return ck.Walks(lambda: Amount(confs, None, 0.5), 'TraceAmount', nq, nt, focus=focus, variant='sched')
    ck.register('N01', [a2, p2, p3, W(ASY + POL, (None, {'cb', 'rq'})), P(ASY + POL, (None, {'cb', 'rq', 'par'}))], A)
    ck.register('N02', [a3, p3, pg, W(ASY + POL, ({'reclaim', 'outof', 'disable', 'enable', 'fin', 'acquire_cpus', 'init', 'borrow', 'borrow_cpus'}, {'cb', 'rq', 'r'}), dict(reclaim=20, disable=8, enable=8, fin=5)),
        P(ASY + POL, ({'reclaim', 'outof', 'disable', 'fin', 'acquire_cpus', 'borrow', 'borrow_cpus'}, {'cb', 'rq'}))], A)
    ck.register('N03', [a2, af, pg, W(ASY + ASY + POL, ({'acquire_cpus', 'borrow', 'borrow_cpus', 'lend', 'lend_cpus', 'into', 'enable', 'disable', 'maxpar', 'fin'}, {'cb', 'rq', 'r'}), dict(maxpar=10)),
        P(ASY + POL, ({'acquire_cpus', 'borrow', 'borrow_cpus', 'lend', 'lend_cpus', 'into', 'maxpar'}, {'cb', 'rq'}))], A)
    ck.register('N04', [a3, p2, W(ASY + POL, (None, {'r', 'cb', 'last'}), dict(nothing=3, init=2)), P(ASY, (None, {'r', 'cb', 'last'}))], A)
