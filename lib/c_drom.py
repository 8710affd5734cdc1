"""D01-D06: changing masks (procinfo shared memory, DROM)"""
from s_drom import Drom
CONFS = [dict(), dict(lewi=False), dict(mode='async'), dict(retst=True), dict(ncpus=3), dict(ncpus=6, nproc=4), dict(mode='async', retst=True, ncpus=3), dict(nproc=2, ncpus=2), dict(ncpus=4, nproc=4, admin=True), dict(ncpus=5, nproc=4, admin=True, retst=True, lewi=False)]

def mc(ck, label, ops, n=2, np=2, ext='{7}', async_=False, lewi=False, retst=False, masks=None, flags='{{}}', nw=1, qlen=1, thorough=None, **kw):
    b = lambda x: 'TRUE' if x else 'FALSE'
    def consts(ops=ops, n=n, np=np, ext=ext, async_=async_, lewi=lewi, retst=retst, masks=masks, flags=flags, nw=nw, qlen=qlen):
        if masks is None: masks = '{' + ','.join('{%d}' % i for i in range(n)) + ',{' + ','.join(map(str, range(n))) + '}}'
        return dict(NCPUS=n, NP=np, EXT=ext, ASYNC=b(async_), LEWI=b(lewi), RETST=b(retst), MASKS=masks, FLAGS=flags, NW=nw, NA=1, QLEN=qlen, OPS='{' + ','.join('"%s"' % o for o in ops) + '}')
    return ck.MC('MC_Drom/' + label, 'MC_Drom', consts(), consts(**thorough) if thorough else None, **kw)

ALLF = '{{},{"ret"},{"sync"},{"nosync"}}'
PRE = ['init', 'fin', 'drom_preinit', 'drom_post', 'drom_recover', 'poll']
EVERY = ['init', 'fin', 'preinit', 'drom_attach', 'drom_detach', 'drom_preinit', 'drom_post', 'drom_recover', 'drom_get', 'drom_set', 'drom_pids', 'drom_ncpus', 'poll', 'poll_upd', 'tick']

def define(ck):
    A = ['processes are simulated in one address space: one private copy of the library per process, shared memory, clock and /proc simulated by the harness',
         'a synchronous call is interleaved with the operations of the others at its polling points; other operations are atomic',
         'a process does not start, nor is pre-registered again, before the call that prepares its registration returns',
         'masks of processes registered beforehand are not changed before they start (see the known limitations in DESIGN.md)']
    def W(weights=None, nq=900, nt=8000, focus=None, confs=CONFS, **kw):
        return ck.Walks(lambda: Drom(confs, weights), 'TraceDrom', nq, nt, focus=focus, **kw)
    def reg(pid, *jobs): ck.register(pid, list(jobs), A)
    T = dict(timeout=250)
    children = mc(ck, 'children', PRE, thorough=dict(ops=PRE + ['drom_set', 'tick']), **T)
    masks = mc(ck, 'masks', ['init', 'fin', 'drom_set', 'poll'], ext='{}', flags='{{}}', thorough=dict(n=3, masks='{{0},{1},{2},{0,1},{1,2},{0,1,2}}', flags='{{},{"nosync"}}'), **T)
    sync = mc(ck, 'sync', ['fin', 'drom_set', 'poll', 'tick'], ext='{}', flags='{{"sync"}}', thorough=dict(ops=['init', 'fin', 'drom_set', 'drom_get', 'poll', 'tick'], flags=ALLF), **T)
    lewi = mc(ck, 'lewi', ['fin', 'drom_set', 'poll', 'lend_cpu', 'borrow_cpu', 'reclaim_cpu'], ext='{}', lewi=True, thorough=dict(flags='{{},{"sync"}}', ops=['init', 'fin', 'drom_set', 'poll', 'lend_cpu', 'borrow_cpu', 'reclaim_cpu', 'return', 'acquire_cpu', 'disable', 'enable']), **T)
    lewia = mc(ck, 'lewi-async', ['fin', 'drom_set', 'lend_cpu', 'acquire_cpu'], ext='{}', lewi=True, async_=True, thorough=dict(ops=['init', 'fin', 'drom_set', 'lend_cpu', 'acquire_cpu', 'reclaim_cpu', 'borrow_cpu', 'disable']), **T)
    roster = mc(ck, 'roster', ['init', 'fin', 'preinit', 'drom_attach', 'drom_detach', 'drom_post', 'drom_pids'], thorough=dict(ops=['init', 'fin', 'preinit', 'drom_attach', 'drom_detach', 'drom_post', 'drom_pids', 'drom_preinit', 'poll']), **T)
    everything = mc(ck, 'everything', EVERY, flags=ALLF, only='thorough', **T)
    reg('D01', masks, children, everything, W(focus=({'drom_set', 'drom_preinit', 'init', 'fin', 'preinit', 'drom_post', 'drom_recover'}, {'prc', 'crash'})))
    reg('D02', masks, lewia, everything, W(dict(poll=30, poll_upd=16, drom_get=14, drom_set=30), focus=({'poll', 'poll_upd', 'drom_get', 'drom_set'}, {'r', 'v', 'cb', 'prc'})))
    reg('D03', sync, mc(ck, 'sync-retst', ['fin', 'drom_preinit', 'drom_post', 'poll', 'tick'], retst=True, only='thorough', **T),
        W(dict(drom_set=30, drom_preinit=20, tick=16, fin=8), focus=({'drom_set', 'drom_get', 'drom_preinit', 'tick', 'fin', 'poll', 'init', 'preinit'}, {'r', 'fin', 'blk', 'prc'})))
    reg('D04', children, mc(ck, 'children-retst', PRE, retst=True, thorough=dict(n=3, masks='{{0},{1,2},{0,1,2}}', ops=['init', 'fin', 'drom_preinit', 'drom_post', 'poll', 'drom_recover']), **T),
        W(dict(drom_preinit=24, drom_post=24, drom_recover=16, fin=10), focus=({'drom_post', 'drom_recover', 'drom_preinit', 'fin', 'drom_set'}, {'r', 'prc', 'cb'})))
    reg('D05', roster, children, W(dict(init=30, fin=14, preinit=10, drom_attach=10, drom_detach=8, drom_pids=10, drom_preinit=16),
        focus=({'init', 'fin', 'preinit', 'drom_attach', 'drom_detach', 'drom_pids', 'drom_ncpus', 'drom_preinit', 'drom_post'}, None)))
    reg('D06', lewi, lewia, W(dict(poll=24, drom_set=26, lend_cpu=12, borrow_cpu=10, acquire_cpu=10, reclaim_cpu=8), confs=[c for c in CONFS if c.get('lewi', True)],
        focus=(None, {'own', 'gst', 'st', 'rq', 'grq', 'free', 'occ', 'cb'})))
    CRASH = dict(die=7, acquire_cpus=5, init=20, drom_post=10, drom_attach=4, drom_detach=3, drom_set=14, poll=12, drom_pids=4)
    reg('D07', mc(ck, 'crash', ['init', 'fin', 'die', 'lend_cpu', 'borrow_cpu', 'reclaim_cpu'], ext='{}', lewi=True, n=2, thorough=dict(n=3, np=3, masks='{{0},{1},{2}}', ops=['init', 'die', 'lend_cpu', 'borrow_cpu']), **T),
        mc(ck, 'crash-async', ['init', 'die', 'lend_cpu', 'acquire_cpu'], ext='{}', lewi=True, async_=True, n=2, thorough=dict(n=3, np=3, masks='{{0},{1},{2}}'), **T),
        mc(ck, 'crash-masks', ['init', 'die', 'drom_set', 'poll', 'drom_post', 'drom_attach'], ext='{7}', thorough=dict(flags='{{},{"sync"}}', ops=['init', 'die', 'drom_set', 'poll', 'drom_post', 'drom_attach', 'drom_detach', 'drom_preinit', 'tick']), **T),
        W(CRASH, focus=(None, {'prc', 'own', 'gst', 'st', 'rq', 'grq', 'free', 'occ', 'r', 'crash', 'fin', 'blk'}), length=60,
          confs=[c for c in CONFS if c.get('nproc', 3) >= 3] + [dict(ncpus=5, nproc=5), dict(ncpus=5, nproc=5, mode='async'), dict(ncpus=6, nproc=5, mode='async', admin=True)]))
