"""Processes are forcibly ended only when allowed, and then exactly those that have been silent for too long."""
from vf import env, world as wd
from vf.harness import H
from vf.props import chk, mgr

INFO = {
    'outside': 'more than 2 optimizers or 4 rounds of the manager; a hanging process while a checkpoint is made',
    'assumptions': ['the clock never goes backwards; every reading may be any amount later than the one before'],
}


def run(S):
    limit = S.int('force_terminations_after', -5, 60)
    proc = S.flag('processes')
    kill = S.cfg.get('kill', False)
    aggr = kill and S.flag('aggressive')
    n = S.cfg['n']
    ways = [S.pick(f'way_{i + 1}', S.cfg['ways']) for i in range(n)]
    scripts, vals = mgr.evals(S, n, 1, const=lambda i, j: float(i))
    for i in range(n):
        scripts[i] += {'hang': [('hang',)], 'wait': [('wait',)], 'more': [('eval', [float(10 * i + 15)]), ('hang',)],
                       'note': [('note', 'alive'), ('hang',)]}[ways[i]]
        vals[float(10 * i + 15)] = float(i)
    rounds = S.cfg.get('rounds', 3)
    clock = env.new_clock('sym')
    clock.maxstep = 100
    clock.reads = [clock.now]
    last = {}        # optimizer -> number of readings when it was last heard of
    victim = {}      # killed optimizer -> number of readings at that time
    gone = {}
    st = {'get': None}
    back = {}        # optimizer -> number of readings when it was known to run on after a checkpoint

    def heard(who, d):
        last[who] = len(clock.reads)

    def on_get(who, item):
        for c in item:
            if not isinstance(c, int) and c.opt_id not in victim:
                last[c.opt_id] = len(clock.reads)

    def reading(k):
        """the reading at that position (or the latest)"""
        return clock.reads[min(k, len(clock.reads) - 1)]

    def on_term(who, d):
        if m.t_end is not None or m.converged:
            return
        if aggr and who not in victim:
            victim[who] = len(clock.reads)
            gone[who] = 1
            return
        S.check(S.all([limit > 0, proc]), 'forced-although-not-allowed')
        ref = victim.get(who, last[who])
        S.check(clock.now - reading(ref - 1) > limit, 'forced-too-early')
        S.check(who not in gone, 'forced-once')
        gone[who] = 1
        S.cover('forced-victim' if who in victim else 'forced')

    def on_send(who, msg):
        if msg == 1 and m.t_end is None and not m.converged:
            victim[who] = len(clock.reads)

    def stop(calls, man):
        for i, p in w.procs.items():
            if i in gone or p.opt.dead or (m.result.origin is None and i not in last):
                continue
            ref = victim.get(i, max(last[i], back.get(i, 0)))
            if proc and st['get'] is not None:
                late = st['get'] - reading(ref) > limit
                S.check(S.not_(S.all([late, limit > 0])), 'silent-but-not-forced')
        return calls >= rounds
    w, m = mgr.setup(S, scripts, stop, vals, backend='processes' if proc else 'threads', force_terminations_after=limit,
                     hunt=(lambda log, h, v: True) if kill else None, hunt_frequency=1, aggressive_kill=aggr, end_timeout=1)
    m.status_frequency = 10 ** 9
    w.fake_dates()
    w.prompt = True
    w.naps = 0
    w.order = lambda kind, en, must: 0
    w.watch.update(start=heard, get=on_get, terminate=on_term, send=on_send)
    if S.cfg.get('checkpoint'):
        w.persist()
        m.checkpoint_control = chk.control(S, w, checkpoint_iter_frequency=0)

        def after():
            m.checkpoint_control = None
            for i in last:
                back[i] = len(clock.reads)
            S.cover('checkpoint')
        chk.watch_checkpoints(w, m, after=after)
        w.watch['release'] = lambda who, d: heard(who, d) if who in last else None
    recv_ = wd.Conn.recv

    def receive(conn):
        v = recv_(conn)
        if conn.side == 'm':
            heard(w.conn_opt(conn), v)
        return v
    S.defer(lambda: setattr(wd.Conn, 'recv', recv_))
    wd.Conn.recv = receive
    block = w.block

    def blocking(kind, ready, timeout):
        if kind == 'get':
            block(kind, ready, timeout)
            st['get'] = clock.now
            return
        return block(kind, ready, timeout)
    w.block = blocking
    w.join = lambda p, t: p.opt.kill(0) if p.opt else None  # closing is not the subject here
    r = m.start_manager()
    S.check('GloMPO Crash' not in r.stats['end_cond'], 'normal-end')
    if not gone:
        S.cover('none')
    S.observe('gone', sorted(gone))


def harnesses(tier):
    hs = [H('silent', run, '2 optimizers falling silent, 3 rounds, any clock, any limit, threads or processes',
            {'n': 2, 'ways': ['hang', 'note', 'more'], 'rounds': 2}, must=['forced', 'none'], weight=3),
          H('victim', run, '2 optimizers, the inferior one is killed and may not react, 2 rounds',
            {'n': 2, 'ways': ['hang', 'wait'], 'kill': True, 'rounds': 2}, must=['forced-victim', 'none'], weight=3)]
    hs += [H('pause', run, '2 optimizers, silent after being paused for a checkpoint of any duration',
             {'n': 2, 'ways': ['wait'], 'rounds': 3, 'checkpoint': True}, must=['forced', 'none', 'checkpoint'], weight=2)]
    if tier == 'thorough':
        hs += [H('silent3', run, '2 optimizers, 4 rounds', {'n': 2, 'ways': ['hang', 'wait', 'more'], 'rounds': 4}, must=['forced'],
                 weight=6),
               H('victim3', run, '2 optimizers, 4 rounds', {'n': 2, 'ways': ['hang', 'wait'], 'kill': True, 'rounds': 4},
                 must=['forced-victim'], weight=6)]
    return hs
