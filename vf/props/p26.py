"""The optimizer log is complete and consistent, in memory and in the log file, in every state of the run."""
import datetime
import tempfile
import shutil
from pathlib import Path

from vf import env, world as wd
from vf.harness import H
from vf.props import mgr
from vf.props.common import IR

INFO = {
    'outside': 'more than 3 optimizers or 5 operations; more than 2 parameters; the HDF5 format itself (PyTables)',
    'assumptions': ['symbolic mode uses a stand-in for PyTables; every replay validates it against the real PyTables',
                    'results of an optimizer are not logged after its cache has been cleared (as the manager does)'],
}

T0 = datetime.datetime(2020, 1, 1)


def same_point(S, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and S.all([S.same(p, q) for p, q in zip(a, b)])


class Model:
    def __init__(self):
        self.rows = {}     # optimizer -> [(call, x, fx)]
        self.msgs = {}
        self.meta = {}
        self.all = []      # every result in order
        self.cleared = set()


def best(S, rows):
    b = None
    for r in rows:
        if r[2] < (float('inf') if b is None else b[2]):
            b = r
    return b


def look(S, log, m, file, build):
    """everything the logger answers agrees with what it has been told"""
    S.check(len(log) == len(m.all), 'total')
    S.check(log.n_optimizers == len(m.rows), 'optimizers')
    b = best(S, [(i, r[1], r[2], r[0]) for i, r in m.all])
    g = log.get_best_iter()
    if b is None:
        S.check(not g['x'] and g['fx'] == float('inf'), 'no-best-yet')
    else:
        S.check(g['opt_id'] == b[0], 'best-finder')
        S.check(same_point(S, g['x'], b[1]), 'best-point')
        S.check(S.same(g['fx'], b[2]), 'best-value')
        S.check(g['call_id'] == b[3], 'best-evaluation')
        S.check(g['type'] == f'T{b[0]}', 'best-type')
        S.cover('best')
    fin = [r[2] for _, r in m.all]
    top = log.largest_eval
    S.check(S.all([S.any([S.not_(S.isfinite(v)), v <= top]) for v in fin]), 'largest')
    S.check(S.any([S.same(top, -float('inf'))] + [S.same(v, top) for v in fin]), 'largest-is-one-of-them')
    for i in m.rows:
        kept = file or build or i not in m.cleared
        rows = m.rows[i] or []
        S.check((i in log) == (True if file else kept), 'contained')
        if m.rows[i] is None:
            S.check(not log.has_iter_history(i), 'no-history-yet')
            S.check(log.len(i) == 0 and len(log.get_history(i, 'fx')) == 0, 'empty')
        elif kept:
            S.check(log.has_iter_history(i), 'history')
            S.check(log.len(i) == len(rows), 'length')
            fx, x, c = log.get_history(i, 'fx'), log.get_history(i, 'x'), log.get_history(i, 'call_id')
            S.check(len(fx) == len(x) == len(c) == len(rows), 'history-length')
            for k, r in enumerate(rows):
                S.check(int(c[k]) == r[0], 'numbering')
                S.check(same_point(S, x[k], r[1]), 'point')
                S.check(S.same(fx[k], r[2]), 'value')
            if i in m.cleared and rows:
                S.cover('cleared')
        else:
            S.check(log.len(i) == 0 and len(log.get_history(i, 'x')) == 0, 'cleared-from-memory')
        bi = best(S, rows)
        g = log.get_best_iter(i)
        if bi is None:
            S.check(not g['x'] and g['fx'] == float('inf'), 'no-own-best')
        else:
            S.check(S.same(g['fx'], bi[2]), 'own-best-value')
            S.check(same_point(S, g['x'], bi[1]), 'own-best-point')
            S.check(g['call_id'] == bi[0] and g['opt_id'] == i, 'own-best-evaluation')
        if kept:
            for k, v in [('opt_id', i), ('opt_type', f'T{i}')] + sorted(m.meta[i].items()):
                S.check(log.get_metadata(i, k) == v, 'metadata')
            try:
                log.get_metadata(i, 'nothing')
                S.check(False, 'unknown-metadata')
            except KeyError:
                pass


def file_holds(S, path, m, extras=0, wide=False):
    """the closed log file holds everything"""
    import tables as tb
    with tb.open_file(str(path), 'r') as f:
        groups = sorted([g._v_name for g in f.iter_nodes('/', 'Group')])
        S.check(groups == sorted([f'optimizer_{i}' for i in m.rows]), 'file-optimizers')
        for i in m.rows:
            g = f.get_node('/', f'optimizer_{i}')
            rows = m.rows[i]
            if rows is None:
                S.check(f'/optimizer_{i}/iter_hist' not in f, 'file-no-table')
            else:
                t = f.get_node('/', f'optimizer_{i}/iter_hist')
                S.check(t.nrows == len(rows), 'file-rows')
                c, x, fx = t.col('call_id'), t.col('x'), t.col('fx')
                for k, r in enumerate(rows):
                    S.check(int(c[k]) == r[0], 'file-numbering')
                    S.check(same_point(S, x[k], r[1]), 'file-point')
                    S.check(S.same(fx[k], r[2]), 'file-value')
                    for j in range(extras):
                        S.check(S.same(t.col(f'result_{j}')[k], r[3][j]), 'file-details')
                if rows:
                    S.cover('rows')
                    bi = best(S, rows)
                    g0 = g._v_attrs['best_iter']
                    if bi is not None:
                        S.check(S.same(g0['fx'], bi[2]), 'file-own-best')
                        S.check(g0['call_id'] == bi[0], 'file-own-best')
            got = list(g['messages'][:])
            S.check(got == m.msgs[i], 'file-messages')
            for k, v in [('opt_id', i), ('opt_type', f'T{i}')] * (not wide) + sorted(m.meta[i].items()):
                S.check(g._v_attrs[k] == v, 'file-metadata')
        a = f.root._v_attrs
        S.check(a['f_counter'] == len(m.all), 'file-total')
        S.check(a['opts_started'] == len(m.rows), 'file-started')
        b = best(S, [(i, r[1], r[2], r[0]) for i, r in m.all])
        if b is not None:
            S.check(a['best_iter']['opt_id'] == b[0], 'file-best')
            S.check(S.same(a['best_iter']['fx'], b[2]), 'file-best')


def ops(S):
    L = env.module('glompo.core.optimizerlogger')
    file, build = S.cfg['file'], S.cfg.get('build', False)
    dims = 1
    if S.cfg.get('big'):
        env.item_size = 200_000_000
    d = Path(tempfile.mkdtemp(prefix='vf_l_'))
    S.defer(lambda: shutil.rmtree(str(d), ignore_errors=True))
    if file:
        log = L.FileLogger(dims, 10, build)
        log.open(d / 'l.h5', 'w', 'abc')
    else:
        log = L.BaseLogger(build)
    m = Model()
    n = S.cfg['opts']
    ext = S.cfg.get('extras', 0)
    for i in range(1, n + 1):
        log.add_optimizer(i, f'T{i}', T0)
        m.rows[i], m.msgs[i], m.meta[i] = None, [], {}
    for k in range(S.cfg['n']):
        op = S.pick('op', S.cfg['ops'])
        if op == 'flush':
            log.flush()
            S.cover('flush')
            continue
        if op == 'look':
            look(S, log, m, file, build)
            continue
        i = 1 + S.choice('opt', n)
        if op == 'iter':
            if i in m.cleared:
                continue
            x, fx = [S.float('x', -8, 8)], S.float('f', nan=not S.cfg.get('plain'), inf=not S.cfg.get('plain'))
            det = tuple(float(j + k) for j in range(ext))
            if m.rows[i] is None:
                heads = env.module('glompo.common.helpers').infer_headers(det) if ext else {}
                log.add_iter_history(i, heads)
                m.rows[i] = []
            log.put_iteration(IR(i, x, fx, det))
            r = (len(m.all) + 1, x, fx, det)
            m.rows[i].append(r)
            m.all.append((i, r))
        elif op == 'msg':
            log.put_message(i, f'm{k}')
            m.msgs[i].append(f'm{k}')
        elif op == 'meta':
            log.put_metadata(i, 'end_cond', f'e{k}')
            m.meta[i]['end_cond'] = f'e{k}'
            if i in m.cleared:
                S.cover('meta-after-clear')
        elif op == 'clear':
            if i in m.cleared:
                continue
            log.clear_cache(i)
            m.cleared.add(i)
    look(S, log, m, file, build)
    log.close()
    if file:
        file_holds(S, d / 'l.h5', m, ext)
    S.cover('done')


def run(S):
    """the log file of a whole run"""
    n = 2
    scripts, vals = mgr.evals(S, n, [2, 1], const=lambda i, j: S.float('f') if j == 0 else float(i))
    scripts[0].append(('conv',))
    scripts[1].append(('crash',) if S.flag('crash') else ('wait',))
    w, m = mgr.setup(S, scripts, lambda c, man: man.f_counter >= 3 or c > 10, vals)
    L = env.module('glompo.core.optimizerlogger')
    told = Model()

    class Rec(L.FileLogger):
        def add_optimizer(self, i, *a):
            told.rows[i], told.msgs[i], told.meta[i] = None, [], {}
            super().add_optimizer(i, *a)

        def put_iteration(self, r):
            if told.rows[r.opt_id] is None:
                told.rows[r.opt_id] = []
            row = (len(told.all) + 1, r.x, r.fx, r.extras)
            told.rows[r.opt_id].append(row)
            told.all.append((r.opt_id, row))
            w.record('log', r.opt_id, r)
            super().put_iteration(r)

        def put_metadata(self, i, k, v):
            if k != 'best_iter':
                told.meta[i][k] = v
            super().put_metadata(i, k, v)

        def put_message(self, i, t):
            told.msgs[i].append(t)
            super().put_message(i, t)
    m.opt_log = Rec(1, 10, False)
    w.idle_ok = lambda kind: False
    w.prompt = True
    r = m.start_manager()
    S.check('GloMPO Crash' not in r.stats['end_cond'], 'normal-end')
    for i in told.rows:
        S.check('end_cond' in told.meta[i], 'end-on-record')
    file_holds(S, w.tmp / 'glompo_log.h5', told, wide=True)
    S.cover('done')


def harnesses(tier):
    some = ('iter', 'clear', 'look')
    every = ('iter', 'msg', 'meta', 'clear', 'flush')
    hs = [H('memory', ops, 'in-memory log: any 3 operations on 2 optimizers, any values', {'file': False, 'opts': 2, 'n': 3, 'ops': some},
            must=['best', 'done'], weight=2),
          H('memory_kept', ops, 'in-memory log kept for plotting: any 3 operations', {'file': False, 'build': True, 'opts': 2, 'n': 3, 'ops': every},
            must=['best', 'cleared'], weight=2),
          H('file', ops, 'log file: any 4 operations on 2 optimizers, finite values',
            {'file': True, 'opts': 2, 'n': 4, 'ops': some, 'plain': True}, must=['best', 'cleared', 'rows'], weight=3),
          H('file_all', ops, 'log file: any 3 of all operations, any values', {'file': True, 'opts': 2, 'n': 3, 'ops': every},
            must=['best', 'flush', 'rows', 'meta-after-clear'], weight=3),
          H('file_kept', ops, 'log file and plot: any 3 operations, details of evaluations',
            {'file': True, 'build': True, 'opts': 2, 'n': 3, 'ops': ('iter', 'clear', 'flush'), 'plain': True, 'extras': 2}, must=['rows', 'cleared']),
          H('file_big', ops, 'log file, every result exceeding the buffer: any 3 operations',
            {'file': True, 'opts': 2, 'n': 3, 'ops': some, 'plain': True, 'big': True}, must=['rows', 'cleared']),
          H('run', run, 'a whole run of 2 optimizers with log file', must=['done', 'rows'])]
    if tier == 'thorough':
        hs += [H('memory5', ops, 'any 5 operations', {'file': False, 'opts': 2, 'n': 5, 'ops': some}, weight=5),
               H('file5', ops, 'any 5 operations', {'file': True, 'opts': 2, 'n': 5, 'ops': ('iter', 'clear', 'flush', 'msg'), 'plain': True}, weight=5),
               H('file3', ops, '3 optimizers, any 4 operations', {'file': True, 'opts': 3, 'n': 4, 'ops': some, 'plain': True}, weight=5)]
    return hs
