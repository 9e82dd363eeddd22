"""The results queue delivers every item exactly once and in order, whatever mode it works in."""
import queue as _queue

from vf import env
from vf.harness import H

INFO = {
    'outside': 'interleavings inside a single queue operation (they are guarded by the locks of the queue); more than 7 operations',
    'assumptions': ['operations which would have to wait are not started (the waiting itself is queue.Queue\'s)'],
}


def run(S):
    B = env.module('glompo.core._backends')
    size = S.int('max_queue_size', 1, 100) if not S.cfg.get('small') else S.int('max_queue_size', 1, 2)
    chunk = S.int('max_chunk_size', 1, 100) if not S.cfg.get('small') else S.int('max_chunk_size', 1, 3)
    q = B.ChunkingQueue(size, chunk)
    given = []      # items accepted, in order
    out = []
    n = 0
    ops = S.cfg['ops']
    last = None
    for i in range(S.cfg['n']):
        op = S.pick('op', ops)
        if op == 'nowait':
            if q.fast_func and len(q.cache) + 1 >= q.chunk_size and q.full():
                S.cover('would-wait')
                op = 'get'
            else:
                n += 1
                given.append(n)
                q.put_nowait(n)  # must not raise
                if q.fast_func:
                    S.cover('cached')
        if op == 'put':
            n += 1
            try:
                q.put(n, False)
                given.append(n)
                S.cover('put')
            except _queue.Full:
                S.cover('full')
        elif op == 'incache':
            n += 1
            given.append(n)
            q.put_incache(n)
        elif op == 'flush':
            try:
                q.flush(False)
                S.check(not q.has_cache(), 'nothing-cached-after-flush')
                S.cover('flushed')
            except _queue.Full:
                S.cover('full')
        elif op == 'get':
            try:
                c = q.get(False)
                S.check(isinstance(c, list), 'chunks')
                out += c
                S.cover('got')
            except _queue.Empty:
                S.check(q.empty(), 'empty')
        S.check(out == given[:len(out)], 'in-order-exactly-once')
        S.check(q.qsize() <= size, 'size-limit')
        if not q.has_cache() and q.empty():
            S.check(len(out) == len(given), 'nothing-missing')
    # drain
    for _ in range(40):
        try:
            out += q.get(False)
        except _queue.Empty:
            if not q.has_cache():
                break
            q.flush(False)
    S.check(out == given, 'all-delivered-once-in-order')
    S.observe('n', len(out))


def limit(S):
    """results are held back at most until the chunk is full"""
    B = env.module('glompo.core._backends')
    size, chunk = S.int('max_queue_size', 1, 3), S.int('max_chunk_size', 1, 3)
    q = B.ChunkingQueue(size, chunk)
    put = got = 0
    for i in range(S.cfg['n']):
        if q.fast_func and len(q.cache) + 1 >= q.chunk_size and q.full() or S.flag('get'):
            if q.empty():
                continue
            got += len(q.get(False))
        else:
            q.put_nowait(i)
            put += 1
        S.check(len(q.cache) < q.chunk_size or q.chunk_size <= 1, 'held-back-less-than-a-chunk')
        held = put - got - sum([len(c) for c in list(q.queue)])
        S.check(held == len(q.cache), 'accounted')
        if not q.full() and not q.fast_func:
            S.check(not q.cache, 'not-held-back-without-need')
        if q.fast_func:
            S.cover('fast')
    S.cover('done')


def harnesses(tier):
    ops = ('nowait', 'put', 'flush', 'get')
    hs = [H('sequences', run, 'any 5 operations, any queue and chunk size up to 100', {'n': 5, 'ops': ops},
            must=['cached', 'put', 'full', 'flushed', 'got'], weight=3),
          H('small', run, 'any 6 operations on queues up to 2 and chunks up to 3', {'n': 6, 'ops': ('nowait', 'put', 'get'), 'small': True},
            must=['cached', 'put', 'full', 'got', 'would-wait'], weight=3),
          H('cache', run, 'any 5 operations with explicit caching', {'n': 5, 'ops': ('incache', 'nowait', 'flush', 'get'), 'small': True},
            must=['cached', 'flushed', 'got'], weight=2),
          H('limit', limit, '8 operations', {'n': 8}, must=['done', 'fast'])]
    if tier == 'thorough':
        hs += [H('sequences7', run, 'any 7 operations', {'n': 7, 'ops': ops, 'small': True}, must=['cached'], weight=6),
               H('limit12', limit, '12 operations', {'n': 12}, must=['fast'], weight=3)]
    return hs
