"""H23: hypergraphs that are not the same do not influence each other."""

import os
import random
import sys

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register, scratch
from gbmon.stubs import monitor, mysql_server
from gbmon.threads import together
from gbmon.checks.h_faults import Boom

H23 = register(Check(
    'H23', 'Several hypergraphs in one process (files, in memory, on the stand-in for MySQL, through buffers) over the '
    'same entities, each with its reference model: their operations are interleaved, nested in the batches and in the '
    'traversals of each other, and fail; or each one is used by a thread of its own, or each thread has its own handle '
    'on one file and its own entities. After each step the others have to be as they were. distinct_nontrivial counts '
    'distinct joint states.',
    assumptions=['the interleavings of threads are those that the interpreter makes of a very short switch interval'],
    need=['joint_audits', 'nested_batches', 'nested_failures', 'copied', 'buffers', 'threads', 'thread_steps',
          'threads_on_one_file', 'busy_threads', 'switches']))

PROBES = [hist.probe_exists, hist.probe_degree, hist.probe_star, hist.probe_timestamp, hist.probe_pattern,
          hist.probe_symbols]
STEPS = ['add', 'add_many', 'add_again', 'remove', 'remove_many', 'batch', 'remove_by_pattern', 'add_belief',
         'remove_belief', 'destroy']


def open_world(rng, obs, d, i, universe, kind=None):
    from gb.hypergraph.hypergraph import HyperGraph
    kind = kind or rng.choice(['file', 'file', 'memory', 'mysql'])
    ops = dict((k, v) for k, v in hist.DEFAULT_OPS.items() if k != 'reopen')
    obs.count('on_' + kind)
    if kind == 'mysql':
        name = 'gb%d' % i
        mysql_server.paths[name] = os.path.join(d, 'mysql%d.db' % i)
        hg = HyperGraph({'backend': 'mysql', 'host': 'localhost', 'user': 'gb', 'password': 'gb', 'db': name})
        return hist.World(rng, obs, None, hg=hg, universe=universe, ops=ops)
    path = ':memory:' if kind == 'memory' else hist.db_path(d, 'gb%d.db' % i)
    return hist.World(rng, obs, path, universe=universe, ops=ops)


def look(worlds, rng, obs, what, n=2):
    for i, w in enumerate(worlds):
        try:
            for _ in range(n):
                rng.choice(PROBES)(w)
            if rng.random() < 0.15:
                hist.full_audit(w, symbols=False)
                obs.count('joint_audits')
        except Violation as v:
            raise Violation('hypergraph %d of %d, after %s: %s' % (i, len(worlds), what, v.msg), v.witness)
    obs.seen([w.model.state() for w in worlds])


@H23.kind('interleaved', 60, 900, 'operations of several hypergraphs, interleaved and nested')
def interleaved(rng, obs, params):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    with scratch() as d:
        mysql_server.paths = {}
        mysql_server.snapshots = True
        mysql_server.without_transactions.clear()
        universe = gen.universe(rng, n_edges=rng.randint(3, 7), max_arity=3)
        worlds = [open_world(rng, obs, d, i, universe) for i in range(rng.choice([2, 2, 3, 4]))]
        for _ in range(rng.randint(6, 14)):
            a, b = rng.sample(worlds, 2)
            ia, ib = worlds.index(a), worlds.index(b)
            r = rng.random()
            if r < 0.4:
                what = '%s of %d' % (a.step(only=STEPS), ia)
            elif r < 0.7:
                what = 'a batch of %d with steps of %d' % (ia, ib)
                fails = rng.random() < 0.5
                before = a.model.copy()

                def f(hg):
                    outer, a.hg = a.hg, hg
                    try:
                        a.step(only=['add', 'add_many', 'remove', 'add_belief'])
                        b.step(only=STEPS)
                        look([b], rng, obs, 'a step inside of ' + what)
                        a.step(only=['add', 'add_many', 'remove', 'remove_belief'])
                        look([a], rng, obs, what, 1)
                    finally:
                        a.hg = outer
                    if fails:
                        raise Boom('bad')
                try:
                    a.hg.batch_exec([f])
                except Boom:
                    a.model = before
                    obs.count('nested_failures')
                    what += ' that failed'
                obs.count('nested_batches')
            elif r < 0.85:
                what = 'copying %d to %d' % (ia, ib)

                def copy(vmap):
                    v = vmap['vertex']
                    if isinstance(v, tuple):
                        b.hg.add([v], 77)
                        b.model.add([v], 77)
                        obs.count('copied')
                    return vmap['degree']
                for _ in a.hg.f_all(copy):
                    pass
            else:
                what = 'buffers of %d and %d' % (ia, ib)
                bufs = [(a, BatchHyperGraph(a.hg, rng.choice([2, 1000]))), (b, BatchHyperGraph(b.hg, rng.choice([2, 1000])))]
                for _ in range(rng.randint(2, 5)):
                    w, buf = rng.choice(bufs)
                    e = w.pick()
                    buf.add([e], 88)
                    w.model.add([e], 88)
                for _, buf in bufs:
                    buf.flush()
                obs.count('buffers')
            obs.log(what)
            look(worlds, rng, obs, what)
        for i, w in enumerate(worlds):
            try:
                hist.full_audit(w)
            except Violation as v:
                raise Violation('hypergraph %d of %d, at the end: %s' % (i, len(worlds), v.msg), v.witness)
            obs.count('joint_audits')
            if w.path is not None:
                hist.close_hg(w.hg)
        obs.sample = obs.trace[-6:]


@H23.kind('crowd', 3, 40, 'dozens of hypergraphs that are open at once')
def crowd(rng, obs, params):
    with scratch() as d:
        mysql_server.paths = {}
        mysql_server.snapshots = True
        mysql_server.without_transactions.clear()
        universe = gen.universe(rng, n_edges=5, max_arity=3)
        n = rng.choice([18, 40, 70])
        kind = rng.choice([None, 'memory', 'file', 'mysql'])
        worlds = []
        for i in range(n):
            worlds.append(open_world(rng, obs, d, i, universe, kind))
            if rng.random() < 0.5:
                worlds[-1].step(only=['add', 'add_many'])
        for _ in range(2 * n):
            w = rng.choice(worlds)
            w.step(only=STEPS)
            try:
                rng.choice(PROBES)(rng.choice(worlds))
            except Violation as v:
                raise Violation('with %d hypergraphs: %s' % (n, v.msg), v.witness)
        for i, w in enumerate(worlds):
            try:
                hist.full_audit(w)
            except Violation as v:
                raise Violation('hypergraph %d of %d, at the end: %s' % (i, n, v.msg), v.witness)
            obs.count('joint_audits')
            if w.path is not None:
                hist.close_hg(w.hg)
        obs.count('crowds')
        obs.seen([w.model.state() for w in worlds])


@H23.kind('threads', 20, 300, 'each thread with its own hypergraph')
def threads(rng, obs, params):
    with scratch() as d:
        mysql_server.paths = {}
        mysql_server.snapshots = True
        mysql_server.without_transactions.clear()
        universe = gen.universe(rng, n_edges=rng.randint(3, 6), max_arity=3)
        n = rng.choice([2, 3, 4])
        seeds = [rng.random() for _ in range(n)]
        kinds = [rng.choice(['file', 'memory', 'mysql']) for _ in range(n)]
        steps = rng.choice([8, 15])

        def work(i):
            def f(obs):
                mine = random.Random(seeds[i])
                w = open_world(mine, obs, d, i, universe, kinds[i])
                obs.count('threads')
                for _ in range(steps):
                    w.step(only=STEPS)
                    obs.count('thread_steps')
                    look([w], mine, obs, 'a step of thread %d' % i)
                hist.full_audit(w)
                obs.count('joint_audits')
                if w.path is not None:
                    hist.close_hg(w.hg)
            return f
        together(obs, [work(i) for i in range(n)])
        obs.sample = obs.trace[-6:]


@H23.kind('busy', 10, 200, 'threads that do nothing but use the code under test, and yield at random lines of it')
def busy(rng, obs, params):
    import gb.hypergraph.edge as ed
    with scratch() as d:
        mysql_server.paths = {}
        mysql_server.snapshots = True
        mysql_server.without_transactions.clear()
        works = []
        for i in range(rng.choice([2, 3])):
            # the same sizes, and other entities
            pool, edges = own_universe(rng, i)
            setup = random.Random(rng.random())
            kind = rng.choice(['file', 'memory', 'mysql'])

            def work(obs, i=i, pool=pool, edges=edges, setup=setup, kind=kind):
                w = open_world(setup, obs, d, i, (pool, edges), kind)
                half = edges[:4]
                w.hg.add(half, 5)
                w.model.add(half, 5)
                expected = []
                for v in pool[:3]:
                    expected.append((w.hg.star, v, set(w.model.star(v))))
                    expected.append((w.hg.degree, v, w.model.degree(v)))
                    if w.model.timestamp(v) == 5:
                        expected.append((w.hg.timestamp, v, 5))
                for e in edges:
                    expected.append((w.hg.exists, e, w.model.exists(e)))
                    expected.append((ed.str2edge, ed.edge2str(e), e))
                    expected.append((ed.edge2str, e, ed.edge2str(e)))
                    pat = (None,) + e[1:]
                    expected.append((w.hg.pattern2edges, pat, set(w.model.pattern2edges(pat))))
                for root in ('t%dx1' % i, 't%dx2' % i):
                    expected.append((w.hg.symbols_with_root, root, w.model.symbols_with_root(root)))
                for n in range(3):
                    for f, x, want in expected:
                        got = f(x)
                        if got != want:
                            raise Violation('%s(%r) is %r, instead of %r, while other threads use hypergraphs of their '
                                            'own' % (f.__name__, x, got, want))
                    w.hg.add(edges[4:], 6)
                    w.hg.remove(edges[4:])
                    obs.count('thread_steps', len(expected) + 2)
                # what is left is what was there at first
                for e in edges[4:]:
                    w.model.add1(e, 6)
                for e in edges[4:]:
                    w.model.remove1(e)
                sys.settrace(None)
                hist.full_audit(w, timestamps=False)
                if w.path is not None:
                    hist.close_hg(w.hg)
            works.append(work)
        together(obs, works, rng, rng.choice([0.02, 0.2]))
        obs.count('threads', len(works))
        obs.count('busy_threads', len(works))
        obs.seen((kind, rng.random()))


def own_universe(rng, i):
    """Entities that no other thread has."""
    pool = ['t%dx%d/%d' % (i, j, rng.randrange(3)) for j in range(5)] + [i * 1000 + j for j in range(2)]
    edges = []
    while len(edges) < 6:
        e = [rng.choice(pool) for _ in range(rng.choice([2, 2, 3]))]
        if edges and rng.random() < 0.3:
            e[rng.randrange(len(e))] = rng.choice(edges)
        if tuple(e) not in edges:
            edges.append(tuple(e))
    return pool, edges


@H23.kind('one_file', 12, 200, 'each thread with its own handle on one file, and its own entities')
def one_file(rng, obs, params):
    monitor.timeout = 120
    try:
        with scratch() as d:
            n = rng.choice([2, 3, 4])
            seeds = [rng.random() for _ in range(n)]
            path = hist.db_path(d)
            hist.close_hg(hist.open_hg(path))
            worlds = [None] * n
            only = ['add', 'add_many', 'add_again', 'remove', 'remove_many', 'batch']

            def work(i):
                def f(obs):
                    mine = random.Random(seeds[i])
                    w = hist.World(mine, obs, path, universe=own_universe(mine, i))
                    w.op_batch = lambda: own_batch(w)
                    # nobody knows about these
                    w.sources = ['s%d' % i]
                    worlds[i] = w
                    for _ in range(8):
                        w.step(only=only)
                        obs.count('thread_steps')
                        for _ in range(2):
                            mine.choice([hist.probe_exists, hist.probe_degree, hist.probe_star,
                                         hist.probe_timestamp])(w)
                    hist.close_hg(w.hg)
                return f

            def own_batch(w):
                parts = [w.pick() for _ in range(3)]
                ts = w.next_ts()
                w.hg.batch_exec([lambda hg, e=e: hg.add([e], ts) for e in parts])
                for e in parts:
                    w.model.add1(e, ts)
            together(obs, [work(i) for i in range(n)])
            obs.count('threads_on_one_file', n)
            hg = hist.open_hg(path)
            whole = hist.World(rng, obs, path, hg=hg, universe=worlds[0].pool and (worlds[0].pool, worlds[0].edges))
            for w in worlds[1:]:
                whole.pool += w.pool
                whole.edges = whole.edges + w.edges
            for w in worlds:
                whole.model.edges.update(w.model.edges)
                whole.model.rows.update(w.model.rows)
            hist.full_audit(whole)
            obs.count('joint_audits')
            hist.close_hg(hg)
            obs.sample = obs.trace[-6:]
    finally:
        monitor.timeout = None
