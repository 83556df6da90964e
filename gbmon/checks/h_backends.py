"""H15: the SQL backends are interchangeable. H16: the null backend stores nothing. H20: buffered additions."""

import itertools

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register, scratch
from gbmon.model import Model, key, same_edge_set, tup
from gbmon.stubs import monitor, mysql_server
from gbmon.checks.h_faults import Boom, Injected, Injector, caught_history, check_state, large_op, random_op

H15 = register(Check(
    'H15', 'The histories of the other properties are run on the MySQL backend, over a stand-in for the server (the '
    'statements run on SQLite, with the parameter style, autocommit, row counts, buffered results and errors of '
    'MySQL), and each answer is compared with the same reference model as for SQLite; batches that raise and '
    'injected database errors have to leave no trace, and a new connection has to see everything. '
    'distinct_nontrivial counts distinct states of the model.',
    assumptions=['a stand-in and not a MySQL server: collation, key prefixes and isolation levels are not judged'],
    need=['mysql_operations', 'mysql_failed_batches', 'mysql_reconnections', 'mysql_faults']))


def mysql_hg(d, name='gbtest'):
    from gb.hypergraph.hypergraph import HyperGraph
    mysql_server.paths = {name: hist.db_path(d, 'mysql.db')}
    mysql_server.snapshots = True
    mysql_server.without_transactions.clear()
    return HyperGraph({'backend': 'mysql', 'host': 'localhost', 'user': 'gb', 'password': 'gb', 'db': name})


PROBES = [hist.probe_exists, hist.probe_degree, hist.probe_star, hist.probe_timestamp, hist.probe_pattern,
          hist.probe_symbols]


@H15.kind('histories', 150, 2500, 'histories, probed at each step, with reconnections')
def h15(rng, obs, params):
    with scratch() as d:
        w = hist.World(rng, obs, None, hg=mysql_hg(d), ops=dict(
            (k, v) for k, v in hist.DEFAULT_OPS.items() if k != 'reopen'))
        for _ in range(rng.choice([10, 20, 40])):
            w.step()
            obs.count('mysql_operations')
            for _ in range(2):
                rng.choice(PROBES)(w)
            if rng.random() < 0.1:
                w.hg = mysql_hg(d)
                obs.log('reconnect')
                obs.count('mysql_reconnections')
            if rng.random() < 0.1:
                hist.probe_vertices(w)
        hist.full_audit(w)
        w.hg = mysql_hg(d)
        hist.full_audit(w)
        obs.count('mysql_reconnections')
        obs.sample = obs.trace[:20]


@H15.kind('crowd', 4, 30, 'more than a thousand edges around one entity')
def h15_crowd(rng, obs, params):
    with scratch() as d:
        w = hist.crowd(rng, obs, None, hg=mysql_hg(d), n=rng.choice([1001, 1100, 2050, 2600]))
        hist.full_audit(w)
        w.do('remove_by_pattern', (None, w.hub))
        hist.full_audit(w)
        w.hg = mysql_hg(d)
        hist.full_audit(w)
        obs.count('mysql_reconnections')
        obs.sample = obs.trace[:2]


@H15.kind('caught', 20, 300, 'operations of a batch that fail, and whose exceptions are caught by the functions')
def h15_caught(rng, obs, params):
    with scratch() as d:
        w = hist.World(rng, obs, None, hg=mysql_hg(d))
        for _ in range(rng.randint(0, 8)):
            w.step(only=['add', 'add_many', 'remove', 'add_belief', 'batch'])
        caught_history(rng, obs, w, mysql_server, [mysql_hg(d)])
        obs.sample = obs.trace[-6:]


@H15.kind('failures', 80, 1200, 'batches that raise, and injected errors')
def h15_failures(rng, obs, params):
    with scratch() as d:
        w = hist.World(rng, obs, None, hg=mysql_hg(d))
        for _ in range(rng.randint(0, 8)):
            w.step(only=['add', 'add_many', 'remove', 'add_belief', 'batch'])
        other = mysql_hg(d)
        for _ in range(3):
            parts = [random_op(w, rng) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.06:
                parts.insert(0, large_op(w, rng))
                obs.count('mysql_large_operations')
            if rng.random() < 0.5:
                at = rng.randint(0, len(parts))
                exc = Boom('x')

                def bad(hg):
                    raise exc
                funs = [f for _, f in parts]
                funs.insert(at, bad)
                try:
                    w.hg.batch_exec(funs)
                    raise Violation('batch_exec does not let the exception of a function through')
                except Boom:
                    pass
                obs.count('mysql_failed_batches')
            else:
                name, op = parts[0]
                after = w.model.copy()
                op(after)
                inj = Injector(rng.randint(1, rng.choice([30, 30, 3000])), rng.choice(['before', 'after']))
                mysql_server.listener = inj
                try:
                    op(w.hg)
                    w.model = after
                except Injected:
                    obs.count('mysql_faults')
                finally:
                    mysql_server.listener = None
            obs.seen((w.model.state(), [p[0] for p in parts]))
            check_state(w, w.model, 'mysql, after a failure in %r' % ([p[0] for p in parts],))
            check_state(w, w.model, 'mysql, another connection, after a failure', other)
            w.step(only=['add', 'remove', 'batch'])
            check_state(w, w.model, 'mysql, another connection, after the next step', other)
        obs.sample = obs.trace[-6:]


H16 = register(Check(
    'H16', 'Histories of every operation on the null backend, also through batches, beliefs and buffered additions: '
    'every query has to answer as for an empty hypergraph, additions give back what they were given, nothing is '
    'raised. distinct_nontrivial counts distinct (operation, argument) pairs.', need=['null_queries']))


@H16.kind('histories', 120, 1500, 'histories on the null backend')
def h16(rng, obs, params):
    from gb.hypergraph.hypergraph import HyperGraph
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    import gb.hypergraph.queries as queries
    hg = HyperGraph({'backend': 'null'})
    w = hist.World(rng, obs, None, hg=hg)
    for _ in range(25):
        name = rng.choice(['add', 'add_many', 'remove', 'remove_by_pattern', 'add_belief', 'remove_belief', 'destroy',
                           'batch', 'buffered'])
        e = w.form(w.pick())
        es = [w.form(w.pick()) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.2:
            # permutations are not a matter here
            e = w.form(tuple(rng.choice(w.vertices()) for _ in range(rng.choice([1, 7, 12, 40]))))
            es.append(e)
        obs.log(name, e, es)
        obs.seen((name, e, es))
        if name == 'add':
            if hg.add(e, w.next_ts()) is not e:
                raise Violation('null: add does not give the edge back')
        elif name == 'add_many':
            if hg.add(es, w.next_ts()) is not es:
                raise Violation('null: add does not give the edges back')
        elif name == 'remove':
            hg.remove(e)
            hg.remove(es)
        elif name == 'remove_by_pattern':
            hg.remove_by_pattern(w.pattern())
        elif name == 'add_belief':
            hg.add_belief(rng.choice(w.sources), es, 5)
        elif name == 'remove_belief':
            hg.remove_belief(rng.choice(w.sources), e)
        elif name == 'destroy':
            hg.destroy()
        elif name == 'batch':
            hg.batch_exec([lambda h: h.add([e]), lambda h: h.remove([e])])
        else:
            b = BatchHyperGraph(hg, rng.choice([0, 1, 1000]))
            b.add(es)
            b.add_belief('x', [e])
            b.flush()
        for _ in range(3):
            v = rng.choice(w.vertices())
            null_answers(hg, w, rng, w.form(v), w.form(w.pick()))
            obs.count('null_queries')
    if rng.random() < 0.2:
        got = queries.intersect(hg, [x for x in w.pool[:2]])
        if list(got):
            raise Violation('null: intersect gives %r' % (got,))
    obs.sample = obs.trace[:10]


@H16.kind('large', 2, 20, 'thousands of edges on the null backend')
def h16_large(rng, obs, params):
    from gb.hypergraph.hypergraph import HyperGraph
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    hg = HyperGraph({'backend': 'null'})
    w = hist.World(rng, obs, None, hg=hg)
    for n in (99, 130, 1001, 2600, 11000):
        es = [('e/%d' % (i % 7), i, w.pool[0]) for i in range(n)]
        given = list(es)
        got = hg.add(es, 5)
        if got is not es and got != given or es != given:
            raise Violation('null: adding %d edges gives back %d' % (n, len(got)))
        hg.add_belief('s', es, 5)
        buf = BatchHyperGraph(hg)
        buf.add(es, 7)
        buf.add_belief('s', es, 7)
        buf.flush()
        hg.batch_exec([lambda h, e=e: h.add([e]) for e in es])
        null_answers(hg, w, rng, w.pool[0], es[0])
        hg.remove(es)
        hg.remove_by_pattern((None, None, w.pool[0]))
        obs.count('null_queries')
        obs.seen(('many', n))
    for _ in range(3000):
        null_answers(hg, w, rng, rng.choice(w.vertices()), w.pick())
    hg.destroy()


def null_answers(hg, w, rng, v, e):
    if hg.exists(e):
        raise Violation('null: exists(%r)' % (e,))
    pat = w.pattern()
    for name, got in (('pattern2edges', hg.pattern2edges(pat)), ('star', hg.star(v)),
                      ('star', hg.star(e)),
                      ('symbols_with_root', hg.symbols_with_root(rng.choice(['a', '', '7', 'http:', '\u65e5', 'x' * 99, 'a(b']))),
                      ('sources', hg.sources(e)), ('ego', hg.ego(tup(v), rng.choice([0, 1, 2, 9]))), ('ego', hg.ego(tup(e), 2))):
        if not isinstance(got, (set, frozenset)) or got:
            raise Violation('null: %s is %r' % (name, got))
        if isinstance(got, set) and rng.random() < 0.3:
            # what was returned belongs to the caller
            got.add(e if isinstance(e, tuple) and not any(isinstance(x, list) for x in e) else 'x')
    if hg.degree(v) != 0 or hg.degree(e) != 0:
        raise Violation('null: degree is not 0')
    if hg.timestamp(v) != -1 or hg.timestamp(e) != -1:
        raise Violation('null: timestamp is not -1')
    all_vertices = hg.f_all(lambda x: x)
    if list(all_vertices):
        raise Violation('null: f_all finds vertices')
    if isinstance(all_vertices, list):
        all_vertices.append({'vertex': v, 'degree': 1})


H20 = register(Check(
    'H20', 'Sequences of additions and beliefs (single, collections, with and without timestamps) through a buffered '
    'hypergraph with limits from 0 to 1000, flushed at random: at each flush the hypergraph has to be as if they had '
    'been made one by one without a buffer; at most as many edges as the limit wait; a flush that fails (injected '
    'error) loses nothing when repeated; a batch that fails takes back what it added, and nothing that waited before. distinct_nontrivial counts distinct states of the model.',
    assumptions=['reads go straight to the hypergraph: they do not see what waits'],
    need=['flushes', 'automatic_flushes', 'failed_flushes', 'buffered_edges', 'failed_batches',
          'buffered_remove', 'buffered_destroy', 'buffered_remove_belief', 'buffered_remove_by_pattern']))


@H20.kind('sequences', 240, 4000, 'buffered additions, flushed at random')
def h20(rng, obs, params):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    w = hist.World(rng, obs)
    limit = rng.choice([0, 1, 2, 3, 5, 10, 1000])
    b = BatchHyperGraph(w.hg, limit) if limit != 1000 or rng.random() < 0.5 else BatchHyperGraph(w.hg)
    pending = []       # (edge, ts) since the last flush
    splits = [0]       # how many of them may already have been flushed automatically
    obs.log('limit', limit)
    faults = rng.random() < 0.3
    for _ in range(rng.choice([5, 15, 40])):
        r = rng.random()
        ts = w.next_ts()
        if r < 0.4:
            e = w.form(w.pick())
            if isinstance(e[0], (list, tuple)):
                e = [e]
            what, arg = 'add', e
        elif r < 0.6:
            what, arg = 'add', [w.form(w.pick()) for _ in range(rng.choice([1, 2, 3, 4, 12]))]
            if rng.random() < 0.5:
                arg = tuple(arg)
        elif r < 0.8:
            what, arg = 'add_belief', w.belief_args()
        else:
            what, arg = 'flush', None
        failed = False
        inj = None
        if faults and rng.random() < 0.5:
            inj = Injector(rng.randint(1, 25), rng.choice(['before', 'after']))
        obs.log(what, arg, ts, inj is not None)
        if what == 'flush':
            fts = rng.choice([-1, w.next_ts()])
            monitor.listener = inj
            try:
                if fts == -1 and rng.random() < 0.5:
                    b.flush()
                else:
                    b.flush(fts)
            except Injected:
                failed = True
            finally:
                monitor.listener = None
            if failed:
                obs.count('failed_flushes')
                # nothing was lost: it can be repeated, until it goes through
                b.flush(fts)
            settle(w, pending, splits, fts, 'after flush')
            pending, splits = [], [0]
            obs.count('flushes')
            # nothing waits: what is removed now has to stay removed
            for _ in range(rng.choice([0, 0, 1, 3])):
                e = tup(w.pick())
                obs.log('remove', e)
                (b if rng.random() < 0.5 else w.hg).remove([w.form(e)])
                w.model.remove([e])
                obs.count('removals')
        else:
            from gbmon.model import collection
            if what == 'add':
                new = [(tup(e), ts) for e in collection(arg)]
            else:
                src, es = arg
                new = []
                for e in collection(es):
                    new += [(tup(e), ts), (('src/1', tup(e), tup(src)), ts)]
            pending += new
            obs.count('buffered_edges', len(new))
            # automatic flushes are not made to fail here: whether the call that fails has taken its edges is open
            if what == 'add':
                got = b.add(arg, ts) if ts != -1 or rng.random() < 0.5 else b.add(arg)
            else:
                b.add_belief(arg[0], arg[1], ts) if ts != -1 or rng.random() < 0.5 else b.add_belief(arg[0], arg[1])
            # it may have flushed on its own: everything up to some point
            there = [w.hg.exists(e) for e, _ in pending]
            old = [w.model.exists(e) for e, _ in pending]
            if any(t and not o for t, o in zip(there, old)):
                obs.count('automatic_flushes')
            missing = set(key(e) for (e, _), t in zip(pending, there) if not t)
            if len(missing) > limit:
                raise Violation('%d edges are waiting, more than the limit of %d' % (len(missing), limit))
            splits = []
            for k in range(len(pending) + 1):
                done = set(key(e) for e, _ in pending[:k])
                if all(t == (o or key(e) in done) for (e, _), t, o in zip(pending, there, old)):
                    splits.append(k)
            if not splits:
                raise Violation('the edges that are in the hypergraph are not the first ones that were added: %r' % (
                    list(zip([e for e, _ in pending], there)),))
            if splits == [len(pending)]:
                settle(w, pending, splits, -1, 'after an automatic flush')
                pending, splits = [], [0]
        obs.seen((w.model.state(), len(pending)))
    b.flush()
    settle(w, pending, splits, -1, 'after the last flush')
    b.flush()
    audit_buffered(w, 'after flushing nothing')
    obs.sample = obs.trace[:20]


def settle(w, pending, splits, fts, what):
    """The pending edges were all added, one by one, the ones before the split by automatic flushes."""
    models = {}
    for k in splits:
        m = w.model.copy()
        for i, (e, ets) in enumerate(pending):
            m.add1(e, fts if ets == -1 and i >= k else ets)
        models[m.state()] = m
    wrong = None
    for m in models.values():
        w.model = m
        try:
            audit_buffered(w, what)
            return
        except Violation as v:
            wrong = v
    raise wrong


def audit_buffered(w, what):
    try:
        hist.full_audit(w, symbols=False)
    except Violation as v:
        raise Violation('%s: %s' % (what, v.msg), v.witness)


@H20.kind('batches', 120, 2000, 'additions, removals and batches on a buffered hypergraph, and batches that fail')
def h20_batches(rng, obs, params):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    from gbmon.model import collection
    w = hist.World(rng, obs)
    limit = rng.choice([0, 1, 2, 3, 5, 8, 1000])
    b = BatchHyperGraph(w.hg, limit)
    obs.log('limit', limit)

    def behind():
        return set().union(*[w.hg.pattern2edges((None,) * n) for n in range(1, 6)]), \
            dict((key(m['vertex']), m['degree']) for m in w.hg.f_all(lambda m: m))

    def do(hg, name, *args):
        obs.log(name, *args)
        getattr(hg, name)(*args)
        getattr(w.model, name)(*args)
        obs.count('buffered_' + name)

    def some(hg):
        for _ in range(rng.choice([0, 1, 2, 4])):
            r = rng.random()
            if r < 0.45:
                es = [w.form(w.pick()) for _ in range(rng.choice([1, 1, 2, 5]))]
                do(hg, 'add', es, w.next_ts())
                obs.count('buffered_edges', len(es))
            elif r < 0.65:
                src, es = w.belief_args()
                do(hg, 'add_belief', src, es, w.next_ts())
                obs.count('buffered_edges', 2 * len(collection(es)))
            elif r < 0.8:
                do(hg, 'remove', [w.form(w.present() if w.model.edges and rng.random() < 0.8 else w.pick())
                                  for _ in range(rng.choice([1, 1, 3]))])
            elif r < 0.88:
                e = w.present() if w.model.edges else w.pick()
                srcs = w.model.sources(e) or ['mary/1']
                do(hg, 'remove_belief', rng.choice(srcs), w.form(e))
            elif r < 0.97:
                e = list(w.present() if w.model.edges else w.pick())
                e[rng.randrange(len(e))] = None
                if all(x is None for x in e):
                    continue
                do(hg, 'remove_by_pattern', e)
            else:
                do(hg, 'destroy')

    def batch(hg, depth):
        boom = rng.choice([Boom('x'), KeyboardInterrupt(), ValueError('y')]) if rng.random() < 0.5 else None
        before, model = behind(), w.model.copy()

        def nested(hg):
            if depth < 2 and rng.random() < 0.5:
                batch(hg, depth + 1)
                some(hg)

        def last(hg):
            if boom is not None:
                obs.log('raises')
                raise boom
        obs.log('batch')
        try:
            hg.batch_exec([some, nested, last] + [some] * rng.randint(0, 1))
        except BaseException as e:
            if e is not boom:
                raise
            w.model = model
            obs.count('failed_batches')
            if behind() != before:
                raise Violation('a batch of a buffered hypergraph that failed left a trace: %r' % (
                    sorted(map(repr, behind()[0] ^ before[0]))[:5],))
        else:
            if boom is not None:
                raise Violation('the exception of a function is not let through')
            obs.count('batches_gone_through')

    for _ in range(rng.choice([2, 4, 8])):
        r = rng.random()
        if r < 0.5:
            some(b)
        elif r < 0.85:
            batch(b, 0)
        else:
            b.flush()
            obs.count('flushes')
        if rng.random() < 0.2:
            b.flush()
            audit_buffered(w, 'after a flush')
        obs.seen(w.model.state())
    b.flush()
    audit_buffered(w, 'after operations on a buffered hypergraph')
    obs.sample = obs.trace[:20]


@H20.kind('large', 6, 40, 'thousands of edges with the default limit')
def h20_large(rng, obs, params):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    w = hist.World(rng, obs, universe=(['a', 'b', 'rel/1'], [('rel/1', 'a', 'b')]))
    b = BatchHyperGraph(w.hg)
    n = rng.randint(1001, 2600)
    edges = [('rel/1', 'n%d' % (i // 3), 'm%d' % i) for i in range(n)]
    i = 0
    while i < n:
        k = rng.choice([1, 1, 1, 7, 300])
        if k == 1:
            b.add(edges[i], 5)
        else:
            b.add(edges[i:i + k], 5)
        i += k
        if i > 1000:
            obs.count('automatic_flushes')
    visible = w.hg.degree('rel/1')
    if n - visible > 1000:
        raise Violation('%d edges are waiting, more than the limit of 1000' % (n - visible))
    b.flush()
    obs.count('flushes')
    obs.seen(n)
    if w.hg.degree('rel/1') != n:
        raise Violation('%d of %d edges are in the hypergraph after the flush' % (w.hg.degree('rel/1'), n))
    # more at once than fit, and flushes that fail
    more = [('rel/1', 'p%d' % i, 'q') for i in range(rng.choice([700, 1500, 2600]))]
    b = BatchHyperGraph(w.hg, len(more) if rng.random() < 0.7 else 10 ** 6)
    for i in range(0, len(more), 100):
        b.add(more[i:i + 100], 5)
    edges = edges + more
    for _ in range(rng.choice([1, 2])):
        inj = Injector(int(10 ** rng.uniform(0, 4.3)), rng.choice(['before', 'after']))
        monitor.listener = inj
        try:
            b.flush()
        except Injected:
            obs.count('failed_flushes')
        finally:
            monitor.listener = None
    b.flush()
    if w.hg.degree('q') != len(more):
        raise Violation('%d of %d edges are in the hypergraph after flushes that failed and one that did not' % (
            w.hg.degree('q'), len(more)))
    got = w.hg.pattern2edges((None, None, None))
    if got != set(edges):
        raise Violation('the edges are not the ones that were added: %r' % (list(got ^ set(edges))[:5],))
    for e in rng.sample(edges, 30):
        if w.hg.timestamp(e) != 5 or w.hg.timestamp(e[2]) != 5:
            raise Violation('timestamp of %r is %r' % (e, w.hg.timestamp(e)))
    obs.sample = n
