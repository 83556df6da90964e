"""H10: an operation that fails leaves no trace, whatever made it fail and wherever."""

import sqlite3

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register, scratch
from gbmon.model import Model, same_edge_set
from gbmon.stubs import monitor, _real_connect

H10 = register(Check(
    'H10', 'After a random history one operation (add, remove, collections, patterns, beliefs, batch, destroy) is made to fail: '
    'a database error is injected before or after its k-th statement, fetch or commit, for every k until it goes '
    'through; or an exception in a function of the batch, an invalid edge in the collection, a lock held by another '
    'connection, an interrupt, a full database. After each failure the handle, and another one on the same file, have '
    'to observe exactly the state before; and when it goes through, the state after. distinct_nontrivial counts '
    'distinct (state, operation, fault point) triples.', level='fault_enumeration',
    assumptions=['errors are injected at the interface of the database; the rollback itself does not fail'],
    need=['faults_raised', 'audits_after_fault', 'functions_raised', 'operations_gone_through', 'caught']))


class Injected(sqlite3.OperationalError):
    pass


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class BadElement(object):
    """Not something that can be part of an edge."""

    def __str__(self):
        raise Boom('bad element')

    __repr__ = object.__repr__


class Injector(object):
    """Raises a database error at the k-th event."""

    def __init__(self, k, when):
        self.k = k
        self.when = when
        self.n = 0
        self.fired = None

    def __call__(self, kind, sql, when):
        if when != self.when:
            return
        word = sql.strip().split(' ')[0].upper() if sql.strip() else ''
        if word in ('ROLLBACK',):
            return
        if when == 'after' and (kind == 'commit' or word in ('COMMIT', 'END', 'RELEASE')):
            return
        self.n += 1
        if self.n == self.k:
            self.fired = (kind, sql)
            raise Injected('injected: disk I/O error')


def observe(hg, w):
    """All that can be observed about the universe."""
    res = {}
    for n in range(1, 7):
        res['edges', n] = frozenset(hg.pattern2edges((None,) * n))
    for v in w.vertices():
        res['v', repr(v)] = (hg.degree(v), hg.timestamp(v))
    res['vertices'] = frozenset(repr((vm['vertex'], vm['degree'])) for vm in hg.f_all(lambda x: x))
    return res


def check_state(w, model, what, hg=None):
    """Against the model."""
    old = w.hg, w.model
    w.hg = hg or w.hg
    w.model = model
    try:
        hist.full_audit(w, symbols=False)
    except Violation as v:
        raise Violation('%s: %s' % (what, v.msg), v.witness)
    finally:
        w.hg, w.model = old
    w.obs.count('audits_after_fault')


def random_op(w, rng, large=True):
    """A top level operation as a function of a hypergraph (the real one or the model)."""
    r = rng.random()
    ts = w.next_ts()
    if r < 0.2:
        e = w.form(w.pick())
        return 'add %r' % (e,), lambda hg: hg.add([e], ts)
    if r < 0.4:
        es = [w.form(w.pick()) for _ in range(rng.randint(2, 4))]
        return 'add %r' % (es,), lambda hg: hg.add(es, ts)
    if r < 0.5:
        e = w.form(w.present())
        return 'remove %r' % (e,), lambda hg: hg.remove([e])
    if r < 0.62:
        es = [w.form(w.present()) for _ in range(rng.randint(2, 4))]
        return 'remove %r' % (es,), lambda hg: hg.remove(es)
    if r < 0.72:
        src, es = w.belief_args()
        return 'add_belief %r %r' % (src, es), lambda hg: hg.add_belief(src, es, ts)
    if r < 0.82:
        cands = [e for e in w.model.edges.values() if w.model.sources(e)]
        e = rng.choice(cands) if cands else w.pick()
        srcs = w.model.sources(e)
        src = rng.choice(srcs) if srcs else rng.choice(w.sources)
        return 'remove_belief %r %r' % (src, e), lambda hg: hg.remove_belief(src, e)
    if r < 0.86:
        return 'destroy', lambda hg: hg.destroy()
    if r < 0.93:
        pat = list(w.form(w.present()) if w.model.edges else w.pick())
        for i in rng.sample(range(len(pat)), rng.randint(1, len(pat))):
            pat[i] = None
        if rng.random() < 0.5:
            pat = tuple(pat)
        return 'remove_by_pattern %r' % (pat,), lambda hg: hg.remove_by_pattern(pat)
    if not large:
        e = w.form(w.pick())
        return 'add %r' % (e,), lambda hg: hg.add([e], ts)
    parts = [random_op(w, rng) for _ in range(rng.randint(1, 4))]

    def batch(hg):
        if isinstance(hg, Model):
            for _, f in parts:
                f(hg)
        else:
            hg.batch_exec([f for _, f in parts])
    return 'batch %s' % [p[0] for p in parts], batch


def large_op(w, rng, n=None):
    """An operation of a hundred edges or many more, or with an edge of hundreds of permutations: whatever is done in
    portions has more than one."""
    n = n or rng.choice([101, 120, 257, 300, 513] * 3 + [1030, 2100])
    hub = rng.choice([x for x in w.pool if not isinstance(x, tuple)])
    ts = w.next_ts()
    mark = rng.choice('pqr')
    edges = [('many/1', hub, '%s%d' % (mark, i)) if i % 3 else ('%s/%d' % (mark, i), hub) for i in range(n)]
    many = [e for e in w.model.edges.values() if e[0] == 'many/1' or str(e[0])[1:2] == '/']
    r = rng.random()
    w.edges += rng.sample(edges, 4)
    if many and len(many) > 90 and r < 0.5:
        edges = rng.sample(many, len(many) - rng.randint(0, 5))
        if r < 0.25:
            return 'remove %d edges' % len(edges), lambda hg: hg.remove(edges)
        if r < 0.4:
            def remove(hg):
                one_by_one(hg, [lambda hg, e=e: hg.remove(e) for e in edges])
            return 'remove %d edges in a batch' % len(edges), remove
        return 'destroy', lambda hg: hg.destroy()
    r = rng.random()
    if r < 0.3:
        return 'add %d edges' % n, lambda hg: hg.add(edges, ts)
    if r < 0.5:
        def add(hg):
            one_by_one(hg, [lambda hg, e=e: hg.add([e], ts) for e in edges])
        return 'add %d edges in a batch' % n, add
    if r < 0.6:
        return 'state %d edges' % n, lambda hg: hg.add_belief('mary/1', edges, ts)
    if r < 0.7:
        mixed = [random_op(w, rng, large=False) for _ in range(rng.randint(60, 160))]

        def batch(hg):
            one_by_one(hg, [op for _, op in mixed])
        return 'batch of %d' % len(mixed), batch
    wide = tuple(rng.choice(w.pool) for _ in range(rng.choice([5, 6, 6])))
    few = [w.pick() for _ in range(rng.randint(1, 3))]
    es = few + [wide] + [w.pick(), edges[0]]
    w.edges.append(wide)
    if r < 0.9:
        return 'add %r' % (es,), lambda hg: hg.add(es, ts)

    def both(hg):
        one_by_one(hg, [lambda hg: hg.add(es, ts), lambda hg: hg.remove([es[0]]), lambda hg: hg.remove([wide])])
    return 'add and remove %r' % (es,), both


def one_by_one(hg, funs):
    if isinstance(hg, Model):
        for f in funs:
            f(hg)
    else:
        hg.batch_exec(funs)


def start(rng, obs, d, n=None, max_arity=4, nest=None):
    path = hist.db_path(d)
    w = hist.World(rng, obs, path, universe=gen.universe(rng, n_edges=rng.randint(3, 7), max_arity=max_arity, nest=nest))
    ops = ['add', 'add_many', 'remove', 'add_belief', 'batch', 'remove_many']
    for _ in range(n or rng.randint(0, 10)):
        w.step(only=ops)
    return w


@H10.kind('statements', 120, 1500, 'an error before or after each statement of an operation, one after the other')
def statements(rng, obs, params):
    with scratch() as d:
        w = start(rng, obs, d, max_arity=rng.choice([2, 3, 3, 4]))
        other = hist.open_hg(w.path)
        for _ in range(rng.choice([1, 2, 3])):
            name, op = random_op(w, rng)
            obs.log('operation under faults', name)
            modes = ['before', 'after']
            rng.shuffle(modes)
            gone = False
            for when in modes:
                after = w.model.copy()
                op(after)
                k = 1
                while not gone and k < 2000:
                    inj = Injector(k, when)
                    monitor.listener = inj
                    raised = None
                    try:
                        op(w.hg)
                    except Exception as e:
                        raised = e
                    finally:
                        monitor.listener = None
                    if raised is not None and inj.fired is None:
                        raise raised
                    if raised is None:
                        # no fault, or one that the operation survived
                        if inj.fired is not None:
                            obs.count('faults_survived')
                        check_state(w, after, 'after %s went through (fault: %r)' % (name, inj.fired))
                        check_state(w, after, 'other handle, after %s went through' % name, other)
                        gone = True
                        break
                    obs.count('faults_raised')
                    obs.count('fault_in_%s' % inj.fired[0])
                    obs.seen((w.model.state(), name, k, when))
                    what = 'after %s failed at its %d-th point (%s %r)' % (name, k, when, inj.fired)
                    if k <= 12 or k % 5 == 0:
                        check_state(w, w.model, what)
                        if k % 3 == 1:
                            check_state(w, w.model, 'other handle, ' + what, other)
                    if k > 12:
                        k += rng.choice([1, 1, 2, 5, 11])
                    else:
                        k += 1
                if when == modes[0] and gone:
                    # undo what went through, so that the other mode starts from the same state
                    if rng.random() < 0.5:
                        break
                    restore(w)
                    gone = False
            if gone:
                w.model = after
            obs.count('operations_gone_through')
        # the handle goes on working
        for _ in range(3):
            w.step()
        check_state(w, w.model, 'after going on')
        hist.close_hg(other)
        w.op_reopen()
        check_state(w, w.model, 'after reopening')
        hist.close_hg(w.hg)
        obs.sample = obs.trace[-8:]


def restore(w):
    """Back to the edges of w.model (the timestamps are new, and nothing lingers)."""
    w.hg.destroy()
    edges = list(w.model.edges.values())
    w.model = Model()
    for e in edges:
        ts = w.next_ts()
        w.hg.add([e], ts)
        w.model.add([e], ts)


@H10.kind('large', 8, 100, 'operations of hundreds of edges, that fail late')
def large(rng, obs, params):
    with scratch() as d:
        w = start(rng, obs, d, n=3)
        other = hist.open_hg(w.path)
        for _ in range(rng.choice([1, 2, 2])):
            name, op = large_op(w, rng)
            obs.log('operation under faults', name)
            after = w.model.copy()
            op(after)
            # all of it is undone, and its statements counted
            inj = Injector(10 ** 9, 'before')
            monitor.listener = inj
            boom = Boom('late')

            def bad(hg):
                raise boom
            try:
                w.hg.batch_exec([op, bad])
                raise Violation('batch_exec does not let the exception of a function through')
            except Boom:
                obs.count('functions_raised')
            finally:
                monitor.listener = None
            check_state(w, w.model, 'after a batch with %s that raised' % name)
            check_state(w, w.model, 'other handle, after a batch with %s that raised' % name, other)
            if name.startswith(('add', 'state')) and ' edges' in name:
                es = [e for k, e in after.edges.items() if k not in w.model.edges] + [None]
                try:
                    w.hg.add(es)
                    obs.count('invalid_accepted')
                    return
                except Exception:
                    obs.count('invalid_rejected')
                check_state(w, w.model, 'after an addition of %d edges with an invalid one at the end' % len(es))
            total = inj.n
            points = [rng.randint(1, total) for _ in range(3)] + [total - rng.randint(0, min(20, total - 1))]
            for k in points:
                inj = Injector(k, rng.choice(['before', 'after']))
                monitor.listener = inj
                raised = None
                try:
                    op(w.hg)
                except Injected as e:
                    raised = e
                finally:
                    monitor.listener = None
                if raised is None:
                    check_state(w, after, 'after %s went through (fault: %r)' % (name, inj.fired))
                    w.model = after
                    break
                obs.count('faults_raised')
                obs.seen((w.model.state(), name, k))
                what = 'after %s failed at point %d of about %d (%r)' % (name, k, total, inj.fired)
                check_state(w, w.model, what)
                check_state(w, w.model, 'other handle, ' + what, other)
            else:
                op(w.hg)
                w.model = after
                check_state(w, w.model, 'after %s went through' % name)
            check_state(w, w.model, 'other handle, after %s went through' % name, other)
            obs.count('operations_gone_through')
        for _ in range(3):
            w.step()
        check_state(w, w.model, 'after going on')
        hist.close_hg(other)
        hist.close_hg(w.hg)
        obs.sample = obs.trace[-8:]


@H10.kind('functions', 150, 2500, 'a function of a batch raises an exception')
def functions(rng, obs, params):
    with scratch() as d:
        w = start(rng, obs, d)
        other = hist.open_hg(w.path)
        for _ in range(rng.choice([1, 2, 4])):
            parts = [random_op(w, rng) for _ in range(rng.randint(1, 5))]
            at = rng.randint(0, len(parts))
            exc = rng.choice([Boom('x'), ValueError('y'), KeyboardInterrupt(), BoomBase('z'), StopIteration('s'),
                              GeneratorExit(), sqlite3.IntegrityError('q')])

            def bad(hg):
                obs.count('functions_raised')
                raise exc
            funs = [f for _, f in parts]
            funs.insert(at, bad)
            obs.log('batch that raises %r at %d of %s' % (exc, at, [p[0] for p in parts]))
            obs.seen((w.model.state(), repr(parts[:at]), at, type(exc).__name__))
            try:
                w.hg.batch_exec(funs)
            except BaseException as e:
                if e is not exc and not (isinstance(exc, StopIteration) and isinstance(e, RuntimeError)):
                    raise
            else:
                raise Violation('batch_exec does not let the exception of a function through')
            check_state(w, w.model, 'after a batch that raised %r at function %d' % (exc, at))
            check_state(w, w.model, 'other handle, after a batch that raised', other)
            w.step(only=['add', 'remove', 'batch', 'add_many'])
            check_state(w, w.model, 'after the step that follows a batch that raised')
            check_state(w, w.model, 'other handle, after the step that follows', other)
        hist.close_hg(other)
        hist.close_hg(w.hg)
        obs.sample = obs.trace[-8:]


@H10.kind('bad_input', 80, 1500, 'an invalid edge in the middle of a collection')
def bad_input(rng, obs, params):
    with scratch() as d:
        w = start(rng, obs, d)
        other = hist.open_hg(w.path)
        for _ in range(3):
            es = [w.form(w.pick()) for _ in range(rng.randint(1, 4))]
            bad = rng.choice([None, 5, (rng.choice(w.pool), BadElement()), (BadElement(), 'a'),
                              ('is/1', rng.choice(w.pool), ('x', BadElement())), ('is/1', u'half\ud800', rng.choice(w.pool)),
                              (rng.choice(w.pool), ('x', u'\udc80'))])
            es.insert(rng.randint(1, len(es)), bad)
            what = rng.choice(['add', 'remove', 'add_belief', 'batch', 'timestamp'])
            if what == 'timestamp':
                # not something that can be stored: the edges are valid
                es.remove(bad)
                es.append(('new/1', 'late', rng.choice(w.pool)))
                if all(w.model.exists(e) for e in es):
                    continue
            if what == 'remove' and w.model.edges:
                es[0] = w.present()
            obs.log(what, 'with an invalid edge', [type(e).__name__ for e in es])
            obs.seen((w.model.state(), what, repr(es[:2])))
            raised = None
            try:
                if what == 'add':
                    w.hg.add(es, w.next_ts())
                elif what == 'timestamp':
                    bad_ts = rng.choice([2 ** 63, -2 ** 70, object(), [1], {}])
                    if rng.random() < 0.5:
                        w.hg.add(es if rng.random() < 0.5 else [es[-1]], bad_ts)
                    else:
                        w.hg.add_belief('mary/1', es, bad_ts)
                elif what == 'remove':
                    w.hg.remove(es)
                elif what == 'add_belief':
                    w.hg.add_belief('mary/1', es)
                else:
                    w.hg.batch_exec([lambda hg: hg.add(es), lambda hg: hg.remove(es)])
            except Exception as e:
                raised = e
            if raised is None:
                # how invalid edges are dealt with is not specified
                obs.count('invalid_accepted')
                hist.close_hg(w.hg)
                hist.close_hg(other)
                return
            obs.count('invalid_rejected')
            check_state(w, w.model, 'after %s with an invalid edge' % what)
            check_state(w, w.model, 'other handle, after %s with an invalid edge' % what, other)
            w.step(only=['add', 'remove', 'batch'])
            check_state(w, w.model, 'after the step that follows')
        hist.close_hg(other)
        hist.close_hg(w.hg)
        obs.sample = obs.trace[-8:]


def failing_op(w, rng):
    """An operation that fails, and what it raises."""
    how = rng.randrange(4)
    name, op = random_op(w, rng)
    if how == 0:
        exc = rng.choice([Boom('caught'), KeyboardInterrupt(), ValueError('x')])

        def bad(hg):
            raise exc
        parts = [random_op(w, rng)[1] for _ in range(rng.randint(0, 2))]
        return 'inner batch that raises after %s' % name, lambda hg: hg.batch_exec([op] + parts + [bad] + parts), None
    if how == 1:
        bad = rng.choice([None, 5, (rng.choice(w.pool), BadElement()), (BadElement(), 'a'),
                          ('is/1', rng.choice(w.pool), ('x', BadElement()))])
        es = [w.form(w.pick()) for _ in range(rng.randint(1, 3))]
        es.insert(rng.randint(1, len(es)), bad)
        return 'add with an invalid edge', lambda hg: hg.add(es), None
    if how == 2:
        bad = (rng.choice(w.pool), rng.choice(w.pool), BadElement())
        return 'add of an invalid edge', lambda hg: hg.add([bad]), None
    return name, op, Injector(rng.randint(1, 60), rng.choice(['before', 'after']))


def caught_history(rng, obs, w, listener_of, others):
    """Batches whose functions catch the errors of operations, and go on."""
    for _ in range(rng.choice([1, 2, 3])):
        committed = w.model
        w.model = committed.copy()
        raises = rng.random() < 0.25

        def step(hg):
            outer = w.hg
            w.hg = hg
            try:
                if rng.random() < 0.4:
                    w.step(only=['add', 'add_many', 'remove', 'add_belief', 'remove_belief'])
                name, op, inj = failing_op(w, rng)
                obs.log('fails, and is caught', name, inj and (inj.k, inj.when))
                after = w.model.copy()
                listener_of.listener = inj
                raised = None
                try:
                    op(hg)
                except BaseException as e:
                    raised = e
                finally:
                    listener_of.listener = None
                if inj is None:
                    if raised is None:
                        raise Violation('%s does not raise' % name)
                    obs.count('caught')
                elif raised is None:
                    op(after)
                    w.model = after
                elif not isinstance(raised, Injected):
                    raise raised
                else:
                    obs.count('faults_raised')
                    obs.count('caught')
                obs.seen((w.model.state(), name))
                check_state(w, w.model, 'in a batch that goes on after %s raised %r' % (name, raised), hg)
            finally:
                w.hg = outer

        def deeper(hg):
            """The same inside of more batches, one of which may be undone as a whole, with what it caught."""
            depth = rng.randint(1, 3)
            undone = rng.randint(1, depth) if rng.random() < 0.5 else None
            before = w.model.copy()
            obs.log('batches inside of the batch', depth, undone)

            def level(hg, n):
                if n == depth:
                    step(hg)
                else:
                    hg.batch_exec([lambda hg: level(hg, n + 1)])
                if n == undone:
                    raise inner
            inner = Boom('inner')
            try:
                level(hg, 0)
            except Boom as e:
                if e is not inner:
                    raise
                w.model = before
            obs.count('deeper_batches')
            check_state(w, w.model, 'after batches inside of a batch', hg)
            if rng.random() < 0.5:
                step(hg)

        def end(hg):
            if raises:
                raise boom
        boom = Boom('end')
        try:
            w.hg.batch_exec([rng.choice([step, step, deeper]) for _ in range(rng.randint(1, 4))] + [end])
        except Boom as e:
            if e is not boom:
                raise
            obs.count('functions_raised')
            w.model = committed
        check_state(w, w.model, 'after a batch in which operations failed')
        for other in others:
            check_state(w, w.model, 'another handle, after a batch in which operations failed', other)
        w.step(only=['add', 'remove', 'batch', 'add_many'])
        check_state(w, w.model, 'after the step that follows')


@H10.kind('caught', 60, 1000, 'operations of a batch that fail, and whose exceptions are caught by the functions')
def caught(rng, obs, params):
    with scratch() as d:
        w = start(rng, obs, d)
        other = hist.open_hg(w.path)
        caught_history(rng, obs, w, monitor, [other])
        hist.close_hg(other)
        hist.close_hg(w.hg)
        obs.sample = obs.trace[-8:]


@H10.kind('locked', 40, 600, 'the database is locked by another connection')
def locked(rng, obs, params):
    monitor.timeout = 0.01
    try:
        with scratch() as d:
            w = start(rng, obs, d)
            lock = _real_connect(w.path, timeout=0.01, isolation_level=None)
            for _ in range(4):
                name, op = random_op(w, rng)
                mode = rng.choice(['EXCLUSIVE', 'IMMEDIATE', 'shared'])
                obs.log('locked %s' % mode, name)
                after = w.model.copy()
                op(after)
                if mode == 'shared':
                    lock.execute('BEGIN')
                    lock.execute('SELECT count(*) FROM perms').fetchall()
                else:
                    lock.execute('BEGIN ' + mode)
                raised = None
                try:
                    op(w.hg)
                except sqlite3.OperationalError as e:
                    raised = e
                lock.execute('ROLLBACK')
                obs.seen((w.model.state(), name, mode))
                if raised is None:
                    w.model = after
                    obs.count('went_through_lock')
                else:
                    obs.count('faults_raised')
                    obs.count('lock_errors')
                check_state(w, w.model, 'after %s while the database was locked (%s): %r' % (name, mode, raised))
                fresh = hist.open_hg(w.path)
                check_state(w, w.model, 'new handle, after %s while the database was locked' % name, fresh)
                hist.close_hg(fresh)
            lock.close()
            hist.close_hg(w.hg)
            obs.sample = obs.trace[-8:]
    finally:
        monitor.timeout = None


@H10.kind('interrupted', 60, 1000, 'the database engine is interrupted, or full, at random points')
def interrupted(rng, obs, params):
    monitor.record = True
    monitor.connections = []
    try:
        with scratch() as d:
            w = start(rng, obs, d)
            conn = monitor.connections[-1]
            for _ in range(4):
                name, op = random_op(w, rng)
                after = w.model.copy()
                op(after)
                raised = None
                fired = [0, 0]
                commit = [False]

                def listen(kind, sql, when):
                    if kind == 'commit' or sql.strip().upper().startswith(('COMMIT', 'END')):
                        commit[0] = when == 'before'
                monitor.listener = listen
                if rng.random() < 0.7:
                    limit = rng.choice([1, 5, 20, 60, 150, 400, 1000, 3000])
                    mode = 'interrupt at %d' % limit

                    def progress():
                        fired[0] += 1
                        if fired[0] == limit:
                            fired[1] = 1
                            return 1
                        return 0
                    conn.set_progress_handler(progress, 1)
                else:
                    mode = 'full'
                    pages = conn.execute('PRAGMA page_count').fetchone()[0]
                    conn.execute('PRAGMA max_page_count=%d' % pages)
                obs.log(mode, name)
                obs.seen((w.model.state(), name, mode))
                try:
                    op(w.hg)
                except sqlite3.Error as e:
                    raised = e
                finally:
                    monitor.listener = None
                    conn.set_progress_handler(None, 1)
                    conn.execute('PRAGMA max_page_count=1000000')
                if raised is None:
                    w.model = after
                else:
                    obs.count('faults_raised')
                    obs.count('engine_errors')
                    if commit[0]:
                        # interrupted while it was committing, the engine may have done it or not, but not half of it
                        obs.count('interrupted_commits')
                        try:
                            check_state(w, w.model, '')
                        except Violation:
                            w.model = after
                check_state(w, w.model, 'after %s (%s): %r' % (name, mode, raised))
                other = hist.open_hg(w.path)
                check_state(w, w.model, 'other handle, after %s (%s): %r' % (name, mode, raised), other)
                hist.close_hg(other)
            hist.close_hg(w.hg)
            obs.sample = obs.trace[-8:]
    finally:
        monitor.record = False
        monitor.connections = []
