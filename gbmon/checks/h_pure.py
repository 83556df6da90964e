"""H21: questions change nothing, and what is passed in and out is not shared."""

import copy
import os
import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register, scratch
from gbmon.model import Model, collection, key, same_edge_set, tup
from gbmon.stubs import monitor
from gbmon.checks.h_backends import mysql_hg

H21 = register(Check(
    'H21', 'Histories on SQLite, on the stand-in for MySQL, and through a buffer. Around every question the bytes of '
    'the database, and the number of rows that its connection changed, are compared; the arguments of every call are '
    'compared with copies made before it, and then scrambled in place by the caller, as are the answers; after each '
    'step the hypergraph has to be as in the reference model, which was given copies. distinct_nontrivial counts '
    'distinct (state, question) pairs.',
    need=['questions', 'arguments_compared', 'arguments_scrambled', 'answers_scrambled', 'bytes_compared', 'mysql',
          'buffered', 'audits', 'maps_scrambled']))


def lists(rng, x):
    """A deep copy that can be changed in place: lists at (almost) every level."""
    if isinstance(x, (tuple, list)):
        y = [lists(rng, i) for i in x]
        return y if rng.random() < 0.8 else tuple(y)
    return x


def scramble(rng, x):
    """Changes everything in x that can be changed."""
    n = 0
    if isinstance(x, (tuple, list)):
        for y in x:
            n += scramble(rng, y)
    if isinstance(x, list) and x:
        r = rng.random()
        if r < 0.4:
            x[rng.randrange(len(x))] = 'scrambled/1'
        elif r < 0.7:
            x.append('scrambled/2')
        else:
            del x[:]
        n += 1
    return n


def image(d):
    """The bytes of all the files of the database."""
    res = {}
    for name in sorted(os.listdir(d)):
        if name.endswith('-shm'):
            continue
        with open(os.path.join(d, name), 'rb') as f:
            res[name] = f.read()
    return res


class Watch(object):
    """Calls functions of the code under test, and compares what it gave them with what it is afterwards."""

    def __init__(self, rng, obs):
        self.rng = rng
        self.obs = obs
        self.given = []

    def args(self, *xs):
        """Lists to be passed in place of these values."""
        ys = [lists(self.rng, x) for x in xs]
        self.given.append((ys, copy.deepcopy(ys), xs))
        return ys

    def settle(self, what, again=True):
        for ys, before, xs in self.given:
            self.obs.count('arguments_compared', len(ys))
            if repr(ys) != repr(before):
                raise Violation('%s changed its arguments: %r, which were %r' % (what, ys, before))
            for y in ys:
                self.obs.count('arguments_scrambled', scramble(self.rng, y))
        self.given = []


def ask(w, rng, obs, watch):
    """One question. Returns its description, and a function that asks it again."""
    e = w.present() if rng.random() < 0.6 else rng.choice(w.near_misses() + [w.pick()])
    v = rng.choice(w.vertices())
    pat = w.pattern()
    kind = rng.choice(['exists', 'pattern2edges', 'star', 'degree', 'timestamp', 'symbols_with_root', 'sources', 'ego',
                       'f_all', 'f_all begun', 'batch'])
    m = w.model
    hg = w.hg
    if kind == 'exists':
        return kind, e, lambda: bool(hg.exists(watch.args(e)[0])), lambda r: r == m.exists(e)
    if kind == 'pattern2edges':
        return kind, pat, lambda: hg.pattern2edges(watch.args(pat)[0]), lambda r: not same_edge_set(r, m.pattern2edges(pat))
    if kind == 'star':
        return kind, v, lambda: hg.star(watch.args(v)[0]), lambda r: not same_edge_set(r, m.star(v))
    if kind == 'degree':
        return kind, v, lambda: hg.degree(watch.args(v)[0]), lambda r: r == m.degree(v)
    if kind == 'timestamp':
        return kind, v, lambda: hg.timestamp(watch.args(v)[0]), lambda r: m.timestamp(v) in (Model.ANY, r)
    if kind == 'symbols_with_root':
        root = rng.choice(hist.roots(w))
        return kind, root, lambda: hg.symbols_with_root(root), lambda r: r == m.symbols_with_root(root)
    if kind == 'sources':
        return kind, e, lambda: hg.sources(watch.args(e)[0]), lambda r: set(map(key, r)) <= set(map(key, m.sources(e)))
    if kind == 'ego':
        return kind, v, lambda: hg.ego(tup(v), 1), lambda r: not same_edge_set(r, m.star(v))
    if kind == 'f_all':
        def f(vmap):
            res = vmap['vertex'], vmap['degree']
            vmap['vertex'] = 'scrambled/3'
            vmap['degree'] = -7
            vmap['other'] = 1
            obs.count('maps_scrambled')
            return res

        return kind, None, lambda: set((key(x), n) for x, n in hg.f_all(f)), lambda r: all(
            n == m.degree(m.rows[k][0]) if k in m.rows else False for k, n in r)
    if kind == 'f_all begun':
        def begin():
            it = hg.f_all(lambda x: x['degree'])
            res = next(it, None)
            it.close()
            return res is None

        return kind, None, begin, lambda r: r == (not m.vertices()) or m.optional()

    def batch():
        got = []
        hg.batch_exec([lambda h: got.append(bool(h.exists(e))), lambda h: got.append(h.degree(v))])
        return got

    return kind, (e, v), batch, lambda r: r == [m.exists(e), m.degree(v)]


def given_back(got, edges):
    if not isinstance(got, (list, tuple)) or key(got) != key(edges):
        raise Violation('adding %r returns %r' % (edges, got))


def change(w, rng, watch):
    """One change, with arguments that are scrambled afterwards."""
    hg, m = w.hg, w.model
    ts = w.next_ts()
    name = rng.choice(['add', 'add', 'add_many', 'add_many', 'remove', 'remove_many', 'add_belief', 'remove_belief',
                       'remove_by_pattern', 'batch'])
    if name in ('add', 'remove'):
        e = w.pick() if name == 'add' else w.present()
        if isinstance(e[0], tuple):
            e = (e,)
        arg, = watch.args(e)
        if name == 'add':
            given_back(hg.add(arg, ts), e)
            m.add(e, ts)
        else:
            hg.remove(arg)
            m.remove(e)
    elif name in ('add_many', 'remove_many'):
        es = tuple(w.pick() if name == 'add_many' else w.present() for _ in range(rng.randint(1, 4)))
        arg, = watch.args(es)
        if name == 'add_many':
            given_back(hg.add(arg, ts), es)
            m.add(es, ts)
        else:
            hg.remove(arg)
            m.remove(es)
    elif name == 'add_belief':
        es = tuple(w.pick() for _ in range(rng.randint(1, 3)))
        src = rng.choice(w.sources)
        a, b = watch.args(src, es)
        hg.add_belief(a, b, ts)
        m.add_belief(src, es, ts)
    elif name == 'remove_belief':
        e = w.pick()
        srcs = m.sources(e)
        src = rng.choice(srcs) if srcs else rng.choice(w.sources)
        a, b = watch.args(src, e)
        hg.remove_belief(a, b)
        m.remove_belief(src, e)
    elif name == 'remove_by_pattern':
        pat = w.pattern()
        if all(p is None for p in pat) or len(set(m.pattern2edges(pat))) < len(m.pattern2edges(pat)):
            return name, None
        arg, = watch.args(pat)
        hg.remove_by_pattern(arg)
        m.remove_by_pattern(pat)
    else:
        es = [w.pick() for _ in range(3)]
        arg, = watch.args(es)
        funs = [lambda h, a=a: h.add([a], ts) for a in arg]
        given = list(funs)
        hg.batch_exec(funs)
        if funs != given:
            raise Violation('batch_exec changed the list of functions')
        for e in es:
            m.add1(e, ts)
    return name, ts


@H21.kind('questions', 60, 4000, 'questions between changes')
def h21(rng, obs, params):
    with scratch() as d:
        mysql = rng.random() < 0.3
        ops = dict((k, v) for k, v in hist.DEFAULT_OPS.items() if k != 'reopen')
        monitor.record = True
        monitor.connections = []
        try:
            if mysql:
                obs.count('mysql')
                w = hist.World(rng, obs, None, hg=mysql_hg(d), ops=ops)
            else:
                w = hist.World(rng, obs, hist.db_path(d), ops=ops)
        finally:
            monitor.record = False
        conns = list(monitor.connections)
        watch = Watch(rng, obs)
        for _ in range(rng.choice([4, 8, 15])):
            name, ts = change(w, rng, watch)
            obs.log(name, ts)
            watch.settle(name)
            state = w.model.state()
            for _ in range(3):
                kind, what, question, right = ask(w, rng, obs, watch)
                before = image(d)
                changes = [c.total_changes for c in conns]
                obs.log(kind, what)
                obs.count('questions')
                obs.seen((state, kind, what))
                first = question()
                if not right(first):
                    raise Violation('%s %r gives %r' % (kind, what, first))
                watch.settle(kind)
                if image(d) != before or changes != [c.total_changes for c in conns]:
                    raise Violation('%s %r writes to the database' % (kind, what))
                if not mysql and any(c.in_transaction for c in conns):
                    raise Violation('%s %r leaves a transaction open' % (kind, what))
                obs.count('bytes_compared', sum(map(len, before.values())))
                # the answer belongs to the caller
                again = question()
                watch.settle(kind)
                if first != again:
                    raise Violation('%s %r gives %r, and then %r' % (kind, what, first, again))
                if isinstance(again, (set, list)):
                    obs.count('answers_scrambled')
                    if again and rng.random() < 0.5:
                        # as many as before
                        again.pop()
                    else:
                        again.clear()
                    if isinstance(again, set):
                        again.add(('scrambled/4', 'scrambled/5'))
                    third = question()
                    watch.settle(kind)
                    if third != first:
                        raise Violation('%s %r gives %r after the caller changed the first answer, which was %r' % (
                            kind, what, third, first))
        hist.full_audit(w, symbols=False)
        obs.count('audits')
        obs.sample = obs.trace[-10:]


@H21.kind('large', 3, 40, 'collections and answers of hundreds or thousands of edges')
def h21_large(rng, obs, params):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    with scratch() as d:
        hg = hist.open_hg(hist.db_path(d))
        model = Model()
        watch = Watch(rng, obs)
        n = rng.choice([120, 260, 1100, 2600])
        hub = rng.choice(['hub', 7, ('is/1', 'a', 'b')])
        edges = [('z/%d' % rng.randrange(10 ** 6), hub, i) if i % 2 else ('r/1', hub, 'x/%d' % i) for i in range(n)]
        rng.shuffle(edges)
        for what in ('add', 'buffered', 'add_belief', 'batch'):
            arg = watch.args(edges)[0]
            arg = list(arg) if not isinstance(arg, list) else arg
            given = copy.deepcopy(arg)
            if what == 'add':
                given_back(hg.add(arg, 3), edges)
                model.add(edges, 3)
            elif what == 'buffered':
                b = BatchHyperGraph(hg)
                b.add(arg, 3)
                b.add_belief('who/1', arg, 3)
                scramble(rng, arg)
                given = copy.deepcopy(arg)
                watch.given = []
                b.flush()
                model.add_belief('who/1', edges, 3)
            elif what == 'add_belief':
                hg.add_belief('me/1', arg, 3)
                model.add_belief('me/1', edges, 3)
            else:
                funs = [lambda h, e=e: h.exists(e) for e in arg]
                same = list(funs)
                hg.batch_exec(funs)
                if funs != same:
                    raise Violation('batch_exec changed a list of %d functions' % n)
            if repr(arg) != repr(given):
                raise Violation('%s of %d edges changed the list' % (what, n))
            watch.settle('%s of %d edges' % (what, n))
        for ask_it, want in ((lambda: hg.star(hub), model.star(hub)),
                             (lambda: hg.pattern2edges(('r/1', hub, None)), model.pattern2edges(('r/1', hub, None))),
                             (lambda: hg.symbols_with_root('x'), model.symbols_with_root('x')),
                             (lambda: hg.ego(hub, 1), model.star(hub)),
                             (lambda: hg.pattern2edges(('src/1', None, 'me/1')),
                              model.pattern2edges(('src/1', None, 'me/1')))):
            for how in ('size', 'clear', 'grow', None):
                obs.count('questions')
                got = ask_it()
                if got != set(want):
                    raise Violation('an answer of %d items has %d after the caller changed the one before: %r' % (
                        len(want), len(got), list(set(want) ^ set(got))[:3]))
                obs.count('answers_scrambled')
                if how == 'size':
                    got.pop()
                    got.add('scrambled/6')
                elif how == 'clear':
                    got.clear()
                elif how == 'grow':
                    got.add('scrambled/7')
        arg = [list(e) for e in edges]
        before = copy.deepcopy(arg)
        hg.remove(arg)
        if arg != before:
            raise Violation('removing %d edges changed the list' % n)
        model.remove(edges)
        if set(hg.star(hub)) != set(model.star(hub)):
            raise Violation('%d edges remain after the removal of %d' % (len(hg.star(hub)), n))
        obs.count('audits')
        obs.seen((n, hub))
        hist.close_hg(hg)


@H21.kind('buffered', 30, 2000, 'buffered additions of lists that the caller goes on using')
def buffered(rng, obs, params):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    w = hist.World(rng, obs)
    b = BatchHyperGraph(w.hg, rng.choice([2, 5, 1000]))
    watch = Watch(rng, obs)
    for _ in range(rng.choice([3, 8, 15])):
        if rng.random() < 0.5:
            es = tuple(w.pick() for _ in range(rng.randint(1, 4)))
            arg, = watch.args(es)
            given_back(b.add(arg, 5), es)
            w.model.add(es, 5)
        else:
            es = tuple(w.pick() for _ in range(rng.randint(1, 2)))
            src = rng.choice(w.sources)
            a, c = watch.args(src, es)
            b.add_belief(a, c, 5)
            w.model.add_belief(src, es, 5)
        obs.log('buffered', es)
        obs.count('buffered')
        watch.settle('a buffered addition')
        if rng.random() < 0.2:
            b.flush()
            w.model.state()
    b.flush()
    obs.seen(w.model.state())
    hist.full_audit(w, symbols=False)
    obs.count('audits')
    obs.sample = obs.trace[-5:]
