"""Histories of operations on a hypergraph, watched step by step against the reference model."""

import os
import gbmon.gen as gen
from gbmon.core import Violation
from gbmon.model import Model, key, tup, same_edge_set

DEFAULT_OPS = {
    'add': 10, 'add_many': 4, 'add_again': 2, 'remove': 5, 'remove_absent': 1, 'remove_many': 2, 'batch': 3,
    'remove_by_pattern': 1, 'add_belief': 2, 'remove_belief': 1, 'destroy': 0.15, 'reopen': 0.5,
}


def open_hg(path):
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'sqlite', 'db': path})


def close_hg(hg):
    conn = getattr(hg.backend, 'conn', None)
    if conn is not None:
        conn.close()


class World(object):
    """A hypergraph under test, its model, and a universe of things to do with it."""

    def __init__(self, rng, obs, path=':memory:', ops=None, universe=None, timestamps=True, hg=None, listy=0.2):
        self.rng = rng
        self.obs = obs
        self.path = path
        self.hg = hg if hg is not None else open_hg(path)
        self.model = Model()
        self.pool, self.edges = universe if universe is not None else gen.universe(rng)
        self.ops = dict(DEFAULT_OPS)
        if ops is not None:
            self.ops = ops
        if path == ':memory:':
            self.ops = dict((k, v) for k, v in self.ops.items() if k != 'reopen')
        self.timestamps = timestamps
        self.listy = listy
        self.clock = rng.choice([0, 1, 1000, 1480000000, 1480000000000])
        self.sources = rng.sample(['wordnet/gb', 'mary/1', 'john/1', 'x', 'http://a.b/(c)', 7, 1.5], 3)
        if rng.random() < 0.3 and self.edges:
            self.sources.append(rng.choice(self.edges))
        self.steps = 0
        obs.log('universe', self.pool, self.edges)

    # choices

    def form(self, e):
        return gen.as_lists(self.rng, e, self.listy)

    def pick(self):
        return self.rng.choice(self.edges)

    def present(self):
        es = list(self.model.edges.values())
        return self.rng.choice(es) if es else self.pick()

    def next_ts(self):
        if not self.timestamps:
            return -1
        r = self.rng.random()
        if r < 0.25:
            return -1
        if r < 0.35:
            return self.rng.choice([0, 1, -2, -1480000000, 2 ** 31, 2 ** 40, 2 ** 63 - 1, self.clock])
        self.clock += self.rng.choice([0, 1, 7])
        return self.clock

    def vertices(self):
        """All that may be asked about: atoms, edges, and things never added."""
        vs = list(self.pool) + list(self.edges) + self.sources
        vs += [row[0] for row in self.model.rows.values()]
        seen, res = set(), []
        for v in vs:
            if key(v) not in seen:
                seen.add(key(v))
                res.append(v)
        return res

    def near_misses(self):
        """Edges that resemble the ones that were added."""
        rng = self.rng
        res = []
        for e in rng.sample(self.edges, min(3, len(self.edges))):
            x = list(e)
            how = rng.randrange(6)
            if how == 0:
                rng.shuffle(x)
            elif how == 1:
                x.append(rng.choice(self.pool))
            elif how == 2 and len(x) > 1:
                x.pop(rng.randrange(len(x)))
            elif how == 3:
                x[rng.randrange(len(x))] = rng.choice(self.pool)
            elif how == 4:
                x = [tuple(x)]
            else:
                i = rng.randrange(len(x))
                y = x[i]
                if isinstance(y, tuple):
                    x[i:i + 1] = list(y)
                elif isinstance(y, str):
                    for cand in (y + 'x', y[:-1], y + '/1', y.swapcase(), y + '!'):
                        if gen.valid_symbol(cand) and rng.random() < 0.5:
                            x[i] = cand
                elif isinstance(y, int):
                    x[i] = rng.choice([float(y) if abs(y) < 1e15 else 0.5, y + 1, -y if y else 3])
                else:
                    x[i] = rng.choice([int(y) if abs(y) < 1e15 else 3, y * 2 + 1.0])
            if x:
                res.append(tuple(x))
        return res

    def pattern(self):
        """A pattern: usually one that matches something."""
        rng = self.rng
        base = list(self.present() if rng.random() < 0.8 else self.pick())
        if rng.random() < 0.15:
            base[rng.randrange(len(base))] = rng.choice(self.vertices())
        if rng.random() < 0.05:
            base = base + [None]
        r = rng.random()
        if r < 0.1:
            pat = [None] * len(base)
        elif r < 0.25:
            pat = base
        else:
            p = rng.choice([0.3, 0.5, 0.8])
            pat = [None if rng.random() < p else x for x in base]
        pat = [None if x is None else self.form(x) for x in pat]
        return pat if rng.random() < 0.3 else tuple(pat)

    # operations: each one is applied to the real hypergraph and to the model

    def step(self, only=None):
        ops = self.ops
        names = [n for n in ops if only is None or n in only]
        name = self.rng.choices(names, [ops[n] for n in names])[0]
        self.steps += 1
        self.obs.count('op_' + name)
        getattr(self, 'op_' + name)()
        self.obs.count('operations')
        self.obs.seen(self.model.state())
        return name

    def do(self, name, *args):
        """Applies an operation to both."""
        self.obs.log(name, *args)
        getattr(self.hg, name)(*args)
        getattr(self.model, name)(*args)

    def op_add(self):
        e = self.pick()
        self.add_one(e, self.next_ts())

    def add_one(self, e, ts):
        arg = self.form(e)
        if isinstance(arg[0], (list, tuple)) or self.rng.random() < 0.1:
            arg = [arg] if self.rng.random() < 0.5 else (arg,)
        if ts == -1 and self.rng.random() < 0.5:
            self.do('add', arg)
        else:
            self.do('add', arg, ts)

    def op_add_again(self):
        self.add_one(self.present(), self.next_ts())

    def op_add_many(self):
        n = self.rng.randint(1, 5)
        es = [self.form(self.pick()) for _ in range(n)]
        self.do('add', es if self.rng.random() < 0.5 else tuple(es), self.next_ts())

    def remove_one(self, e):
        arg = self.form(e)
        if isinstance(arg[0], (list, tuple)) or self.rng.random() < 0.1:
            arg = [arg]
        self.do('remove', arg)

    def op_remove(self):
        self.remove_one(self.present())

    def op_remove_absent(self):
        cands = self.near_misses() + [self.pick()]
        self.remove_one(self.rng.choice(cands))

    def op_remove_many(self):
        es = [self.form(self.present() if self.rng.random() < 0.7 else self.pick())
              for _ in range(self.rng.randint(1, 4))]
        self.do('remove', es)

    def op_remove_by_pattern(self):
        pat = self.pattern()
        if all(p is None for p in pat) and self.rng.random() < 0.8:
            return
        matches = self.model.pattern2edges(pat)
        if len(set(matches)) < len(matches):
            # (a 1) and (a 1.0) are the same element of a Python set
            self.obs.count('removals_of_equal_edges')
        if matches:
            self.obs.count('pattern_removals_with_matches')
        self.do('remove_by_pattern', pat)

    def belief_args(self):
        src = self.form(self.rng.choice(self.sources))
        if self.rng.random() < 0.3:
            es = [self.form(self.pick()) for _ in range(self.rng.randint(1, 3))]
        else:
            es = self.form(self.pick())
            if isinstance(es[0], (list, tuple)):
                es = [es]
        return src, es

    def op_add_belief(self):
        src, es = self.belief_args()
        self.do('add_belief', src, es, self.next_ts())

    def op_remove_belief(self):
        e = self.pick()
        srcs = self.model.sources(e)
        src = self.rng.choice(srcs) if srcs and self.rng.random() < 0.8 else self.rng.choice(self.sources)
        self.do('remove_belief', self.form(src), self.form(e))

    def op_destroy(self):
        self.do('destroy')

    def op_reopen(self):
        self.obs.log('reopen')
        close_hg(self.hg)
        self.hg = open_hg(self.path)

    def op_batch(self, n=None, inside=None):
        """A batch of functions that write and read, and see what was written before in the batch."""
        rng = self.rng
        n = n or rng.randint(1, 6)
        world = self

        def make(i):
            def f(hg):
                if hg is None:
                    raise Violation('batch function called without the hypergraph')
                ran.append(i)
                outer = world.hg
                world.hg = hg
                try:
                    for _ in range(rng.choice([1, 1, 2])):
                        name = rng.choice(['add', 'add', 'add_many', 'remove', 'remove_many', 'add_belief',
                                           'remove_belief', 'add_again', 'remove_by_pattern'])
                        getattr(world, 'op_' + name)()
                    if inside is not None:
                        inside(world)
                finally:
                    world.hg = outer
            return f

        ran = []
        self.obs.log('batch_exec', n)
        self.hg.batch_exec([make(i) for i in range(n)])
        self.obs.log('end of batch')
        if ran != list(range(n)):
            raise Violation('batch_exec ran the functions %r and not 0..%d in their order' % (ran, n - 1))


def show(x):
    return repr(x)


# probes: each one looks at one aspect

def probe_exists(w, n=4):
    cands = [w.present(), w.pick()] + w.near_misses()
    for e in w.rng.sample(cands, min(n, len(cands))):
        arg = w.form(e)
        got = w.hg.exists(arg)
        exp = w.model.exists(e)
        w.obs.count('membership_checks')
        w.obs.count('membership_true' if exp else 'membership_false')
        if bool(got) != exp:
            raise Violation('exists(%r) is %r, but the edge %s' % (
                arg, got, 'is in the hypergraph' if exp else 'is not in the hypergraph'))


def audit_exists(w):
    for e in w.edges:
        got = w.hg.exists(e)
        w.obs.count('membership_checks')
        if bool(got) != w.model.exists(e):
            raise Violation('exists(%r) is %r at the end, expected %r' % (e, got, w.model.exists(e)))


def stored(w):
    """All the edges that the hypergraph says it has, by arity."""
    res = set()
    arities = range(1, 8)
    model = getattr(w, 'model', None)
    if model is not None and len(model.edges) > 400:
        # each question is a long one
        arities = set(len(e) for e in model.edges.values()) | set([w.rng.choice(arities)])
    for n in arities:
        res |= w.hg.pattern2edges((None,) * n)
    return res


def probe_pattern(w):
    pat = w.pattern()
    got = w.hg.pattern2edges(pat)
    exp = w.model.pattern2edges(pat)
    w.obs.count('pattern_queries')
    w.obs.count('pattern_matches', len(exp))
    if exp:
        w.obs.count('pattern_nonempty')
    bad = same_edge_set(got, exp)
    if bad:
        raise Violation('pattern2edges(%r) %s' % (pat, bad), witness={'got': got, 'expected': exp})


def probe_star(w, v=None, index=None):
    if v is None:
        r = w.rng.random()
        if r < 0.5:
            e = w.present()
            v = w.rng.choice(e)
        else:
            v = w.rng.choice(w.vertices())
    arg = w.form(v)
    got = w.hg.star(arg)
    exp = w.model.star(v) if index is None else index.get(key(v), [])
    w.obs.count('star_queries')
    if exp:
        w.obs.count('star_nonempty')
    bad = same_edge_set(got, exp)
    if bad:
        raise Violation('star(%r) %s' % (arg, bad), witness={'got': got, 'expected': exp})


def probe_degree(w, v=None):
    if v is None:
        v = w.rng.choice(w.vertices())
    got = w.hg.degree(w.form(v))
    exp = w.model.degree(v)
    w.obs.count('degree_checks')
    if exp:
        w.obs.count('degree_nonzero')
    if exp > 1:
        w.obs.count('degree_above_one')
    if isinstance(v, tuple) and exp:
        w.obs.count('degree_of_edges')
    if got != exp or isinstance(got, bool):
        raise Violation('degree(%r) is %r, expected %r' % (v, got, exp))


def probe_timestamp(w, v=None):
    if v is None:
        v = w.rng.choice(w.vertices())
    got = w.hg.timestamp(w.form(v))
    exp = w.model.timestamp(v)
    w.obs.count('timestamp_checks')
    if exp == Model.ANY:
        return
    if exp != -1:
        w.obs.count('timestamp_set')
    if got != exp or isinstance(got, bool):
        raise Violation('timestamp(%r) is %r, expected %r' % (v, got, exp))


def roots(w):
    res = set()
    for x in w.pool:
        if isinstance(x, str):
            parts = x.split('/')
            for i in range(1, len(parts) + 1):
                res.add('/'.join(parts[:i]))
            res.add(x)
            res.add(x[:-1])
    res |= set(['src', 'nothing', 'wordnet', 'mary'])
    return sorted(r for r in res if r and gen.valid_symbol(r))


def probe_symbols(w, root=None):
    if root is None:
        root = w.rng.choice(roots(w))
    got = w.hg.symbols_with_root(root)
    exp = w.model.symbols_with_root(root)
    w.obs.count('root_queries')
    if exp:
        w.obs.count('root_nonempty')
    if not isinstance(got, (set, frozenset)) or got != exp:
        raise Violation('symbols_with_root(%r) is %r, expected %r' % (root, got, exp))


def probe_vertices(w, inside_query=True):
    """Full traversal."""
    calls = []

    def f(vmap):
        calls.append(1)
        v, d = vmap['vertex'], vmap['degree']
        if inside_query and len(calls) % 3 == 1:
            if w.hg.degree(v) != d:
                raise Violation('f_all says that the degree of %r is %r, but degree() says %r' % (v, d, w.hg.degree(v)))
            w.hg.timestamp(v)
            w.hg.star(v)
        return (v, d)

    it = w.hg.f_all(f)
    got = {}
    for v, d in it:
        try:
            k = key(v)
        except ValueError:
            raise Violation('f_all gives the vertex %r, which is neither an atom nor an edge' % (v,))
        if k in got:
            raise Violation('f_all visits %r twice' % (v,))
        got[k] = d
    w.obs.count('traversals')
    w.obs.count('vertices_traversed', len(got))
    exp = dict((k, v[1]) for k, v in w.model.vertices().items())
    for k in w.model.optional():
        if k not in got:
            exp.pop(k)
    if got != exp:
        extra = [k for k in got if k not in exp][:3]
        missing = [k for k in exp if k not in got][:3]
        wrong = [(k, got[k], exp[k]) for k in got if k in exp and got[k] != exp[k]][:3]
        raise Violation('f_all: vertices that should not be there: %r, missing: %r, wrong degrees: %r' % (
            extra, missing, wrong))
    if len(calls) != len(got):
        raise Violation('f_all called the function %d times for %d vertices' % (len(calls), len(got)))


def crowd(rng, obs, path=':memory:', hg=None, n=None):
    """A hypergraph of more than a thousand edges around one hub, over hundreds of symbols with one root: whatever is
    fetched, bound or counted in portions has more than one."""
    n = n or rng.choice([1001, 1100, 2050, 2600, 2050, 1001, rng.randint(4097, 5200), rng.randint(10001, 12400)])
    hub = rng.choice(['hub/1', 7, ('is/1', 'hub/1'), "h'b"])
    pool = [hub, 'r/0', 'r/1', 'to/1', 'nowhere/1']
    edges = []
    for i in range(n):
        r = i % 4
        if r == 0:
            edges.append((hub, 'x/%d' % i))
        elif r == 1:
            edges.append(('r/%d' % (i % 3), hub, 'y%d' % i) if i % 8 == 1 else ('x/%d' % i, hub))
        elif r == 2:
            edges.append((hub, 'to/%d' % i))
        else:
            edges.append(('x/%d' % i, hub))
    rng.shuffle(edges)
    w = World(rng, obs, path, universe=(pool, edges[:40]), hg=hg)
    w.everything = edges
    w.hub = hub
    ts = w.next_ts()
    obs.log('adds %d edges around %r' % (n, hub), edges[:5])
    if rng.random() < 0.5:
        w.hg.add(edges, ts)
    else:
        w.hg.batch_exec([lambda hg: [hg.add([e], ts) for e in edges]])
    w.model.add(edges, ts)
    w.pool += [e[1] for e in edges[:10]]
    obs.count('crowds')
    obs.seen((n, hub, edges[:3]))
    return w


def full_audit(w, timestamps=True, symbols=True):
    """Everything that can be observed, against the model."""
    audit_exists(w)
    got = stored(w)
    bad = same_edge_set(got, list(w.model.edges.values()))
    if bad:
        raise Violation('the stored edges: %s' % bad, witness=got)
    index = w.model.star_index()
    for v in w.vertices():
        probe_star(w, v, index)
        probe_degree(w, v)
        if timestamps:
            probe_timestamp(w, v)
    if symbols:
        for r in roots(w):
            probe_symbols(w, r)
    probe_vertices(w, inside_query=False)
    w.obs.count('full_audits')


def db_path(d, name='gb.db'):
    return os.path.join(d, name)
