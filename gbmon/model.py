"""The reference model: what a hypergraph is, without storage."""


def key(x):
    """Identity of an atom or an edge: type and value for atoms, elements in their order for edges."""
    if isinstance(x, (tuple, list)):
        return ('e',) + tuple(key(i) for i in x)
    if isinstance(x, str):
        return ('s', x)
    if isinstance(x, bool):
        raise ValueError('bool')
    if isinstance(x, int):
        return ('i', x)
    if isinstance(x, float):
        return ('f', repr(x))
    raise ValueError(repr(x))


def tup(x):
    if isinstance(x, (tuple, list)):
        return tuple(tup(i) for i in x)
    return x


def collection(edges):
    """A collection of edges, or a single one (whose first element is not an edge)."""
    if isinstance(edges[0], (list, tuple)):
        return list(edges)
    return [edges]


class Model(object):
    """Edges, degrees and timestamps."""

    ANY = 'any'

    def __init__(self):
        self.edges = {}      # key -> edge
        self.rows = {}       # key -> [object, degree, timestamp]

    def copy(self):
        m = Model()
        m.edges = dict(self.edges)
        m.rows = dict((k, list(v)) for k, v in self.rows.items())
        return m

    def state(self):
        return (tuple(sorted(map(repr, self.edges))),
                tuple(sorted((repr(k), v[1], v[2]) for k, v in self.rows.items())))

    # operations

    def add1(self, e, ts=-1):
        e = tup(e)
        k = key(e)
        if k in self.edges:
            return False
        self.edges[k] = e
        for x in e:
            kx = key(x)
            if kx in self.rows:
                self.rows[kx][1] += 1
            else:
                self.rows[kx] = [x, 1, ts]
        if k in self.rows:
            self.rows[k][2] = ts
        else:
            self.rows[k] = [e, 0, ts]
        return True

    def add(self, edges, ts=-1):
        for e in collection(edges):
            self.add1(e, ts)

    def remove1(self, e):
        e = tup(e)
        k = key(e)
        if k not in self.edges:
            return False
        del self.edges[k]
        for x in e:
            self.rows[key(x)][1] -= 1
        if k in self.rows:
            if self.rows[k][1] == 0:
                del self.rows[k]
            else:
                self.rows[k][2] = Model.ANY
        return True

    def remove(self, edges):
        for e in collection(edges):
            self.remove1(e)

    def destroy(self):
        self.edges = {}
        self.rows = {}

    def add_belief(self, source, edges, ts=-1):
        for e in collection(edges):
            self.add1(e, ts)
            self.add1(('src/1', tup(e), source), ts)

    def remove_belief(self, source, e):
        self.remove1(('src/1', tup(e), source))
        if not self.sources(e):
            self.remove1(e)

    def remove_by_pattern(self, pattern):
        matches = self.pattern2edges(pattern)
        for e in matches:
            self.remove1(e)
        # the order of the removals is not specified: if an edge and another one that has it as an element are both
        # removed, the first one may or may not remain known (with degree 0)
        elements = set(x for f in matches for x in key(f)[1:])
        for e in matches:
            if key(e) in elements:
                row = self.rows.setdefault(key(e), [e, 0, Model.ANY])
                row[2] = Model.ANY

    # queries (lists of edges, without repetitions)

    def exists(self, e):
        return key(e) in self.edges

    def pattern2edges(self, pattern):
        ks = [None if p is None else key(p) for p in pattern]
        return [e for k, e in self.edges.items()
                if len(k) - 1 == len(ks) and all(p is None or p == x for p, x in zip(ks, k[1:]))]

    def star(self, x):
        kx = key(x)
        return [e for k, e in self.edges.items() if kx in k[1:]]

    def star_index(self):
        """The stars of everything."""
        res = {}
        for k, e in self.edges.items():
            for kx in set(k[1:]):
                res.setdefault(kx, []).append(e)
        return res

    def symbols_with_root(self, root):
        return set(x for e in self.edges.values() for x in e
                   if isinstance(x, str) and x.startswith(root + '/'))

    def degree(self, x):
        row = self.rows.get(key(x))
        return row[1] if row else 0

    def occurrences(self, x):
        """Degree, from the edges alone."""
        kx = key(x)
        return sum(k[1:].count(kx) for k in self.edges)

    def timestamp(self, x):
        row = self.rows.get(key(x))
        return row[2] if row else -1

    def sources(self, e):
        return [x[2] for x in self.pattern2edges(('src/1', e, None))]

    def vertices(self):
        """{key: (object, degree)}"""
        return dict((k, (v[0], v[1])) for k, v in self.rows.items())

    def optional(self):
        """Keys of removed edges without a degree, which may or may not remain known."""
        return set(k for k, v in self.rows.items() if v[2] == Model.ANY and v[1] == 0)


def same_edge_set(got, expected):
    """Is a set of edges that was returned the expected one? Returns None, or what is wrong.
    Python sets cannot hold both (a 1) and (a 1.0), so the comparison is by Python equality,
    and moreover each returned edge must be exactly one of the expected ones."""
    if not isinstance(got, (set, frozenset)):
        return 'not a set: %r' % (got,)
    for e in got:
        if not is_deep_tuple(e):
            return 'not an edge made of tuples: %r' % (e,)
    keys = set(key(e) for e in expected)
    for e in got:
        if key(e) not in keys:
            return 'has %r, which it should not' % (e,)
    exp = set(tup(e) for e in expected)
    for e in exp:
        if e not in got:
            return 'misses %r' % (e,)
    return None


def is_deep_tuple(e):
    return isinstance(e, tuple) and all(is_deep_tuple(x) if isinstance(x, (tuple, list)) else True for x in e)
