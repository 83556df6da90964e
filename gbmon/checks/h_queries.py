"""H18: ego. H19: intersect."""

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register
from gbmon.model import Model, key, same_edge_set, tup

H18 = register(Check(
    'H18', 'Random hypergraphs (chains, cycles, hubs, nested edges, hostile symbols) are filled through random '
    'histories; ego() of known and unknown entities at depths -1 to 3, and up to 11 along chains, is compared with the reference. '
    'distinct_nontrivial counts distinct (edges, center, depth) with a non-empty answer.',
    need=['ego_nonempty', 'ego_deeper_matters', 'deep_egos']))

H19 = register(Check(
    'H19', 'Random hypergraphs with one to seven seeds (connected directly, through others, through a hub of more '
    'than 250 edges, by a type of more than 250 edges, not at all): the edges returned by intersect() are compared with a reference that enumerates the '
    'walks between the seeds. distinct_nontrivial counts distinct (edges, seeds) with a non-empty answer.',
    need=['intersect_nonempty', 'hubs', 'hubs_repeated', 'hubs_in_long_edges', 'types', 'many_seeds']))


def plain_universe(rng, n_atoms, n_edges, nest=0.1, min_arity=1):
    """Without pairs of ints and floats that Python takes for the same."""
    pool = []
    for a in gen.atoms(rng, n_atoms * 2):
        if a not in pool:
            pool.append(a)
    pool = pool[:n_atoms]
    edges = []
    while len(edges) < n_edges:
        e = gen.edge(rng, pool, edges[-3:], 3, nest, unary=min_arity == 1)
        if len(e) >= min_arity:
            edges.append(e)
    return pool, edges


def ref_ego(model, center, depth):
    """Breadth first: the edges within reach."""
    found = {}
    frontier = [center]
    best = {}
    for d in range(depth, 0, -1):
        nxt = {}
        for v in frontier:
            if best.get(key(v), 0) >= d:
                continue
            best[key(v)] = d
            for e in model.star(v):
                found[key(e)] = e
                for x in e[1:]:
                    nxt[key(x)] = x
        frontier = list(nxt.values())
    return list(found.values())


@H18.kind('graphs', 200, 3000, 'random hypergraphs')
def h18(rng, obs, params):
    u = plain_universe(rng, rng.randint(3, 12), rng.randint(2, 12), nest=rng.choice([0, 0.2]))
    if rng.random() < 0.3:
        # a chain: the depth matters
        chain = ['v%d' % i for i in range(6)]
        u[1].extend(('next/%d' % i, chain[i], chain[i + 1]) for i in range(5))
        u[0].extend(chain)
    w = hist.World(rng, obs, universe=u)
    for e in u[1]:
        w.do('add', [e])
    for _ in range(rng.randint(0, 4)):
        w.step(only=['add', 'remove', 'add_many'])
    obs.log('edges', list(w.model.edges.values()))
    for _ in range(4):
        v = rng.choice(w.vertices())
        for depth in rng.sample([-1, 0, 1, 1, 2, 2, 3], 3):
            if depth == 3 and len(w.model.edges) > 10:
                depth = 2
            got = w.hg.ego(v, depth)
            exp = ref_ego(w.model, v, depth)
            obs.count('ego_queries')
            if exp:
                obs.count('ego_nonempty')
                obs.seen((sorted(map(repr, w.model.edges)), key(v), depth))
            if depth > 1 and len(exp) > len(ref_ego(w.model, v, depth - 1)):
                obs.count('ego_deeper_matters')
            bad = same_edge_set(got, exp)
            if bad:
                raise Violation('ego(%r, %d) %s' % (v, depth, bad), witness={'got': got, 'expected': exp})
    obs.sample = obs.trace[-1:]


@H18.kind('deep', 12, 200, 'many steps')
def h18_deep(rng, obs, params):
    n = rng.randint(9, 16)
    how = rng.choice(['both', 'first', 'first', 'first', 'nested', 'loops'])
    names = rng.sample(sorted(set(gen.random_symbol(rng) for _ in range(n))) + ['v%d' % i for i in range(n + 1)], n + 1)
    if how == 'both':
        # three ways from each one
        edges = [('next/1', names[i], names[i + 1]) for i in range(n)]
        depth = rng.randint(4, 7)
    elif how == 'first':
        # each one is the type of an edge, from which there are two ways
        edges = [(names[i], names[i + 1]) for i in range(n)]
        depth = rng.choice([4, 7, 9, 10, 11, 12, 13, 14])
    elif how == 'loops':
        # the only way is a loop, or there and back
        edges = [(names[0], names[0])] if rng.random() < 0.5 else [('to/1', names[0], names[0]), (names[1], names[0])]
        depth = rng.choice([30, 60, 120])
    else:
        edges = [('is/1', names[0], names[1])]
        for i in range(rng.randint(3, 5)):
            edges.append(('says/1', names[i + 2], edges[-1]))
        depth = rng.randint(4, 5)
    w = hist.World(rng, obs, universe=(list(names), list(edges)))
    shuffled = list(edges)
    rng.shuffle(shuffled)
    for e in shuffled:
        w.do('add', [e])
    obs.log('edges', edges)
    start = names[0]
    for d in (depth, depth - 1):
        got = w.hg.ego(start, d)
        exp = ref_ego(w.model, start, d)
        obs.count('ego_queries')
        obs.count('ego_nonempty')
        obs.seen((repr(edges), d))
        obs.count('deep_egos')
        if len(exp) > len(ref_ego(w.model, start, d - 1)):
            obs.count('ego_deeper_matters')
        bad = same_edge_set(got, exp)
        if bad:
            raise Violation('ego(%r, %d) %s' % (start, d, bad), witness={'got': got, 'expected': exp})
    obs.sample = obs.trace[-1:]


@H18.kind('crowd', 4, 30, 'centers with more than a thousand edges')
def h18_crowd(rng, obs, params):
    w = hist.crowd(rng, obs)
    stars = {}
    for k, e in w.model.edges.items():
        for x in set(k[1:]):
            stars.setdefault(x, []).append(e)
    for v, depth in [(w.hub, 1), (w.everything[0][1], 2), (w.everything[0][0], 1), ('nowhere', 2)]:
        got = w.hg.ego(v, depth)
        exp = w.model.star(v)
        if depth == 2:
            for x in set(x for e in w.model.star(v) for x in e[1:]):
                exp = exp + stars[key(x)]
        obs.count('ego_queries')
        if exp:
            obs.count('ego_nonempty')
        if len(exp) > len(w.model.star(v)):
            obs.count('ego_deeper_matters')
        bad = same_edge_set(got, exp)
        if bad:
            raise Violation('ego(%r, %d) %s' % (v, depth, bad))
    obs.sample = obs.trace[-1:]


def ref_intersect(model, seeds):
    """The reference, over keys."""
    pool = {}
    for s in seeds:
        for e in ref_ego(model, s, 2):
            if all(model.degree(x) <= 250 for x in e[1:]):
                pool[key(e)] = e
    neighbours = {}
    for k in pool:
        for x in k[1:]:
            neighbours.setdefault(x, set()).update(k[2:])
    goal = set(key(s) for s in seeds)
    first = key(seeds[0])
    walks = []
    stack = [(first,)]
    n = 0
    while stack:
        n += 1
        if n > 60000:
            return None
        walk = stack.pop()
        if goal <= set(walk):
            walks.append(walk)
            continue
        for x in neighbours.get(walk[-1], ()):
            if x not in walk:
                stack.append(walk + (x,))
    shortest = {}
    for walk in walks:
        for x in walk:
            shortest[x] = min(shortest.get(x, 10 ** 9), len(walk))
    inter = set()
    for walk in walks:
        if all(x in goal or shortest[x] == len(walk) for x in walk):
            inter |= set(walk)
    return [e for k, e in pool.items() if set(k[2:]) <= inter]


@H19.kind('graphs', 200, 3000, 'random small hypergraphs')
def h19(rng, obs, params):
    u = plain_universe(rng, rng.randint(3, 7), rng.randint(2, 8), nest=rng.choice([0, 0.1]), min_arity=2)
    if rng.random() < 0.4:
        # a path between two entities
        path = rng.sample(u[0], min(3, len(u[0])))
        for i in range(len(path) - 1):
            u[1].append(('to/%d' % i, path[i], path[i + 1]))
            if rng.random() < 0.5:
                u[1].append(('fro/%d' % i, path[i + 1], path[i]))
    w = hist.World(rng, obs, universe=u)
    for e in u[1]:
        w.do('add', [e])
    run_intersect(w, rng, obs, 4)


@H19.kind('many', 60, 1000, 'four to seven seeds along chains')
def h19_many(rng, obs, params):
    n = rng.randint(4, 8)
    names = ['v%d' % i for i in range(n)]
    rng.shuffle(names)
    edges = [('next/%d' % i, names[i], names[i + 1]) for i in range(n - 1)]
    for _ in range(rng.choice([0, 1, 2])):
        edges.append(('back/1', rng.choice(names), rng.choice(names)))
    if rng.random() < 0.5:
        edges.append(('list/1',) + tuple(rng.sample(names, rng.choice([3, 4]))))
    if rng.random() < 0.5:
        edges.remove(rng.choice(edges))
    w = hist.World(rng, obs, universe=(names, [edges[0]]))
    for e in edges:
        w.do('add', [e])
    obs.log('edges', edges)
    import gb.hypergraph.queries as queries
    for _ in range(8):
        seeds = rng.sample(names, rng.randint(4, min(7, n)))
        if rng.random() < 0.6:
            # from the start of the chain
            seeds.sort(key=names.index)
        if rng.random() < 0.2:
            seeds.append(rng.choice(seeds))
        exp = ref_intersect(w.model, seeds)
        if exp is None:
            obs.count('too_large')
            continue
        got = queries.intersect(w.hg, seeds)
        obs.count('intersect_queries')
        obs.count('many_seeds')
        if exp:
            obs.count('intersect_nonempty')
            obs.seen((sorted(map(repr, w.model.edges)), list(map(key, seeds))))
        bad = same_edge_set(set(got), exp)
        if bad:
            raise Violation('intersect(%r) %s' % (seeds, bad), witness={'got': got, 'expected': exp})
    obs.sample = obs.trace[-3:]


def run_intersect(w, rng, obs, n, seeds_from=None, ks=(1, 2, 2, 2, 3)):
    import gb.hypergraph.queries as queries
    obs.log('edges', list(w.model.edges.values())[:40])
    for _ in range(n):
        k = rng.choice(ks)
        vs = seeds_from or (w.pool + w.edges[:2] + ['nowhere'])
        seeds = [rng.choice(vs) for _ in range(k)]
        exp = ref_intersect(w.model, seeds)
        if exp is None:
            obs.count('too_large')
            continue
        got = queries.intersect(w.hg, seeds if rng.random() < 0.7 else tuple(seeds))
        obs.count('intersect_queries')
        if exp:
            obs.count('intersect_nonempty')
            obs.seen((sorted(map(repr, w.model.edges)), list(map(key, seeds))))
        bad = same_edge_set(set(got), exp)
        if bad:
            raise Violation('intersect(%r) %s' % (seeds, bad), witness={'got': got, 'expected': exp})
        obs.log('intersect', seeds, exp)
    obs.sample = obs.trace[-3:]


@H19.kind('type', 12, 100, 'relationships of a type with more than 250 edges, which is not a hub between its elements')
def h19_type(rng, obs, params):
    w = hist.World(rng, obs, universe=(['a', 'b', 'c', 'r/1'], [('r/1', 'a', 'b')]))
    n = rng.choice([249, 250, 251, 300])
    es = [('r/1', 'a', 'b')] if rng.random() < 0.5 else [('r/1', 'a', 'c'), ('r/1', 'c', 'b'), ('s/1', 'c', 'b')]
    es += [('r/1', 'x%d' % i, 'y%d' % i) for i in range(n - len([e for e in es if e[0] == 'r/1']))]
    w.hg.add(es)
    w.model.add(es)
    if rng.random() < 0.3:
        e = ('t/1', 'a', ('r/1', 'x0', 'y0'))
        w.do('add', [e])
    obs.count('types')
    run_intersect(w, rng, obs, 3, ['a', 'b', 'c'])


@H19.kind('hub', 24, 200, 'entities that are only connected through a hub, of 249 to 252 edges')
def h19_hub(rng, obs, params):
    w = hist.World(rng, obs, universe=(['a', 'b', 'c', 'hub/1'], [('is/1', 'a', 'b')]))
    n = rng.choice([249, 250, 251, 252])
    es = []
    hub = rng.choice(['hub/1', 'hub/1', 7, 2016.5, ('is/1', 'sky', 'blue'), ('of', ('is/1', 'x', 'y'), 1), 'http://hub.org/x'])
    if rng.random() < 0.5:
        es += [('r/1', 'a', hub), ('r/1', 'b', hub), ('r/2', hub, 'b')]
    else:
        es += [('r/1', 'a', hub), ('s/1', hub, 'b'), ('t/1', 'a', 'c'), ('t/2', 'c', 'b')]
    if rng.random() < 0.4:
        # the hub is one of several elements
        more = [rng.choice(['A', 'B', 'Hub/1', 'hub', 5, -7.5, ('is/1', 'a', 'b'), '\U0001f600', 'x/' + 'y' * 70])
                for _ in range(rng.choice([1, 1, 2, 4]))]
        es[0] = es[0][:-1] + tuple(more) + es[0][-1:]
        obs.count('hubs_in_long_edges')
    fill = n - sum(e.count(hub) for e in es)
    if rng.random() < 0.5:
        # it is the number of occurrences that counts, and not that of the edges
        twice = rng.randint(2, fill // 2)
        es += [('g/%d' % i, hub, hub) if rng.random() < 0.5 else (hub, 'z%d' % i, hub) for i in range(twice)]
        fill -= 2 * twice
        obs.count('hubs_repeated')
    es += [('f/%d' % i, hub, 'x%d' % i) if rng.random() < 0.5 else (hub, 'y%d' % i) for i in range(fill)]
    w.hg.add(es)
    w.model.add(es)
    assert w.model.degree(hub) == n
    obs.count('hubs')
    if n <= 250:
        # only pairs: walks through the hub are many
        run_intersect(w, rng, obs, 2, ['a', 'b'])
    else:
        run_intersect(w, rng, obs, 3, ['a', 'b', 'c'])
