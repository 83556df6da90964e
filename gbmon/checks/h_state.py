"""H01-H09, H14: histories of operations on one hypergraph, one aspect of the observable state per property."""

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register, scratch
from gbmon.model import Model, collection, key, same_edge_set, tup

COMMON = ['edges are made of valid symbols, ints, finite floats and edges (see DESIGN.md, Domain)',
          'a collection of edges and a single edge are told apart as the API does, by the first element']


def history(rng, obs, probe, steps, path=':memory:', ops=None, universe=None, per_step=1, audit=None, p=0.8,
            timestamps=True, batch_probe=True):
    w = hist.World(rng, obs, path, ops=ops, universe=universe, timestamps=timestamps)
    inner = probe if batch_probe else None
    for _ in range(steps):
        if rng.random() < 0.15:
            w.steps += 1
            obs.count('op_batch')
            obs.count('operations')
            w.op_batch(inside=inner)
            obs.seen(w.model.state())
        else:
            w.step()
        if rng.random() < p:
            for _ in range(per_step):
                probe(w)
    if audit is not None:
        audit(w)
    hist.close_hg(w.hg)
    obs.sample = obs.trace[:25]
    return w


def steps_for(rng, params):
    return rng.choice([8, 15, 25, 40]) if params['tier'] == 'quick' else rng.choice([10, 25, 50, 120])


def standard(check, probe, audit, quick=260, thorough=4000, per_step=2, ops=None):
    """The same two kinds of histories for the properties about the state."""
    @check.kind('history', quick, thorough, 'random history over a hostile universe, in memory, probed at every step')
    def memory(rng, obs, params):
        history(rng, obs, probe, steps_for(rng, params), audit=audit, per_step=per_step, ops=ops)

    @check.kind('history_file', quick // 6, thorough // 8, 'the same in a file, closed and reopened along the way')
    def infile(rng, obs, params):
        with scratch() as d:
            history(rng, obs, probe, steps_for(rng, params), path=hist.db_path(d), audit=audit, per_step=per_step,
                    ops=ops)

    @check.kind('wide', max(8, quick // 20), thorough // 20, 'edges of up to 5, 6 elements')
    def wide(rng, obs, params):
        arity = rng.choice([5, 6])
        u = gen.universe(rng, n_edges=rng.randint(2, 4), max_arity=arity)
        e = tuple(rng.choice(u[0]) for _ in range(arity))
        u[1].append(e)
        history(rng, obs, probe, 6 if arity >= 6 else 10, universe=u, audit=audit, per_step=per_step, ops=ops)

    @check.kind('seven', 1, 24, 'an edge of seven elements, some of them repeated, among others')
    def seven(rng, obs, params):
        pool = [a for a in dict.fromkeys(['a/1', 'b', 'c/1'] + gen.atoms(rng, 9) + ['d', 'e/2', 'f', 'g'])][:12]
        e = tuple(rng.choice([rng.sample(pool, 7), [rng.choice(pool) for _ in range(7)]]))
        w = hist.World(rng, obs, ops=ops, universe=(pool, [e, e[:3], e[::-1][:3], e[2:4]]))
        w.do('add', [e[2:4]])
        w.do('add', [e], w.next_ts())
        w.do('add', [e[::-1][:3]])
        for _ in range(2):
            probe(w)
        audit(w)
        w.do('remove', [e])
        audit(w)

    @check.kind('deep', 4, 60, 'edges nested dozens of levels deep')
    def deep(rng, obs, params):
        pool = gen.atoms(rng, 5)
        place = rng.choice([0, 1, None])

        def nested(e, n):
            chain = [e]
            for _ in range(n):
                e = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))]
                e.insert(place if place is not None else rng.randint(0, len(e)), chain[-1])
                chain.append(tuple(e))
            return chain
        n = rng.choice([10, 25, 60])
        state = rng.getstate()
        chain = nested((pool[0], pool[1]), n)
        # almost the same: another atom at the bottom, or one level less
        rng.setstate(state)
        twin = nested((pool[1], pool[0]), n)
        edges = [chain[-1], chain[-2], twin[-1], chain[1], (pool[0], chain[-3]), nested((pool[0], pool[1]), n - 1)[-1]]
        obs.count('levels', n)
        history(rng, obs, probe, 12, universe=(pool, edges), audit=audit, per_step=per_step, ops=ops)

    @check.kind('giants', 3, 40, 'symbols of thousands of characters that differ in the last ones')
    def giants(rng, obs, params):
        pool = rng.sample(gen.GIANTS, 4) + gen.atoms(rng, 2)
        edges = []
        while len(edges) < 5:
            edges.append(gen.edge(rng, pool, edges, 3, 0.1))
        # the same but for one
        edges += [tuple(rng.choice(pool) if i == 0 else x for i, x in enumerate(e[::-1]))[::-1] for e in edges[:3]]
        obs.count('giants')
        history(rng, obs, probe, 12, universe=(pool, edges), audit=audit, per_step=per_step, ops=ops)

    @check.kind('big', 4, 40, 'many edges over few entities')
    def big(rng, obs, params):
        pool = gen.atoms(rng, 12)
        edges = []
        while len(edges) < 150:
            edges.append(gen.edge(rng, pool, edges[-5:], 3, 0.1))
        history(rng, obs, probe, 150, universe=(pool, edges), audit=None, per_step=per_step, p=0.2,
                ops=dict(hist.DEFAULT_OPS, add=20, add_many=20, remove_by_pattern=0.2, destroy=0.05))


def crowded(check, audit, quick=4, thorough=30):
    """A kind of cases with more than a thousand edges, audited when full and after some removals."""
    @check.kind('crowd', quick, thorough, 'more than a thousand edges around one entity')
    def crowd(rng, obs, params):
        w = hist.crowd(rng, obs)
        audit(w)
        some = rng.sample(w.everything, 20)
        w.do('remove', some)
        w.do('add', some[:7], w.next_ts())
        w.edges = w.edges[:20] + some
        audit(w)
        hist.close_hg(w.hg)
        obs.sample = obs.trace[:2]


H01 = register(Check(
    'H01', 'Seeded histories (add, remove, collections, batches, patterns, beliefs, destroy, reopen) over small '
    'universes of hostile symbols and nested edges. After each step exists() is compared with the reference model for '
    'added, removed, never added, permuted, extended and shortened edges. distinct_nontrivial counts the distinct '
    'states of the model that were reached.', assumptions=COMMON, need=['membership_true', 'membership_false']))
standard(H01, hist.probe_exists, hist.audit_exists)

crowded(H01, lambda w: [hist.audit_exists(w)] + [hist.probe_exists(w) for _ in range(20)])

H02 = register(Check(
    'H02', 'The same histories; after each step patterns built from stored edges (elements replaced by wildcards, '
    'perturbed, all wildcards, none, longer) are queried and the returned set compared with a scan of the model. '
    'distinct_nontrivial counts distinct states of the model.', assumptions=COMMON, need=['pattern_nonempty']))


def audit_patterns(w):
    for e in w.edges:
        for i in range(len(e)):
            pats = [tuple(None if j == i else x for j, x in enumerate(e)),
                    tuple(x if j == i else None for j, x in enumerate(e))]
            for pat in pats:
                bad = same_edge_set(w.hg.pattern2edges(pat), w.model.pattern2edges(pat))
                w.obs.count('pattern_queries')
                if bad:
                    raise Violation('pattern2edges(%r) %s' % (pat, bad))
    bad = same_edge_set(hist.stored(w), list(w.model.edges.values()))
    if bad:
        raise Violation('all-wildcard patterns: %s' % bad)


standard(H02, hist.probe_pattern, audit_patterns)


def audit_crowd_patterns(w):
    for pat in [(w.hub, None), (None, w.hub), (None, w.hub, None), (None, None), (None, None, None)]:
        bad = same_edge_set(w.hg.pattern2edges(pat), w.model.pattern2edges(pat))
        w.obs.count('pattern_queries')
        if bad:
            raise Violation('pattern2edges(%r) %s' % (pat, bad))
    for _ in range(10):
        hist.probe_pattern(w)


crowded(H02, audit_crowd_patterns)

H03 = register(Check(
    'H03', 'The same histories; after each step star() of stored and unknown atoms and edges is compared with a scan '
    'of the model. distinct_nontrivial counts distinct states of the model.', assumptions=COMMON,
    need=['star_nonempty']))
standard(H03, hist.probe_star, lambda w: [hist.probe_star(w, v) for v in w.vertices()])

crowded(H03, lambda w: [hist.probe_star(w, v) for v in w.pool])

H04 = register(Check(
    'H04', 'The same histories; after each step the degree of atoms and edges is compared with the number of times '
    'they occur as direct elements of the edges of the model. distinct_nontrivial counts distinct states of the '
    'model.', assumptions=COMMON, need=['degree_above_one', 'degree_of_edges']))


def audit_degrees(w):
    for v in w.vertices():
        if w.model.degree(v) != w.model.occurrences(v):
            raise RuntimeError('the model is wrong about %r' % (v,))
        hist.probe_degree(w, v)


standard(H04, hist.probe_degree, audit_degrees, per_step=3)

crowded(H04, lambda w: [hist.probe_degree(w, v) for v in w.pool + w.edges])

H05 = register(Check(
    'H05', 'The same histories with explicit, default, zero, repeated and very large timestamps; after each step '
    'timestamp() of atoms, edges and unknown entities is compared with the model. distinct_nontrivial counts distinct '
    'states of the model.', assumptions=COMMON + [
        'the timestamp of an edge that was removed but is still an element of others is not specified'],
    need=['timestamp_set']))
standard(H05, hist.probe_timestamp, lambda w: [hist.probe_timestamp(w, v) for v in w.vertices()], per_step=3)

crowded(H05, lambda w: [hist.probe_timestamp(w, v) for v in w.pool + w.edges])

H06 = register(Check(
    'H06', 'The same histories over universes rich in roots, namespaces and symbols that share prefixes; '
    'symbols_with_root() is compared with a scan of the model. distinct_nontrivial counts distinct states of the '
    'model.', assumptions=COMMON, need=['root_nonempty']))


def root_universe(rng):
    pool = []
    bases = rng.sample(['a', 'ab', 'a!', 'A', 'a.', 'a0', 'a-', 'abc', u'\u00e7', "o'", '%', 'a_', '~a', 'a/1', 'a(b)'],
                       rng.randint(2, 6))
    for b in bases:
        for ns in rng.sample(['', '/1', '/2', '/10', '/wn.a.n.01', '/', '/1/2', '0/1', '/(x)'], rng.randint(2, 4)):
            if gen.valid_symbol(b + ns):
                pool.append(b + ns)
    edges = []
    for _ in range(rng.randint(3, 10)):
        edges.append(gen.edge(rng, pool, edges[-3:], 4, 0.2))
    return pool, edges


@H06.kind('roots', 200, 4000, 'universes of symbols with the same and with similar roots')
def h06_roots(rng, obs, params):
    u = root_universe(rng)
    history(rng, obs, hist.probe_symbols, steps_for(rng, params), universe=u, per_step=3,
            audit=lambda w: [hist.probe_symbols(w, r) for r in hist.roots(w)])


standard(H06, hist.probe_symbols, lambda w: [hist.probe_symbols(w, r) for r in hist.roots(w)], quick=80, thorough=1500)

crowded(H06, lambda w: [hist.probe_symbols(w, r) for r in ('x', 'to', 'r', 'hub', 'y', 'x/4', 't')])

H07 = register(Check(
    'H07', 'The same histories; the full traversal is compared with the vertices of the model, with callbacks that '
    'query the hypergraph, inside batches, consumed lazily or abandoned. distinct_nontrivial counts distinct states '
    'of the model.', assumptions=COMMON, need=['vertices_traversed', 'lazy_steps']))


def probe_traversal(w):
    if w.rng.random() < 0.25 and len(w.model.rows) > len(w.model.optional()):
        # laziness: nothing is visited before it is asked for; it may be abandoned half way
        calls = []
        it = iter(w.hg.f_all(lambda vm: calls.append(vm['vertex']) or vm['vertex']))
        n = w.rng.randint(1, max(1, len(w.model.rows) - len(w.model.optional())))
        for i in range(n):
            try:
                v = next(it)
            except StopIteration:
                raise Violation('f_all stopped after %d of %d vertices' % (i, len(w.model.rows)))
            if len(calls) != i + 1:
                raise Violation('f_all is not lazy: %d calls for %d values' % (len(calls), i + 1))
            if key(v) != key(calls[-1]):
                raise Violation('f_all gave %r for f(%r)' % (v, calls[-1]))
            hist.probe_degree(w, v)
            w.obs.count('lazy_steps')
        if w.rng.random() < 0.5:
            getattr(it, 'close', lambda: None)()
        del it
    else:
        hist.probe_vertices(w)


standard(H07, probe_traversal, hist.probe_vertices, quick=180, per_step=1)

@H07.kind('results', 60, 800, 'functions that return, for some vertices, None, false, empty, or other things')
def h07_results(rng, obs, params):
    w = hist.World(rng, obs)
    for _ in range(rng.choice([3, 10, 25])):
        w.step()
    for _ in range(4):
        things = [None, False, 0, '', [], {}, (), StopIteration, NotImplemented, Ellipsis, float('nan'), object(), b'',
                  ValueError('x'), 'x', w.pick(), lambda: 1]
        things = rng.sample(things, rng.choice([1, 1, 2, 5]))
        gave = []

        def f(vmap):
            res = rng.choice(things)
            gave.append(res)
            return res
        if rng.random() < 0.3:
            got = []
            w.hg.batch_exec([lambda hg: got.extend(hg.f_all(f))])
        else:
            got = list(w.hg.f_all(f))
        obs.log('results', things, len(got))
        obs.count('traversals')
        obs.count('vertices_traversed', len(gave))
        n = len(w.model.rows)
        if not n - len(w.model.optional()) <= len(gave) <= n:
            raise Violation('f_all calls the function %d times, for %d vertices' % (len(gave), n))
        if len(got) != len(gave) or any(a is not b for a, b in zip(got, gave)):
            raise Violation('f_all gives %r, and the function has returned %r' % (got[:20], gave[:20]))
        obs.count('lazy_steps')
        obs.seen((w.model.state(), repr(gave)))
        # the maps themselves, kept and returned
        kept = []
        got = list(w.hg.f_all(lambda vmap: kept.append(vmap) or vmap))
        for maps in (kept, got):
            seen = dict((key(v['vertex']), v['degree']) for v in maps)
            if len(maps) != len(gave) or len(seen) != len(maps):
                raise Violation('the maps that the function was given, kept until the end, are %r' % (maps[:10],))
            for k, n in seen.items():
                if k not in w.model.rows or w.model.rows[k][1] != n:
                    raise Violation('a map that was kept until the end has the degree %d for %r' % (n, k))
        obs.count('maps_kept', len(kept))
    obs.sample = obs.trace[-3:]


def audit_crowd_traversal(w):
    hist.probe_vertices(w)
    probe_traversal(w)


crowded(H07, audit_crowd_traversal)

H08 = register(Check(
    'H08', 'Histories in which removals by pattern are frequent; after each one the stored edges (all-wildcard '
    'patterns), and the membership of the ones that did and did not match, are compared with the model. '
    'distinct_nontrivial counts distinct states of the model.', assumptions=COMMON,
    need=['pattern_removals_with_matches']))

H08_OPS = dict(hist.DEFAULT_OPS, add_many=12, remove_by_pattern=12, remove=1, remove_many=0, batch=2)


def probe_after_removal(w):
    for e in w.edges:
        if bool(w.hg.exists(e)) != w.model.exists(e):
            raise Violation('exists(%r) is %r, expected %r' % (e, not w.model.exists(e), w.model.exists(e)))
    w.obs.count('membership_checks', len(w.edges))
    bad = same_edge_set(hist.stored(w), list(w.model.edges.values()))
    if bad:
        raise Violation('the stored edges after the history: %s' % bad)
    hist.probe_degree(w)
    hist.probe_degree(w, w.rng.choice(w.pool))


@H08.kind('histories', 220, 4000, 'add many, remove by pattern, again and again')
def h08(rng, obs, params):
    history(rng, obs, probe_after_removal, rng.choice([6, 12, 20]), ops=H08_OPS, batch_probe=False, p=1)


@H08.kind('nested', 60, 1000, 'patterns over edges that begin with edges')
def h08_nested(rng, obs, params):
    u = gen.universe(rng, n_edges=10, nest=0.6)
    history(rng, obs, probe_after_removal, rng.choice([6, 12]), ops=H08_OPS, universe=u, batch_probe=False, p=1)


@H08.kind('crowd', 3, 40, 'more than a thousand edges match')
def h08_crowd(rng, obs, params):
    w = hist.crowd(rng, obs, n=rng.choice([1001, 1400, 1001, 1400, 10400]))
    pats = [(w.hub, None), (None, w.hub), (None, None), (None, w.hub, None)]
    rng.shuffle(pats)
    for pat in pats[:3]:
        if w.model.pattern2edges(pat):
            obs.count('pattern_removals_with_matches')
        w.do('remove_by_pattern', pat)
        probe_after_removal(w)
        hist.probe_degree(w, w.hub)
    w.do('add', w.everything[:10])
    probe_after_removal(w)
    obs.sample = obs.trace[:2] + obs.trace[-5:]


H14 = register(Check(
    'H14', 'Histories in which the hypergraph is destroyed along the way: right after it everything that can be asked '
    'has to look like a new hypergraph, also from another handle and after reopening, and the rest of the history has '
    'to behave as on a new one. distinct_nontrivial counts distinct states of the model.', assumptions=COMMON,
    need=['destroys_of_nonempty']))


@H14.kind('histories', 80, 1500, 'fill, destroy, audit everything, go on')
def h14(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        w = hist.World(rng, obs, path)
        other = hist.open_hg(path) if rng.random() < 0.5 else None
        for _ in range(rng.choice([1, 2])):
            for _ in range(rng.randint(2, 15)):
                w.step()
            if w.model.edges:
                obs.count('destroys_of_nonempty')
            if rng.random() < 0.25:
                obs.log('destroy in a batch')

                def f(hg):
                    hg.destroy()
                w.hg.batch_exec([f])
                w.model.destroy()
            else:
                w.do('destroy')
            for hg in [w.hg] + ([other] if other else []):
                for e in w.edges:
                    if hg.exists(e):
                        raise Violation('%r exists after destroy' % (e,))
                    if hg.degree(e) != 0 or hg.timestamp(e) != -1:
                        raise Violation('%r has a degree or a timestamp after destroy' % (e,))
                for v in w.vertices():
                    if hg.degree(v) != 0 or hg.timestamp(v) != -1 or hg.star(v):
                        raise Violation('%r is still known after destroy' % (v,))
                for n in range(1, 6):
                    if hg.pattern2edges((None,) * n):
                        raise Violation('there are edges after destroy')
                for r in hist.roots(w):
                    if hg.symbols_with_root(r):
                        raise Violation('there are symbols with root %r after destroy' % r)
                if list(hg.f_all(lambda x: x)):
                    raise Violation('there are vertices after destroy')
            obs.count('destroy_audits')
        for _ in range(rng.randint(2, 12)):
            w.step()
        if rng.random() < 0.5:
            w.op_reopen()
        hist.full_audit(w)
        hist.close_hg(w.hg)
        if other:
            hist.close_hg(other)
        obs.sample = obs.trace[:25]


@H14.kind('crowd', 4, 30, 'more than a thousand edges, destroyed')
def h14_crowd(rng, obs, params):
    w = hist.crowd(rng, obs)
    obs.count('destroys_of_nonempty')
    w.do('destroy')
    obs.count('destroy_audits')
    hist.full_audit(w)
    w.do('add', w.everything[:50], 3)
    hist.full_audit(w)
    obs.sample = obs.trace[:2]


@H14.kind('permutations', 4, 40, 'edges with hundreds or thousands of permutations, and few vertices, destroyed')
def h14_permutations(rng, obs, params):
    pool = gen.atoms(rng, 7)
    edges = [tuple(rng.choice(pool) for _ in range(rng.choice([5, 6, 6, 6]))) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        edges.append(tuple(rng.choice(pool) for _ in range(7)))
    w = hist.World(rng, obs, universe=(pool, edges))
    w.do('add', list(edges), 7)
    obs.count('destroys_of_nonempty')
    w.do('destroy')
    obs.count('destroy_audits')
    hist.full_audit(w)
    w.do('add', [edges[0]], 3)
    hist.full_audit(w)
    obs.sample = obs.trace[:2]


H09 = register(Check(
    'H09', 'One history of single additions and removals is applied one by one to a hypergraph, and cut at random into '
    'collections and batches to another one; then every observable of the two (edges, stars, degrees, timestamps, '
    'symbols, vertices) is compared, and with the model. distinct_nontrivial counts distinct states of the model.',
    assumptions=COMMON, need=['groups', 'grouped_ops', 'repeated_functions']))


@H09.kind('histories', 160, 3000, 'the same operations one by one and grouped')
def h09(rng, obs, params):
    u = gen.universe(rng)
    ops = []
    w = hist.World(rng, obs, universe=u)
    for _ in range(rng.choice([5, 12, 25, 40])):
        r = rng.random()
        if r < 0.65:
            ops.append(('add', w.pick(), rng.choice([-1, w.next_ts()])))
        elif r < 0.85:
            ops.append(('remove', w.pick(), None))
        elif r < 0.95:
            ops.append(('add_belief', w.pick(), w.next_ts(), rng.choice(w.sources)))
        else:
            ops.append(('remove_belief', w.pick(), None, rng.choice(w.sources)))
    obs.log('operations', ops)
    for op in ops:
        apply_one(w.hg, op)
        apply_one(w.model, op)
        obs.seen(w.model.state())
    g = hist.World(rng, obs, universe=u)
    g.model = w.model
    i = 0
    while i < len(ops):
        n = rng.choice([1, 2, 3, 5, 10, 40])
        group = ops[i:i + n]
        how = rng.random()
        same = all(o[0] == group[0][0] and o[2] == group[0][2] and o[3:] == group[0][3:] for o in group)
        if not same and how < 0.6:
            # the longest prefix that makes a collection
            m = 1
            while m < len(group) and group[m][0] == group[0][0] and group[m][2:] == group[0][2:]:
                m += 1
            group = group[:m]
            same = True
        obs.log('group', len(group), 'collection' if same and how < 0.6 else 'batch')
        if same and how < 0.6 and group[0][0] != 'remove_belief':
            es = [g.form(o[1]) for o in group]
            es = es if rng.random() < 0.5 else tuple(es)
            if group[0][0] == 'add':
                g.hg.add(es, group[0][2])
            elif group[0][0] == 'remove':
                g.hg.remove(es)
            else:
                g.hg.add_belief(group[0][3], es, group[0][2])
            obs.count('collections')
        else:
            funs = []
            for o in group:
                funs.append(lambda hg, o=o: apply_one(hg, o))
            if rng.random() < 0.3:
                g.hg.batch_exec([lambda hg, group=group: [apply_one(hg, o) for o in group]])
            else:
                g.hg.batch_exec(tuple(funs) if rng.random() < 0.5 else funs)
            obs.count('batches')
        obs.count('groups')
        obs.count('grouped_ops', len(group))
        i += len(group)
    hist.full_audit(g)
    hist.full_audit(w)
    obs.sample = obs.trace[:3]


def apply_one(hg, op):
    if op[0] == 'add':
        if op[2] == -1:
            hg.add([op[1]])
        else:
            hg.add([op[1]], op[2])
    elif op[0] == 'remove':
        hg.remove([op[1]])
    elif op[0] == 'add_belief':
        hg.add_belief(op[3], [op[1]], op[2])
    else:
        hg.remove_belief(op[3], op[1])


@H09.kind('large', 2, 30, 'hundreds of operations one by one, in collections, in batches, and in one batch')
def h09_large(rng, obs, params):
    from gbmon.checks.h_faults import large_op, one_by_one
    u = gen.universe(rng)
    w = hist.World(rng, obs, universe=u)
    other = hist.World(rng, obs, universe=u)
    for _ in range(rng.choice([2, 4])):
        name, op = large_op(w, rng, n=rng.choice([101, 257, 300, 513, 1030]))
        obs.log('group', name)
        op(w.hg)
        inner = Singles(other.hg)
        op(inner)
        op(w.model)
        obs.count('groups')
        obs.count('grouped_ops', inner.n)
        obs.seen((name, w.model.state()))
        hist.full_audit(w)
    other.model, other.edges, other.pool = w.model, w.edges, w.pool
    hist.full_audit(other)
    obs.sample = obs.trace[-4:]


class Singles(object):
    """What collections and batches are, one by one."""

    def __init__(self, hg):
        self.hg = hg
        self.n = 0

    def add(self, edges, ts=-1):
        for e in collection(edges):
            self.n += 1
            self.hg.add([e], ts)

    def remove(self, edges):
        for e in collection(edges):
            self.n += 1
            self.hg.remove([e])

    def add_belief(self, source, edges, ts=-1):
        for e in collection(edges):
            self.n += 1
            self.hg.add_belief(source, [e], ts)

    def remove_belief(self, source, edge):
        self.n += 1
        self.hg.remove_belief(source, edge)

    def remove_by_pattern(self, pattern):
        while True:
            edges = self.hg.pattern2edges(pattern)
            if not edges:
                return
            self.remove([e for e in edges])

    def destroy(self):
        self.n += 1
        self.hg.destroy()

    def batch_exec(self, funs):
        for f in funs:
            f(self)


@H09.kind('functions', 60, 800, 'batches in which the same function is given several times, and functions of all kinds')
def h09_functions(rng, obs, params):
    w = hist.World(rng, obs)
    for _ in range(rng.randint(1, 4)):
        calls = []

        def f(hg):
            calls.append('f')
            hg.add(('step/1', 'f%d' % calls.count('f'), len(calls)))

            return answer()

        def answer():
            return rng.choice([None, False, True, 0, 1, '', [], StopIteration, NotImplemented, ValueError('x'), hg_of()])

        def hg_of():
            return w.hg

        class Thing(object):
            def __call__(self, hg):
                calls.append('c')
                hg.add(('call/1', len(calls)))
                return answer()

            def method(self, hg):
                calls.append('m')
                hg.remove(('step/1', 'f%d' % calls.count('f'), 1))

        thing = Thing()
        kinds = {'f': f, 'c': thing, 'm': thing.method}
        order = [rng.choice('ffcm') for _ in range(rng.randint(0, 6))]
        w.obs.log('functions', order)
        funs = [kinds[k] for k in order]
        w.hg.batch_exec(funs if rng.random() < 0.5 else tuple(funs))
        if calls != order:
            raise Violation('batch_exec of %r ran %r' % (order, calls))
        n = 0
        for i, k in enumerate(order):
            if k == 'f':
                n += 1
                w.model.add(('step/1', 'f%d' % n, i + 1))
            elif k == 'c':
                w.model.add(('call/1', i + 1))
            else:
                w.model.remove(('step/1', 'f%d' % n, 1))
        obs.count('groups')
        obs.count('repeated_functions', len(order) - len(set(order)))
        obs.seen(order)
        w.step()
        hist.full_audit(w)
    obs.sample = obs.trace[:5]


@H09.kind('reads_in_batch', 80, 1500, 'what a batch wrote is seen by its own reads')
def h09_reads(rng, obs, params):
    w = hist.World(rng, obs)

    def look(w):
        hist.probe_exists(w)
        hist.probe_degree(w)
        hist.probe_pattern(w)
        hist.probe_star(w)
        hist.probe_timestamp(w)
        obs.count('reads_in_batches')

    for _ in range(rng.choice([3, 8])):
        w.op_batch(inside=look)
        obs.count('groups')
        obs.seen(w.model.state())
    hist.full_audit(w)
    obs.sample = obs.trace[:20]
