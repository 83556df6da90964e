"""How much work the operations take: the steps of SQLite's virtual machine and the calls of Python functions are
counted, while the hypergraph around what is asked for grows."""

import os
import sys
import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import REPO, Check, HarnessError, Violation, register, scratch
from gbmon.model import key
from gbmon.stubs import monitor

H17 = register(Check(
    'H17', 'The same operation is run on two hypergraphs: one has a few edges, the other one has hundreds of others '
    'as well, made to be close to what is asked for (they share all but one of its elements, or have names that sort '
    'next to it), or has had them and lost them again. Every instruction of the virtual machine of SQLite and every '
    'call of a function of the package is counted; the counts may differ by a constant at most. '
    'distinct_nontrivial counts distinct (hypergraph, operation) pairs.',
    assumptions=['work is what SQLite executes and what is called in the package: the cost of a single instruction, and '
                 'that of the C code of Python, are not measured'],
    need=['operations_measured', 'vm_steps', 'calls', 'small', 'shared_elements', 'removed_again', 'stars', 'patterns', 'roots', 'additions', 'removals', 'rounds', 'repeated_operations']))

SLACK_STEPS = 400
SLACK_CALLS = 150


class Meter(object):
    """Counts what happens on the connections of a hypergraph."""

    def __init__(self, path=':memory:'):
        monitor.record = True
        monitor.connections = []
        try:
            self.hg = hist.open_hg(path)
        finally:
            monitor.record = False
        self.conns = list(monitor.connections)
        if not self.conns:
            raise HarnessError('no connection was seen')

    def run(self, f):
        root = os.path.join(os.path.realpath(REPO), '')
        steps = [0]
        calls = [0]

        def step():
            steps[0] += 1
            return 0

        def profile(frame, event, _arg):
            if event == 'call' and frame.f_code.co_filename.startswith(roots):
                calls[0] += 1

        roots = (root, os.path.join(REPO, ''))
        for c in self.conns:
            c.set_progress_handler(step, 1)
        old = sys.getprofile()
        sys.setprofile(profile)
        try:
            res = f(self.hg)
        finally:
            sys.setprofile(old)
            for c in self.conns:
                c.set_progress_handler(None, 0)
        return res, steps[0], calls[0]

    def close(self):
        hist.close_hg(self.hg)


def near(rng, atom, i):
    """A symbol that sorts close to this atom."""
    s = str(atom)
    for cand in rng.sample(['%s!%d' % (s, i), '%s/%d' % (s, i), '%s%dx' % (s, i), 'q%dx' % i, '%s_%d' % (s[:-1], i)], 5):
        if gen.valid_symbol(cand) and cand != atom:
            return cand
    return 'q%dx' % i


def others(rng, elems, n, avoid):
    """Edges that have all but one of the elements, at most, and nothing that is avoided."""
    res = []
    seen = set()
    for i in range(n):
        k = rng.randint(0, min(2, len(elems) - 1)) if elems else 0
        share = rng.sample(list(elems), k)
        # not two of the same, instead of one: the one that is left out has to be missing
        new = [near(rng, rng.choice(elems) if elems and not isinstance(rng.choice(elems), tuple) else 'q', i)]
        if rng.random() < 0.3:
            new.append('q%dy' % i)
        e = share + new
        rng.shuffle(e)
        e = tuple(e)
        if len(e) < 2:
            e = e + ('q%dz' % i,)
        if missing(e, elems) and not avoid(e) and key(e) not in seen:
            seen.add(key(e))
            res.append(e)
    return res


def missing(e, elems):
    """Is at least one of the elements not in e (as often)?"""
    have = [key(x) for x in e]
    for x in elems:
        if key(x) in have:
            have.remove(key(x))
        else:
            return True
    return not elems


def fill(hg, edges):
    for i in range(0, len(edges), 100):
        hg.add(edges[i:i + 100], 5)


def drain(hg, edges):
    for i in range(0, len(edges), 100):
        hg.remove(edges[i:i + 100])


@H17.kind('growth', 25, 3000, 'operations on a hypergraph that grows around them')
def h17(rng, obs, params):
    pool, edges = gen.universe(rng, n_edges=rng.randint(3, 8), max_arity=4)
    w = hist.World(rng, obs, universe=(pool, edges))
    hist.close_hg(w.hg)
    for e in edges:
        w.model.add1(e)
    target = rng.choice(edges)
    x = rng.choice(target)
    pat = tuple(None if rng.random() < 0.5 else y for y in target)
    named = [y for y in pat if y is not None]
    fresh = gen.edge(rng, pool, [], 4) + ('new/1',)
    src = 'mary/1'
    roots = [y.split('/')[0] for y in pool if isinstance(y, str) and gen.valid_symbol(y.split('/')[0] or '(')]
    root = rng.choice(roots) if roots else 'nothing'

    def has_root(e):
        return any(isinstance(y, str) and y.startswith(root + '/') for y in e)

    def retract(hg):
        hg.add_belief(src, [fresh], 3)
        hg.remove_belief(src, fresh)

    link = ('source/1', fresh, src)
    plans = [
        ('exists', lambda hg: bool(hg.exists(target)), target, None, 'membership'),
        ('absent', lambda hg: bool(hg.exists(fresh)), fresh, None, 'membership'),
        ('degree', lambda hg: hg.degree(x), target, None, 'degrees'),
        ('timestamp', lambda hg: hg.timestamp(target), target, None, 'timestamps'),
        ('star', lambda hg: hg.star(x), (x,), None, 'stars'),
        ('add', lambda hg: hg.add([fresh], 9) and None, fresh, None, 'additions'),
        ('add again', lambda hg: hg.add([target], 9) and None, target, None, 'additions'),
        ('remove', lambda hg: hg.remove([target]), target, None, 'removals'),
        ('batch', lambda hg: hg.batch_exec([lambda h: h.add([fresh]), lambda h: h.remove([fresh])]), fresh, None, 'batches'),
        ('belief', retract, fresh, None, 'beliefs'),
        ('roots', lambda hg: hg.symbols_with_root(root), (), has_root, 'roots'),
    ]
    if named:
        plans.append(('pattern', lambda hg: hg.pattern2edges(pat), named, None, 'patterns'))
        plans.append(('remove by pattern', lambda hg: hg.remove_by_pattern(pat), named, None, 'pattern_removals'))
    for name, op, elems, avoid, counter in rng.sample(plans, 5):
        avoid = avoid or (lambda e: False)
        extra = [e for e in others(rng, tuple(elems), rng.choice([250, 600]), avoid)
                 if e not in (fresh, link) and not w.model.exists(e)]
        small = Meter()
        big = Meter()
        try:
            for m in (small, big):
                fill(m.hg, edges)
            fill(big.hg, extra)
            gone = rng.random() < 0.3
            if gone:
                drain(big.hg, extra)
                obs.count('removed_again')
            # whatever is prepared once
            for m in (small, big):
                m.hg.exists(('warm', 'up'))
            a, steps_a, calls_a = small.run(op)
            b, steps_b, calls_b = big.run(op)
        finally:
            small.close()
            big.close()
        obs.log(name, target, x, pat, fresh, root, len(extra), gone, (steps_a, calls_a), (steps_b, calls_b))
        obs.count('operations_measured')
        obs.count('small')
        obs.count(counter)
        obs.count('vm_steps', steps_b)
        obs.count('calls', calls_b)
        obs.count('shared_elements', sum(1 for e in extra if any(y in e for y in elems)))
        obs.seen((name, target, pat, fresh, root, gone, len(extra)))
        if steps_a == 0:
            raise HarnessError('%s: no work was seen' % name)
        if a != b and name != 'degree':
            raise Violation('%s gives %r, and with %d others %r' % (name, a, len(extra), b), obs.trace[-1])
        if len(extra) < 100:
            continue
        if steps_b > 1.5 * steps_a + SLACK_STEPS:
            raise Violation('%s takes %d steps of the database, and %d with %d other edges that have nothing to do with '
                            'it' % (name, steps_a, steps_b, len(extra)), obs.trace[-1])
        if calls_b > 1.5 * calls_a + SLACK_CALLS:
            raise Violation('%s takes %d calls, and %d with %d other edges that have nothing to do with it'
                            % (name, calls_a, calls_b, len(extra)), obs.trace[-1])
    obs.sample = obs.trace[-3:]


@H17.kind('every', 2, 30, 'more than a thousand operations of each kind, one after the other')
def every(rng, obs, params):
    """What is only done now and then (every so many operations) counts as well."""
    n = rng.choice([300, 520, 1100])
    stem = rng.choice(['y', 'x', "o'h", u'\u65e5'])
    extra = [('xx%d/1' % i, 'w%d' % (i % 1000), 'z%d' % i) for i in range(2500)]
    ops = []
    for i in range(n):
        e = (stem + '%d/1' % i, 'k%d' % (i % 50))
        ops += [('add', lambda hg, e=e: hg.add(e, 7) and None),
                ('exists', lambda hg, e=e: bool(hg.exists(e))),
                ('degree', lambda hg, e=e: hg.degree(e[0])),
                ('timestamp', lambda hg, e=e: hg.timestamp(e)),
                ('star', lambda hg, e=e: hg.star(e[0])),
                ('pattern', lambda hg, e=e: hg.pattern2edges((e[0], None))),
                ('roots', lambda hg, i=i: hg.symbols_with_root(stem + str(i)))]
        if i % 3 == 0:
            ops += [('add_belief', lambda hg, e=e: hg.add_belief('mary', e, 8)),
                    ('remove_belief', lambda hg, e=e: hg.remove_belief('mary', e))]
        elif i % 3 == 1:
            ops.append(('remove', lambda hg, e=e: hg.remove(e)))
        else:
            ops.append(('batch', lambda hg, e=e: hg.batch_exec([lambda h: h.remove(e), lambda h: h.add(e)])))
    small = Meter()
    big = Meter()
    try:
        fill(big.hg, extra)
        for m in (small, big):
            m.hg.exists(('warm', 'up'))
        for i, (name, op) in enumerate(ops):
            a, steps_a, calls_a = small.run(op)
            b, steps_b, calls_b = big.run(op)
            obs.count('repeated_operations')
            if a != b:
                raise Violation('%s (operation %d) gives %r, and with %d others %r' % (name, i, a, len(extra), b))
            if steps_b > 1.5 * steps_a + SLACK_STEPS:
                raise Violation('%s (operation %d) takes %d steps of the database, and %d with %d other edges that have '
                                'nothing to do with it' % (name, i, steps_a, steps_b, len(extra)))
            if calls_b > 1.5 * calls_a + SLACK_CALLS:
                raise Violation('%s (operation %d) takes %d calls, and %d with %d other edges that have nothing to do '
                                'with it' % (name, i, calls_a, calls_b, len(extra)))
    finally:
        small.close()
        big.close()
    obs.seen((n, stem))
    obs.log(n, stem)
    obs.sample = n


@H17.kind('reuse', 15, 1500, 'a handle that is used for long')
def reuse(rng, obs, params):
    """The same operations over and over: they do not get slower, and leave no cursors, locks or transactions behind."""
    import gc
    with scratch() as d:
        m = Meter(hist.db_path(d))
        try:
            pool, edges = gen.universe(rng, n_edges=5, max_arity=3)

            def rounds(hg):
                for e in edges:
                    hg.add([e], 4)
                for e in edges:
                    hg.exists(e)
                    hg.degree(e)
                    hg.timestamp(e[0])
                    hg.star(e[0])
                    hg.pattern2edges(e[:1] + (None,) * (len(e) - 1))
                hg.add_belief('mary/1', list(edges))
                list(hg.f_all(lambda v: v))
                next(hg.f_all(lambda v: v), None)
                for e in edges:
                    hg.remove_belief('mary/1', e)
                hg.remove(list(edges))
                hg.batch_exec([lambda h: h.add([edges[0]]), lambda h: h.remove([edges[0]])])

            first = None
            for i in range(12):
                _, steps, calls = m.run(rounds)
                obs.count('rounds')
                obs.count('vm_steps', steps)
                obs.count('calls', calls)
                gc.collect()
                files = len(os.listdir('/proc/self/fd'))
                if any(c.in_transaction for c in m.conns):
                    raise Violation('a transaction is left open')
                if i == 2:
                    first = steps, calls, files
                if i > 2:
                    if steps > 1.2 * first[0] + SLACK_STEPS or calls > 1.2 * first[1] + SLACK_CALLS:
                        raise Violation('round %d takes %d steps and %d calls; the third one took %d and %d' % (
                            i + 1, steps, calls, first[0], first[1]))
                    if files > first[2] + 3:
                        raise Violation('%d files are open after %d rounds; %d were after the third' % (
                            files, i + 1, first[2]))
            obs.seen((pool, edges))
            obs.log(edges, first)
        finally:
            m.close()
    obs.sample = obs.trace
