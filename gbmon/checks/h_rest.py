"""H22: between two calls, a hypergraph keeps nothing: no lock, no transaction, no file, no memory of the calls."""

import gc
import os
import sys
import sqlite3

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register, scratch
from gbmon.stubs import monitor, _real_connect
from gbmon.checks.h_faults import Boom, Injected, Injector, check_state, random_op
from gbmon.checks.h_pure import Watch, ask

H22 = register(Check(
    'H22', 'Histories on a file, with questions, calls that fail (a database error at a random point, an exception in '
    'a function of a batch), and traversals that are given up half way. Whenever no call is under way: another '
    'connection has to get the exclusive lock at once, the files of the database that the process has open must not '
    'be more than when the handle was opened, and after the handle is dropped, none. And a round of calls that is '
    'repeated must not leave more objects each time.',
    assumptions=['a traversal that was begun and not finished may hold what it needs, until it is closed'],
    need=['locks_tried', 'files_counted', 'failed_calls', 'given_up', 'handles_dropped', 'rounds_repeated']))


def held(path):
    """Of the files of the database, those that this process has open."""
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            name = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if name.startswith(path):
            res.append(name)
    return sorted(res)


def free(w, what):
    """Somebody else can have the database for itself."""
    other = _real_connect(w.path, timeout=0, isolation_level=None)
    try:
        other.execute('BEGIN EXCLUSIVE')
        other.execute('ROLLBACK')
    except sqlite3.OperationalError as e:
        raise Violation('after %s the database is not free for others: %s' % (what, e))
    finally:
        other.close()
    w.obs.count('locks_tried')


def files(w, n, what):
    got = held(w.path)
    w.obs.count('files_counted', len(got))
    if len(got) > n:
        raise Violation('after %s the process has %d files of the database open, and %d when it was opened: %r' % (
            what, len(got), n, got))


def failing(w, rng):
    """A call that fails, or goes through. Returns what it is and if it failed."""
    name, op = random_op(w, rng)
    r = rng.random()
    after = w.model.copy()
    if r < 0.6:
        inj = Injector(rng.choice([1, 2, 3, 4, 5, 7, 10, 15, 25]), rng.choice(['before', 'after']))
        op(after)
        monitor.listener = inj
        try:
            op(w.hg)
        except Injected:
            return 'the failure of %s at %r' % (name, inj.fired), True
        finally:
            monitor.listener = None
        w.model = after
        return name, False

    def bad(hg):
        raise Boom('bad')

    try:
        w.hg.batch_exec([op, bad] if r < 0.9 else [bad, op])
    except Boom:
        pass
    return 'a batch that raised after %s' % name, True


def give_up(w, rng):
    """A traversal that nobody finishes."""
    it = w.hg.f_all(lambda x: x['vertex'])
    n = rng.choice([0, 1, 1, 2, 5])
    for _ in range(n):
        if next(it, None) is None:
            break
    how = rng.choice(['close', 'drop', 'raise'])
    if how == 'close':
        it.close()
    elif how == 'raise':
        def bad(x):
            raise Boom('bad')
        try:
            for _ in w.hg.f_all(bad):
                pass
        except Boom:
            pass
    del it
    w.obs.count('given_up')
    return 'a traversal that was given up (%s) after %d' % (how, n)


@H22.kind('free', 60, 900, 'no lock and no further file between two calls, also after failures')
def free_between(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        uni = gen.universe(rng, n_edges=rng.randint(3, 7), max_arity=rng.choice([3, 4]))
        w = hist.World(rng, obs, path, universe=uni)
        w.ops = dict((k, v) for k, v in w.ops.items() if k != 'reopen')
        n = len(held(path))
        watch = Watch(rng, obs)
        free(w, 'opening it')
        failed = False
        for _ in range(rng.randint(6, 14)):
            r = rng.random()
            if r < 0.4:
                what = w.step()
            elif r < 0.65:
                kind, arg, q, _ = ask(w, rng, obs, watch)
                q()
                # it knows the hypergraph
                del q, _
                watch.settle(kind)
                what = 'the question %s %r' % (kind, arg)
            elif r < 0.85:
                what, failed = failing(w, rng)
                if failed:
                    obs.count('failed_calls')
                obs.seen((w.model.state(), what))
            else:
                what = give_up(w, rng)
            if failed or rng.random() < 0.1:
                # the exception was dropped, and with it the frames that it kept
                gc.collect()
                failed = False
            obs.log(what)
            free(w, what)
            files(w, n, what)
        check_state(w, w.model, 'at the end')
        free(w, 'looking at everything')
        w.hg = None
        gc.collect()
        got = held(path)
        obs.count('handles_dropped')
        if got:
            raise Violation('nobody has the hypergraph any more, but %r are still open' % got)
        obs.sample = obs.trace[-8:]


@H22.kind('memory', 12, 150, 'the same calls again and again')
def memory(rng, obs, params):
    with scratch() as d:
        w = hist.World(rng, obs, rng.choice([hist.db_path(d), ':memory:']))
        for _ in range(rng.randint(0, 6)):
            w.step(only=['add', 'add_many', 'add_belief'])
        es = [w.pick() for _ in range(3)]
        es = [e for e in es if isinstance(e, tuple)]
        src = w.sources[0]
        pat = w.pattern()
        v = rng.choice(w.vertices())
        root = rng.choice(hist.roots(w))
        hg = w.hg

        def bad(hg):
            hg.add(es, 1)
            raise Boom('bad')

        def fail():
            try:
                hg.batch_exec([bad])
            except Boom:
                pass

        def begin():
            it = hg.f_all(lambda x: x['degree'])
            next(it, None)
            it.close()

        calls = [
            ('add', lambda: hg.add(es, 5)), ('remove', lambda: hg.remove(es)), ('exists', lambda: hg.exists(es[0])),
            ('add_belief', lambda: hg.add_belief(src, es, 5)), ('remove_belief', lambda: hg.remove_belief(src, es[0])),
            ('pattern2edges', lambda: hg.pattern2edges(pat)), ('star', lambda: hg.star(v)),
            ('degree', lambda: hg.degree(v)), ('timestamp', lambda: hg.timestamp(v)),
            ('symbols_with_root', lambda: hg.symbols_with_root(root)), ('sources', lambda: hg.sources(es[0])),
            ('ego', lambda: hg.ego(v, 1)), ('f_all', lambda: list(hg.f_all(lambda x: x['degree']))),
            ('f_all begun', begin), ('batch_exec', lambda: hg.batch_exec([lambda h: h.add(es, 5)])),
            ('a batch that fails', fail),
        ]
        calls = rng.sample(calls, rng.randint(3, 6))
        what = [name for name, _ in calls]
        obs.log('repeats', what)
        obs.seen((w.model.state(), what))
        sizes = []
        for n in (60, 60, 60):
            for _ in range(n):
                for _, f in calls:
                    f()
            gc.collect()
            sizes.append(sys.getallocatedblocks())
        obs.count('rounds_repeated', 180)
        # the first 60 rounds fill whatever is kept once; two more blocks that both grow are a leak
        if sizes[1] - sizes[0] >= 55 and sizes[2] - sizes[1] >= 55:
            raise Violation('60 rounds of %s leave %d blocks of memory, and 60 more leave %d: the same calls use up more and '
                            'more' % (what, sizes[1] - sizes[0], sizes[2] - sizes[1]))
        obs.sample = obs.trace[-8:]
