"""H12: durability and visibility. H13: concurrent processes."""

import json
import os
import random
import signal
import sqlite3
import time

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, HarnessError, VERIF, Violation, register, scratch
from gbmon.model import Model, key, same_edge_set, tup
from gbmon.stubs import monitor, _real_connect
from gbmon.checks.h_faults import check_state, large_op, random_op

H12 = register(Check(
    'H12', 'Histories spread over several handles and processes on one database file: once an operation has returned, '
    'every other handle (opened before or after), a new process, and a reader after the writer was killed, have to '
    'observe it; an ongoing batch must not be observed by others; databases with older tables, and one written by the '
    'original version, have to open with their content. distinct_nontrivial counts distinct states of the model.',
    assumptions=['a reader that finds the database locked gets an error and not an answer'],
    need=['handles_agree', 'killed_writers', 'isolation_reads', 'upgrades', 'fixture_reads', 'named_databases']))


@H12.kind('handles', 120, 1500, 'several handles in one process')
def handles(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        w = hist.World(rng, obs, path)
        hgs = [w.hg]
        many = rng.random() < 0.05
        for _ in range(rng.choice([19, 40]) if many else rng.randint(1, 3)):
            hgs.append(hist.open_hg(path))
        for _ in range(rng.choice([8, 15, 30])):
            w.hg = rng.choice(hgs)
            if rng.random() < 0.02:
                name, op = large_op(w, rng)
                op(w.hg)
                op(w.model)
                obs.log(name)
            else:
                w.step(only=[o for o in w.ops if o != 'reopen'])
            r = rng.random()
            if r < 0.1:
                i = rng.randrange(len(hgs))
                hist.close_hg(hgs[i])
                hgs[i] = hist.open_hg(path)
            w.hg = rng.choice(hgs)
            for _ in range(2):
                rng.choice([hist.probe_exists, hist.probe_degree, hist.probe_star, hist.probe_timestamp,
                            hist.probe_pattern])(w)
            obs.count('handles_agree')
        for hg in hgs:
            w.hg = hg
            hist.full_audit(w)
        for hg in hgs:
            hist.close_hg(hg)
        w.hg = hist.open_hg(path)
        hist.full_audit(w)
        hist.close_hg(w.hg)
        obs.sample = obs.trace[:20]


NAMES = ['gb.db', 'GB2.db', 'a?b.db', 'a#b.db', 'a%20b.db', 'a b.db', "a'b.db", 'a?mode=memory', 'a', 'a?c.db',
         'file:a', u'\u00e9.db', 'e\u0301.db', '-x', 'x.db-old', 'a&b', 'memory', '.hidden', '~', '~x', '$HOME', '%s.db',
         '{}.db', 'a;b', 'x\\y', '*.db', ' x.db', 'x' * 120, 'x' * 119 + 'y', 'x' * 200 + '.db']


@H12.kind('names', 30, 400, 'databases whose names resemble each other, each with its own content')
def names(rng, obs, params):
    with scratch() as d:
        worlds = []
        u = gen.universe(rng)
        for name in rng.sample(NAMES, rng.randint(2, 5)):
            w = hist.World(rng, obs, hist.db_path(d, name), universe=u)
            w.name = name
            worlds.append(w)
        for _ in range(rng.choice([8, 20])):
            w = rng.choice(worlds)
            w.step()
            rng.choice([hist.probe_exists, hist.probe_degree, hist.probe_star])(rng.choice(worlds))
        for w in worlds:
            if not os.path.isfile(w.path) or not os.path.getsize(w.path):
                raise Violation('there is no file %r: %r' % (w.name, os.listdir(d)))
            hist.close_hg(w.hg)
        if any(not any(f.startswith(w.name) for w in worlds) for f in os.listdir(d)):
            raise Violation('the files are %r, and not %r' % (sorted(os.listdir(d)), sorted(w.name for w in worlds)))
        for w in worlds:
            w.hg = hist.open_hg(w.path)
            hist.full_audit(w)
            hist.close_hg(w.hg)
            obs.count('named_databases')
        obs.sample = obs.trace[:5]


def forked(f):
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            f()
            code = 0
        except BaseException:
            import traceback
            log = os.environ.get('GBMON_CHILD_LOG')
            if log:
                with open(log, 'a') as out:
                    out.write(traceback.format_exc())
        finally:
            os._exit(code)
    return pid


@H12.kind('killed', 48, 600, 'a process that writes, acknowledges, and is killed without closing')
def killed(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        w = hist.World(rng, obs, path)
        early = w.hg
        for _ in range(rng.randint(1, 4)):
            ops = [random_op(w, rng) for _ in range(rng.randint(1, 4))]
            obs.log('in another process', [o[0] for o in ops])
            rd, wr = os.pipe()

            def work():
                hg = hist.open_hg(path)
                for _, op in ops:
                    op(hg)
                    os.write(wr, b'.')
                os.write(wr, b'!')
                time.sleep(60)

            pid = forked(work)
            os.close(wr)
            for _, op in ops:
                ack = os.read(rd, 1)
                if ack != b'.':
                    os.waitpid(pid, 0)
                    raise Violation('an operation failed in another process: %r' % ([o[0] for o in ops],))
                op(w.model)
            # while the writer is alive, and has all its handles open
            os.read(rd, 1)
            w.hg = early if rng.random() < 0.5 else hist.open_hg(path)
            hist.full_audit(w)
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(rd)
            obs.count('killed_writers')
            obs.seen(w.model.state())
            w.hg = early if rng.random() < 0.5 else hist.open_hg(path)
            hist.full_audit(w)
            w.hg = hist.open_hg(path)
            w.step(only=['add', 'remove', 'batch', 'add_many'])
        w.hg = early
        hist.full_audit(w)
        obs.sample = obs.trace[-6:]


@H12.kind('isolation', 60, 800, 'an ongoing batch is not observed by other handles until it ends')
def isolation(rng, obs, params):
    monitor.timeout = 0.01
    try:
        with scratch() as d:
            path = hist.db_path(d)
            w = hist.World(rng, obs, path)
            for _ in range(rng.randint(0, 8)):
                w.step(only=['add', 'add_many', 'remove', 'add_belief'])
            other = hist.open_hg(path)
            for _ in range(3):
                before = w.model.copy()

                def inside(world):
                    try:
                        check_state(world, before, 'another handle, during a batch', other)
                        obs.count('isolation_reads')
                    except sqlite3.OperationalError:
                        obs.count('isolation_locked')
                w.op_batch(inside=inside)
                obs.seen(w.model.state())
                check_state(w, w.model, 'another handle, after the batch', other)
            hist.close_hg(other)
            hist.close_hg(w.hg)
            obs.sample = obs.trace[-8:]
    finally:
        monitor.timeout = None


@H12.kind('under_way', 40, 500, 'an operation under way is not observed by other handles, at any of its statements')
def under_way(rng, obs, params):
    monitor.timeout = 0.01
    try:
        with scratch() as d:
            path = hist.db_path(d)
            w = hist.World(rng, obs, path)
            for _ in range(rng.randint(0, 8)):
                w.step(only=['add', 'add_many', 'remove', 'add_belief'])
            other = hist.open_hg(path)
            for _ in range(rng.choice([1, 2])):
                large = rng.random() < 0.3
                name, op = (large_op if large else random_op)(w, rng)
                before = w.model
                after = before.copy()
                op(after)
                changed = [e for k, e in after.edges.items() if k not in before.edges] + \
                          [e for k, e in before.edges.items() if k not in after.edges]
                vertices = [x for e in changed[:40] for x in e]
                looks = []
                # looks at first, and then less and less often
                state = {'n': 0, 'next': rng.randint(1, 3), 'busy': False}

                def look(kind, sql, when):
                    if state['busy']:
                        return
                    state['n'] += 1
                    if state['n'] < state['next']:
                        return
                    state['next'] = state['n'] + rng.randint(1, 3 + state['n'] // 3)
                    state['busy'] = True
                    try:
                        some = rng.sample(changed, min(5, len(changed))) + changed[:1] + changed[-1:]
                        degs = rng.sample(vertices, min(4, len(vertices))) + some[:2]
                        old = [before.exists(e) for e in some] + [before.degree(v) for v in degs]
                        new = [after.exists(e) for e in some] + [after.degree(v) for v in degs]
                        # the one who writes waits meanwhile
                        got = [bool(other.exists(e)) for e in some] + [other.degree(v) for v in degs]
                        looks.append((kind, state['n'], some, degs, got, old, new))
                        obs.count('isolation_reads')
                    except sqlite3.OperationalError as e:
                        if 'locked' not in str(e):
                            raise
                        obs.count('isolation_locked')
                    finally:
                        state['busy'] = False
                obs.log('looks during', name)
                monitor.listener = look
                try:
                    op(w.hg)
                finally:
                    monitor.listener = None
                done = False
                for kind, n, some, degs, got, old, new in looks:
                    if not done and got == old:
                        continue
                    # it was committed, and not yet returned
                    done = True
                    if got != new:
                        raise Violation('during %s (at statement %d) another handle finds %r, which is neither as '
                                        'before nor as after it' % (name, n, list(zip(some + degs, got))))
                w.model = after
                obs.seen((w.model.state(), name))
                check_state(w, w.model, 'another handle, after %s' % name, other)
            hist.close_hg(other)
            hist.close_hg(w.hg)
            obs.sample = obs.trace[-8:]
    finally:
        monitor.timeout = None


@H12.kind('old_tables', 40, 500, 'a database whose tables lack the columns that were added later is upgraded in place')
def old_tables(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        w = hist.World(rng, obs, path, timestamps=False)
        for _ in range(rng.randint(1, 15)):
            w.step(only=['add', 'add_many', 'remove', 'add_belief'])
        hist.close_hg(w.hg)
        raw = _real_connect(path)
        variant = rng.choice(['id', 'id,degree', 'none'])
        if variant == 'none':
            if w.model.edges:
                variant = 'id,degree'
            else:
                raw.execute('DROP TABLE vertices')
                w.model.destroy()
        if variant != 'none':
            raw.execute('CREATE TABLE old (id TEXT PRIMARY KEY%s)' % (
                ', degree INTEGER DEFAULT 0' if 'degree' in variant else ''))
            raw.execute('INSERT INTO old (%s) SELECT %s FROM vertices' % (variant, variant))
            raw.execute('DROP TABLE vertices')
            raw.execute('ALTER TABLE old RENAME TO vertices')
        raw.commit()
        raw.close()
        obs.log('old tables', variant)
        obs.seen((w.model.state(), variant))
        for row in w.model.rows.values():
            row[2] = -1
            if variant == 'id':
                row[1] = 0
        for i in range(2):
            w.hg = hist.open_hg(path)
            hist.full_audit(w)
            if variant == 'id':
                # degrees start from zero: only additions of new edges have a meaning
                new = ('new%d/1' % i, rng.choice(w.pool), 'x')
                w.hg.add(new, 77)
                w.model.add(new, 77)
                hist.full_audit(w)
            else:
                for _ in range(5):
                    w.step()
                hist.full_audit(w)
            hist.close_hg(w.hg)
        obs.count('upgrades')
        obs.sample = obs.trace[-6:]


@H12.kind('fixture', 2, 2, 'a database written by the original version of the program')
def fixture(rng, obs, params):
    with open(os.path.join(VERIF, 'fixtures', 'base_sqlite.json')) as f:
        fx = json.load(f)
    with scratch() as d:
        path = hist.db_path(d)
        raw = _real_connect(path)
        raw.executescript('\n'.join(fx['sql']))
        raw.close()
        edges = [tup(e) for e in fx['edges']]
        pool = sorted(set(x for e in edges for x in e if not isinstance(x, tuple)), key=repr)
        w = hist.World(rng, obs, path, universe=(pool, edges))
        for i, e in enumerate(edges):
            w.model.add([e], 1000 + i)
        w.model.add([('gone', 'a', 'b')], 5)
        w.model.rows[key('gone')][2] = 5
        w.model.remove([('gone', 'a', 'b')])
        hist.full_audit(w)
        obs.count('fixture_reads', len(edges))
        obs.seen(edges)
        obs.seen(len(edges))
        for _ in range(30):
            w.step()
        hist.full_audit(w)
        hist.close_hg(w.hg)


H13 = register(Check(
    'H13', 'Processes with their own handles on one database file add and remove overlapping edges, run batches and '
    'read, with random delays injected between statements. Calls and returns are recorded with one monotonic clock; '
    'offline, the history of each edge has to be linearizable as the membership of a set (an operation that failed '
    'because of a lock may or may not count), reads never see half of a batch, degrees grow with acknowledged '
    'additions, and the final state has to be that of some order. distinct_nontrivial counts distinct interleavings '
    '(orders of the calls and returns of all the processes).',
    assumptions=['operations that fail because the database stays locked are allowed, and count as maybe done'],
    need=['concurrent_pairs', 'linearized_histories', 'pair_reads', 'degree_reads', 'waited']))


class Recorder(object):
    def __init__(self, pid):
        self.pid = pid
        self.events = []

    def call(self, what, arg, f):
        t0 = time.monotonic_ns()
        status, res = 'ok', None
        try:
            res = f()
        except sqlite3.OperationalError as e:
            if 'locked' not in str(e):
                raise
            status = 'maybe'
        t1 = time.monotonic_ns()
        self.events.append((t0, t1, self.pid, what, arg, status, res))


def linearizable(ops):
    """Is a history of one edge linearizable? ops: (start, end, kind, result), kind in add, remove, read, and maybe_add,
    maybe_remove for those that may not have had effect, at any later time. Returns True, False, or None if too long."""
    ops = sorted(ops)
    n = len(ops)
    seen = set()
    budget = [200000]

    def search(done, state):
        # done: bit set of the linearized (or dropped) ones
        if done == (1 << n) - 1:
            return True
        if (done, state) in seen:
            return False
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError()
        first_end = min(ops[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1:
                continue
            start, end, kind, res = ops[i]
            if start > first_end:
                break
            if kind == 'read':
                if res == state and search(done | 1 << i, state):
                    return True
            elif kind in ('add', 'remove'):
                if search(done | 1 << i, kind == 'add'):
                    return True
            else:
                if search(done | 1 << i, kind == 'maybe_add') or search(done | 1 << i, state):
                    return True
        seen.add((done, state))
        return False

    try:
        return search(0, False)
    except OverflowError:
        return None


@H13.kind('processes', 80, 1000, '2 to 5 processes on one database')
def processes(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        hist.close_hg(hist.open_hg(path))
        nproc = rng.choice([2, 3, 3, 4, 5])
        nops = rng.choice([10, 20, 30])
        pool = gen.atoms(rng, 4)
        contended = []
        while len(contended) < 4:
            e = gen.edge(rng, pool, [('n', 'x')], 3, 0.2)
            if key(e) not in [key(c) for c in contended]:
                contended.append(e)
        # two edges that are only added and removed together
        pairs = [(('p1/1', 'pair%d' % i, pool[0]), ('p2/1', 'pair%d' % i, pool[-1])) for i in range(2)]
        delay = rng.choice([0, 0, 0.0002, 0.001])
        seeds = [rng.random() for _ in range(nproc)]
        style = rng.choice(['mixed', 'mixed', 'adds', 'batches'])
        start_at = time.monotonic() + 0.05
        pids = []
        for p in range(nproc):
            out = os.path.join(d, 'out%d' % p)

            def work(p=p, out=out):
                r = random.Random(seeds[p])
                if delay:
                    def listener(kind, sql, when):
                        if r.random() < 0.2:
                            time.sleep(r.random() * delay)
                    monitor.listener = listener
                hg = hist.open_hg(path)
                rec = Recorder(p)
                while time.monotonic() < start_at:
                    time.sleep(0.001)
                for i in range(nops):
                    one_op(hg, rec, r, p, i, contended, pairs, style)
                with open(out, 'w') as f:
                    f.write(repr(rec.events))
            pids.append(forked(work))
        failed = []
        for pid in pids:
            status = os.waitpid(pid, 0)[1]
            if status != 0:
                failed.append(status)
        if failed:
            raise Violation('%d of %d concurrent processes failed (status %r)' % (len(failed), nproc, failed))
        events = []
        for p in range(nproc):
            with open(os.path.join(d, 'out%d' % p)) as f:
                events += eval(f.read(), {'__builtins__': {}}, {'inf': float('inf')})
        obs.log('events', sorted(events))
        check_concurrent(rng, obs, path, events, contended, pairs, pool)
        order = tuple(pid for _, pid in sorted([(ev[0], ev[2]) for ev in events] + [(ev[1], -1 - ev[2]) for ev in events]))
        obs.seen(order)
        obs.count('events', len(events))
        obs.count('locked', len([ev for ev in events if ev[5] == 'maybe']))
        obs.sample = {'processes': nproc, 'style': style, 'events': sorted(events)[:6]}


def one_op(hg, rec, r, p, i, contended, pairs, style):
    x = r.random()
    if style == 'adds':
        x *= 0.45
    elif style == 'batches' and x < 0.3:
        x = 0.5
    if x < 0.12:
        es = [('u/1', 'hub', 'u%d_%d' % (p, i))]
        rec.call('hub_add', es[0], lambda: hg.add(es[0]))
    elif x < 0.3:
        e = r.choice(contended)
        rec.call('add', (e,), lambda: hg.add([e], p))
    elif x < 0.38:
        es = tuple(r.sample(contended, 2))
        rec.call('add', es, lambda: hg.add(es))
    elif x < 0.45:
        rec.call('degree', 'hub', lambda: hg.degree('hub'))
    elif x < 0.55:
        pr = r.choice(pairs)
        if r.random() < 0.5:
            rec.call('add', pr, lambda: hg.batch_exec([lambda h: h.add(pr[0]), lambda h: h.add(pr[1])]))
        else:
            rec.call('remove', pr, lambda: hg.batch_exec([lambda h: h.remove(pr[0]), lambda h: h.remove(pr[1])]))
    elif x < 0.68:
        e = r.choice(contended)
        rec.call('remove', (e,), lambda: hg.remove([e]))
    elif x < 0.72:
        es = tuple(r.sample(contended, 2))
        rec.call('remove', es, lambda: hg.remove(es))
    elif x < 0.88:
        e = r.choice(contended)
        rec.call('read', e, lambda: bool(hg.exists(e)))
    else:
        pr = r.choice(pairs)
        rec.call('pair', pr, lambda: tuple(sorted(hg.star(pr[0][1]), key=repr)))


def check_concurrent(rng, obs, path, events, contended, pairs, pool):
    # overlap: how much concurrency there was
    evs = sorted(events)
    for a in range(len(evs)):
        for b in range(a + 1, min(a + 12, len(evs))):
            if evs[b][0] < evs[a][1] and evs[a][2] != evs[b][2]:
                obs.count('concurrent_pairs')
    hg = hist.open_hg(path)
    end = max(ev[1] for ev in events) + 1 if events else 1
    everything = contended + [e for pr in pairs for e in pr]
    final = dict((key(e), bool(hg.exists(e))) for e in everything)
    for e in everything:
        ops = []
        for t0, t1, pid, what, arg, status, res in events:
            if what in ('add', 'remove') and any(key(x) == key(e) for x in arg):
                if status == 'maybe':
                    ops.append((t0, end + 10, 'maybe_' + what, None))
                else:
                    ops.append((t0, t1, what, None))
            elif what == 'read' and key(arg) == key(e) and status == 'ok':
                ops.append((t0, t1, 'read', res))
            elif what == 'pair' and status == 'ok' and any(key(x) == key(e) for x in arg):
                ops.append((t0, t1, 'read', e in res))
        ops.append((end + 1, end + 2, 'read', final[key(e)]))
        ok = linearizable(ops)
        if ok is None:
            obs.count('linearizability_inconclusive')
        elif not ok:
            raise Violation('the history of %r is not linearizable' % (e,), witness=sorted(ops))
        else:
            obs.count('linearized_histories')
    # halves of batches
    for t0, t1, pid, what, arg, status, res in events:
        if what == 'pair' and status == 'ok':
            got = set(key(x) for x in res)
            both = set(key(x) for x in arg)
            if got and got != both:
                raise Violation('a read saw half of a batch: %r of %r' % (res, arg))
            obs.count('pair_reads')
    # degrees
    adds = [(ev[0], ev[1], ev[5]) for ev in events if ev[3] == 'hub_add']
    for t0, t1, pid, what, arg, status, res in events:
        if what == 'degree' and status == 'ok':
            low = len([1 for a in adds if a[1] < t0 and a[2] == 'ok'])
            high = len([1 for a in adds if a[0] < t1])
            obs.count('degree_reads')
            if not low <= res <= high:
                raise Violation('degree %r was read when between %d and %d additions had been done' % (res, low, high))
    # the final state
    model = Model()
    hub = sorted(hg.star('hub'))
    acked = set(tup(ev[4]) for ev in events if ev[3] == 'hub_add' and ev[5] == 'ok')
    maybe = set(tup(ev[4]) for ev in events if ev[3] == 'hub_add' and ev[5] != 'ok')
    if not acked <= set(hub) or not set(hub) <= acked | maybe:
        raise Violation('acknowledged edges %r are missing, edges %r come from nowhere' % (
            sorted(acked - set(hub)), sorted(set(hub) - acked - maybe)))
    edges = [e for e in everything if final[key(e)]] + hub
    model.add(edges) if edges else None
    bad = same_edge_set(hist.stored(type('W', (), {'hg': hg})), edges)
    if bad:
        raise Violation('the final edges: %s' % bad)
    for v in list(pool) + everything + ['hub', ('n', 'x'), 'pair0', 'pair1', 'p1/1', 'p2/1', 'u/1']:
        if hg.degree(v) != model.degree(v):
            raise Violation('final degree of %r is %r, but it occurs %d times' % (v, hg.degree(v), model.degree(v)))
        bad = same_edge_set(hg.star(v), model.star(v))
        if bad:
            raise Violation('final star(%r): %s' % (v, bad))
    seen = {}
    for vm in hg.f_all(lambda x: x):
        k = key(vm['vertex'])
        if k in seen:
            raise Violation('final traversal: %r twice' % (vm,))
        seen[k] = vm['degree']
    for k, row in model.rows.items():
        if seen.get(k) != row[1]:
            raise Violation('final traversal: %r has degree %r, expected %r' % (k, seen.get(k), row[1]))
    for k in seen:
        if seen[k] and k not in model.rows:
            raise Violation('final traversal: unexpected %r' % (k,))
    obs.count('final_audits')
    hist.close_hg(hg)


@H13.kind('large', 5, 60, 'additions and removals of hundreds of edges at once, read by other processes meanwhile')
def large(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        hg = hist.open_hg(path)
        n = rng.choice([101, 150, 257, 400])
        groups = [[('in%d/1' % g, 'x%d' % i) for i in range(n)] for g in range(3)]
        hg.add([('seed/1', 'x0')])
        hist.close_hg(hg)
        end = time.monotonic() + rng.choice([0.6, 1.0, 1.6])
        seeds = [rng.random() for _ in range(4)]
        pids = []
        for p in range(4):
            out = os.path.join(d, 'out%d' % p)

            def work(p=p, out=out):
                r = random.Random(seeds[p])
                hg = hist.open_hg(path)
                rec = Recorder(p)
                while time.monotonic() < end:
                    g = r.randrange(3)
                    edges = groups[g]
                    if p < 2:
                        how = r.random()
                        if how < 0.3:
                            rec.call('add', g, lambda: hg.add(edges) and None)
                        elif how < 0.6:
                            rec.call('add', g, lambda: hg.batch_exec([lambda h, e=e: h.add(e) for e in edges]))
                        elif how < 0.8:
                            rec.call('remove', g, lambda: hg.remove(edges))
                        else:
                            rec.call('remove', g, lambda: hg.batch_exec(
                                [lambda h: h.remove(edges[:50]), lambda h: h.remove(edges[50:])]))
                    else:
                        how = r.random()
                        if how < 0.4:
                            rec.call('read', g, lambda: hg.degree('in%d/1' % g))
                        elif how < 0.7:
                            rec.call('read', g, lambda: len(hg.star('in%d/1' % g)))
                        else:
                            rec.call('read', g, lambda: len(hg.pattern2edges(('in%d/1' % g, None))))
                        time.sleep(r.random() * 0.003)
                with open(out, 'w') as f:
                    f.write(repr(rec.events))
            pids.append(forked(work))
        failed = [status for status in [os.waitpid(pid, 0)[1] for pid in pids] if status]
        if failed:
            raise Violation('%d of %d concurrent processes failed (status %r)' % (len(failed), len(pids), failed))
        events = []
        for p in range(4):
            with open(os.path.join(d, 'out%d' % p)) as f:
                events += eval(f.read(), {'__builtins__': {}})
        obs.log('events', sorted(events)[:40])
        last = max(ev[1] for ev in events)
        hg = hist.open_hg(path)
        finals = []
        for g in range(3):
            ops = []
            for t0, t1, pid, what, arg, status, res in events:
                if arg != g:
                    continue
                if what == 'read':
                    if status == 'ok':
                        if res not in (0, n):
                            raise Violation('a read found %r of the %d edges that are added and removed at once' % (res, n))
                        ops.append((t0, t1, 'read', res == n))
                        obs.count('pair_reads')
                else:
                    ops.append((t0, last + 10, 'maybe_' + what, None) if status == 'maybe' else (t0, t1, what, None))
            finals.append(bool(hg.exists(groups[g][0])))
            ops.append((last + 1, last + 2, 'read', finals[-1]))
            ok = linearizable(ops)
            if ok is None:
                obs.count('linearizability_inconclusive')
            elif not ok:
                raise Violation('the history of the group %d is not linearizable' % g, witness=sorted(ops))
            else:
                obs.count('linearized_histories')
        model = Model()
        model.add([('seed/1', 'x0')])
        for g in range(3):
            if finals[g]:
                model.add(groups[g])
        bad = same_edge_set(hist.stored(type('W', (), {'hg': hg})), list(model.edges.values()))
        if bad:
            raise Violation('the final edges: %s' % bad)
        for v in ['x0', 'x1', 'x%d' % (n - 1), 'in0/1', 'in1/1', 'in2/1']:
            if hg.degree(v) != model.degree(v):
                raise Violation('final degree of %r is %r, but it occurs %d times' % (v, hg.degree(v), model.degree(v)))
        obs.count('final_audits')
        obs.count('events', len(events))
        obs.seen(tuple(pid for _, pid in sorted((ev[0], ev[2]) for ev in events)))
        hist.close_hg(hg)
        obs.sample = sorted(events)[:6]


@H13.kind('waiting', 12, 100, 'an operation that comes while another process writes, for up to two and a half seconds')
def waiting(rng, obs, params):
    with scratch() as d:
        path = hist.db_path(d)
        w = hist.World(rng, obs, path)
        for _ in range(rng.randint(0, 4)):
            w.step(only=['add', 'add_many', 'add_belief'])
        hold = rng.choice([0.05, 0.15, 0.3, 1.2, 2.5])
        early = rng.random() < 0.5
        if not early:
            hist.close_hg(w.hg)
        rd, wr = os.pipe()
        held = w.next_ts()

        def work():
            hg = hist.open_hg(path)

            def batch(hg):
                hg.add([('held/1', 'a', 'b')], held)
                os.write(wr, b'.')
                time.sleep(hold)
                hg.add([('held/1', 'b', 'a')], held)

            hg.batch_exec([batch])

        pid = forked(work)
        os.close(wr)
        if os.read(rd, 1) != b'.':
            os.waitpid(pid, 0)
            raise HarnessError('the batch was not started')
        os.close(rd)
        start = time.monotonic()
        name, op = random_op(w, rng)
        obs.log('while another process writes for %g s' % hold, name, 'with a handle from before' if early else 'with a new handle')
        try:
            if not early:
                w.hg = hist.open_hg(path)
            op(w.hg)
            refused = None
        except sqlite3.OperationalError as e:
            refused = e
        waited = time.monotonic() - start
        status = os.waitpid(pid, 0)[1]
        if status:
            raise Violation('the batch of the other process failed: %r' % status)
        w.model.add([('held/1', 'a', 'b')], held)
        w.model.add([('held/1', 'b', 'a')], held)
        if refused is None:
            op(w.model)
        elif waited < 3:
            raise Violation('%s failed after %.3f s, and did not wait for the other process: %s' % (name, waited, refused))
        if w.hg is not None:
            hist.close_hg(w.hg)
        w.hg = hist.open_hg(path)
        hist.full_audit(w)
        hist.close_hg(w.hg)
        obs.count('waited', refused is None)
        obs.seen((name, hold, w.model.state()))
        obs.sample = {'operation': name, 'held': hold, 'waited': round(waited, 3)}
