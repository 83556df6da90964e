"""H11: a crash at any point leaves each operation done or not done."""

import ctypes
import os
import random
import shutil
import signal
import struct

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, HarnessError, Violation, register, scratch
from gbmon.model import Model
from gbmon.checks.h_faults import check_state, large_op, random_op

OFF, KILL, TORN, RECORD = range(4)

H11 = register(Check(
    'H11', 'A process that runs operations on a database file is killed at its k-th write, sync, truncation or '
    'unlink of the files of the database (before it, or half way through the write), for every k, by a preloaded '
    'shim; and from recorded operations on files the disk is rebuilt as a power loss would leave it, at every point, '
    'with none or part of the unsynced writes. A new process then has to observe the state before or after the '
    'operation that was under way, with all the previous ones done. distinct_nontrivial counts distinct (state, '
    'operation, crash point) triples.', level='fault_enumeration',
    assumptions=['SQLite, and a file system that orders its metadata operations'],
    need=['kills', 'power_losses', 'recovered_before', 'recovered_after']))


def shim():
    lib = ctypes.CDLL(None)
    try:
        lib.gbmon_arm
    except AttributeError:
        raise HarnessError('the shim is not loaded')
    lib.gbmon_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_char_p, ctypes.c_int]
    lib.gbmon_mark.argtypes = [ctypes.c_longlong]
    return lib


def child(f):
    """Runs f in a forked process. Returns its wait status."""
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            f()
            code = 0
        except BaseException:
            import traceback
            try:
                with open(os.environ.get('GBMON_CHILD_LOG', os.devnull), 'a') as log:
                    log.write(traceback.format_exc())
            except Exception:
                pass
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


def build(rng, obs, d, max_arity=3):
    """A database file with some history, closed."""
    path = hist.db_path(d)
    w = hist.World(rng, obs, path, universe=gen.universe(rng, n_edges=rng.randint(3, 6), max_arity=max_arity))
    for _ in range(rng.randint(0, 8)):
        w.step(only=['add', 'add_many', 'remove', 'add_belief', 'batch', 'remove_many'])
    hist.close_hg(w.hg)
    return w


def audit_recovered(w, path, before, after, what):
    """The database as found by a new handle has to be in one of the two states."""
    hg = hist.open_hg(path)
    try:
        try:
            check_state(w, after, what, hg)
            w.obs.count('recovered_after')
            return 'after'
        except Violation as v_after:
            try:
                check_state(w, before, what, hg)
                w.obs.count('recovered_before')
                return 'before'
            except Violation as v_before:
                raise Violation('%s: the database is neither as before (%s) nor as after (%s)' % (
                    what, v_before.msg, v_after.msg))
    finally:
        hist.close_hg(hg)


@H11.kind('kill', 48, 700, 'the process is killed at each of its operations on files')
def kill(rng, obs, params):
    kills(rng, obs, random_op, 400)


@H11.kind('kill_large', 4, 60, 'the same in operations of hundreds of edges, or thousands of permutations')
def kill_large(rng, obs, params):
    def filled(w, rng):
        if rng.random() < 0.6:
            # hundreds or thousands that are there
            hg = hist.open_hg(w.path)
            for _ in range(12):
                name, op = large_op(w, rng, rng.choice([None, 1500, 2600]))
                if name.startswith('add') and name.endswith('edges'):
                    op(hg)
                    op(w.model)
                    obs.log(name)
                    break
            hist.close_hg(hg)
        return large_op(w, rng)
    kills(rng, obs, filled, 3)


def kills(rng, obs, choose, thinned):
    lib = shim()
    with scratch() as d:
        w = build(rng, obs, d)
        name, op = choose(w, rng)
        obs.log('operation under kill', name)
        before = w.model
        after = before.copy()
        op(after)
        same = before.state() == after.state()
        run = os.path.join(d, 'run')
        k = 0
        while True:
            k += 1
            if k > thinned:
                k += rng.randint(1, max(60 if k > 400 else 15, k // 5)) if len(before.edges) + len(after.edges) < 1500 else \
                    rng.randint(10, 40 + k // 2)
            mode = rng.choice([KILL, KILL, TORN])
            shutil.rmtree(run, ignore_errors=True)
            os.mkdir(run)
            path = os.path.join(run, 'gb.db')
            shutil.copy(w.path, path)

            def work():
                hg = hist.open_hg(path)
                lib.gbmon_arm(mode, k, path.encode(), -1)
                op(hg)
                lib.gbmon_arm(OFF, 0, b'', -1)

            # the child consumes randomness of nobody
            status = child(work)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                obs.count('kills')
                obs.seen((before.state(), name, k))
                got = audit_recovered(w, path, before, after, 'killed at file operation %d of %s' % (k, name))
            elif os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
                # it went through: done for good, without closing anything
                check_state(w, after, 'after the process ended', hist.open_hg(path))
                obs.count('went_through')
                break
            else:
                raise Violation('the operation %s failed in a child process (status %r)' % (name, status))
        if not same and k < 3:
            raise HarnessError('an operation with effects made only %d operations on files' % (k - 1))
        obs.sample = (obs.trace[-1], 'killed at each of its %d operations on files' % (k - 1))


def parse(log):
    events = []
    i = 0
    while i < len(log):
        op = chr(log[i])
        plen, = struct.unpack_from('<q', log, i + 1)
        i += 9
        path = log[i:i + plen].decode()
        i += plen
        off, n = struct.unpack_from('<qq', log, i)
        i += 16
        data = b''
        if op in 'WR':
            data = log[i:i + n]
            i += n
        events.append((op, path, off, data))
    return events


class Disk(object):
    """What is on disk for sure, and what was written but not synced."""

    def __init__(self, files):
        self.durable = dict(files)
        self.pending = {}

    def apply(self, ev):
        op, path, off, data = ev
        if op == 'W':
            self.durable.setdefault(path, b'')
            self.pending.setdefault(path, []).append((off, data))
        elif op == 'S':
            for off, data in self.pending.pop(path, []):
                self.durable[path] = put(self.durable[path], off, data)
        elif op == 'T':
            for o, dd in self.pending.pop(path, []):
                # what is cut is cut, the rest stays unsynced
                dd = dd[:max(0, off - o)]
                if dd:
                    self.pending.setdefault(path, []).append((o, dd))
            self.durable[path] = self.durable.get(path, b'')[:off].ljust(off, b'\0')
        elif op == 'U':
            self.durable.pop(path, None)
            self.pending.pop(path, None)
        elif op == 'R':
            new = data.decode()
            self.durable[new] = self.durable.pop(path, b'')
            if path in self.pending:
                self.pending[new] = self.pending.pop(path)

    def image(self, rng, keep):
        res = dict(self.durable)
        for path, writes in self.pending.items():
            for off, data in writes:
                if rng.random() < keep:
                    # sectors of a write may also be lost on their own
                    if rng.random() < 0.3 and len(data) > 512:
                        cut = 512 * rng.randint(0, len(data) // 512)
                        data = data[:cut]
                    res[path] = put(res[path], off, data)
        return res


def put(content, off, data):
    if len(content) < off:
        content = content.ljust(off, b'\0')
    return content[:off] + data + content[off + len(data):]


@H11.kind('power', 40, 600, 'power losses at each operation on files, with none, part or all of the unsynced writes')
def power(rng, obs, params):
    lib = shim()
    with scratch() as d:
        w = build(rng, obs, d)
        run = os.path.join(d, 'run')
        os.mkdir(run)
        path = os.path.join(run, 'gb.db')
        shutil.copy(w.path, path)
        with open(path, 'rb') as f:
            disk = Disk({path: f.read()})
        models = [w.model]
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            w.model = models[-1]
            name, op = random_op(w, rng)
            after = models[-1].copy()
            op(after)
            ops.append((name, op))
            models.append(after)
        obs.log('operations under power loss', [o[0] for o in ops])
        log_path = os.path.join(d, 'log')

        def work():
            hg = hist.open_hg(path)
            fd = os.open(log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            lib.gbmon_arm(RECORD, 0, path.encode(), fd)
            for i, (_, op) in enumerate(ops):
                op(hg)
                lib.gbmon_mark(i + 1)
            lib.gbmon_arm(OFF, 0, b'', -1)

        status = child(work)
        if status != 0:
            raise Violation('the operations %r failed in a child process (status %r)' % ([o[0] for o in ops], status))
        with open(log_path, 'rb') as f:
            events = parse(f.read())
        done = 0
        cuts = 0
        budget = 60 if params['tier'] == 'quick' else 200
        writes = len([e for e in events if e[0] != 'M'])
        p = min(1.0, float(budget) / max(1, writes))
        img = os.path.join(d, 'img')
        lost = os.path.join(img, 'gb.db')

        def crash(keep, what):
            shutil.rmtree(img, ignore_errors=True)
            os.mkdir(img)
            for fp, content in disk.image(rng, keep).items():
                with open(os.path.join(img, os.path.basename(fp)), 'wb') as f:
                    f.write(content)
            obs.count('power_losses')
            if done == len(ops):
                check_state(w, models[-1], what, open_and_keep(lost))
            else:
                audit_recovered(w, lost, models[done], models[done + 1], what)

        for n, ev in enumerate(events):
            if ev[0] == 'M':
                done = ev[2]
                crash(0.0, 'power lost after operation %d (%s) returned' % (done, ops[done - 1][0]))
                continue
            disk.apply(ev)
            if rng.random() < p:
                keep = rng.choice([0.0, 0.0, 0.5, 0.5, 0.9, 1.0])
                name = ops[done][0] if done < len(ops) else 'the end'
                obs.seen((models[min(done, len(ops))].state(), name, n, keep))
                crash(keep, 'power lost at file operation %d, in %s, with %d%% of the unsynced writes' % (
                    n, name, keep * 100))
                cuts += 1
        if done != len(ops):
            raise HarnessError('marks are missing')
        obs.sample = (obs.trace[-1], '%d operations on files, %d power losses' % (writes, cuts))


def open_and_keep(path):
    return hist.open_hg(path)


@H11.kind('kill_sequences', 24, 300, 'a process killed at a random point of a sequence of operations')
def kill_sequences(rng, obs, params):
    lib = shim()
    with scratch() as d:
        w = build(rng, obs, d)
        models = [w.model]
        ops = []
        for _ in range(rng.randint(3, 8)):
            w.model = models[-1]
            name, op = random_op(w, rng)
            after = models[-1].copy()
            op(after)
            ops.append((name, op))
            models.append(after)
        run = os.path.join(d, 'run')
        path = os.path.join(run, 'gb.db')
        acks = os.path.join(d, 'acks')
        for _ in range(8 if params['tier'] == 'quick' else 20):
            shutil.rmtree(run, ignore_errors=True)
            os.mkdir(run)
            shutil.copy(w.path, path)
            k = rng.randint(1, 120)
            mode = rng.choice([KILL, TORN])
            if os.path.exists(acks):
                os.unlink(acks)

            def work():
                hg = hist.open_hg(path)
                fd = os.open(acks, os.O_WRONLY | os.O_CREAT)
                lib.gbmon_arm(mode, k, path.encode(), -1)
                for _, op in ops:
                    op(hg)
                    os.write(fd, b'x')
                lib.gbmon_arm(OFF, 0, b'', -1)

            status = child(work)
            done = os.path.getsize(acks)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                obs.count('kills')
                obs.seen((w.model.state(), k, done))
                audit_recovered(w, path, models[done], models[min(done + 1, len(ops))],
                                'killed in operation %d of %r' % (done + 1, [o[0] for o in ops]))
            elif status == 0:
                check_state(w, models[-1], 'after the process ended', hist.open_hg(path))
            else:
                raise Violation('the operations failed in a child process (status %r)' % (status,))
        obs.sample = ([o[0] for o in ops], 'killed at random operations on files')
