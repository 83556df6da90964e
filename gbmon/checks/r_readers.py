"""R01, R02: what is read from WordNet."""

import os
import signal
import sqlite3

import gbmon.hist as hist
import gbmon.wordnets as wordnets
from gbmon.core import Check, Violation, register, scratch
from gbmon.gen import valid_symbol
from gbmon.model import Model, same_edge_set
from gbmon.stubs import monitor

R01 = register(Check(
    'R01', 'Random WordNets (names with slashes, points, quotes, numbers; every relation; up to more edges than the '
    'buffer holds) are read, into empty hypergraphs and others, once and again: the hypergraph has to have, beside '
    'what it had, exactly the facts that the corpus states, each as a belief of WordNet. All that can be observed of '
    'the hypergraph is compared. distinct_nontrivial counts distinct (corpus, hypergraph) pairs.',
    assumptions=['the WordNet corpus is not in the sandbox: a stand-in has its interface'],
    need=['facts', 'corpora', 'read_again', 'onto_existing', 'beyond_the_buffer']))


def read_and_compare(rng, obs, synsets, w, audit):
    import gb.readers.wordnet as reader
    wordnets.use(synsets)
    reader.read(w.hg)
    facts = wordnets.expected(synsets)
    obs.count('corpora')
    obs.count('facts', len(facts))
    for e in facts:
        w.model.add_belief('wordnet/gb', e)
    obs.seen((sorted(facts), w.model.state()))
    audit(w)
    for e in rng.sample(facts, min(20, len(facts))):
        if 'wordnet/gb' not in w.hg.sources(e) or set(w.hg.sources(e)) != set(w.model.sources(e)):
            raise Violation('the sources of %r are %r' % (e, w.hg.sources(e)))
    for e in facts:
        for x in e:
            if not valid_symbol(x) or x.count('/') != 1:
                raise Violation('%r is not a valid symbol with a namespace' % (x,))


def full(w):
    w.edges = w.edges + list(w.model.edges.values())[:200]
    hist.full_audit(w)


@R01.kind('corpora', 80, 1500, 'small corpora, read')
def r01(rng, obs, params):
    w = hist.World(rng, obs)
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 10)):
            w.step()
        obs.count('onto_existing')
    synsets = wordnets.random_wordnet(rng, rng.randint(1, 6), rng.choice([0.05, 0.3]))
    obs.log('corpus', wordnets.expected(synsets))
    if rng.random() < 0.4:
        for e in rng.sample(wordnets.expected(synsets), 1):
            w.do('add', e, 5)
    read_and_compare(rng, obs, synsets, w, full)
    if rng.random() < 0.5:
        read_and_compare(rng, obs, synsets, w, full)
        obs.count('read_again')
    if rng.random() < 0.3:
        read_and_compare(rng, obs, wordnets.random_wordnet(rng, 3, 0.2), w, full)
    obs.sample = wordnets.expected(synsets)[:5]


@R01.kind('large', 8, 60, 'corpora with more edges than the buffer holds')
def r01_large(rng, obs, params):
    w = hist.World(rng, obs, universe=(['a'], [('a', 'a')]))

    def edges_only(w):
        got = hist.stored(w)
        want = set(w.model.edges.values())
        if got != want:
            raise Violation('missing: %r, not expected: %r' % (list(want - got)[:3], list(got - want)[:3]))
        for row in w.rng.sample(list(w.model.rows.values()), 50):
            hist.probe_degree(w, row[0])
            hist.probe_timestamp(w, row[0])
    synsets = wordnets.random_wordnet(rng, rng.randint(120, 250), 0.25) if params['i'] % 4 else \
        wordnets.random_wordnet(rng, 310, 0.03, wide=3)
    if params['i'] % 16 == 2:
        # more than ten thousand facts
        synsets = wordnets.random_wordnet(rng, 3300, 0.1)
    read_and_compare(rng, obs, synsets, w, edges_only)
    if len(w.model.edges) > 1000:
        obs.count('beyond_the_buffer')
    obs.sample = (len(synsets), len(w.model.edges))


R02 = register(Check(
    'R02', 'Reading a random corpus is interrupted: by an error of the database before or after a random statement, by '
    'an error of the corpus, by the user, or by the death of the process at a random statement; with buffers of any '
    'size. What is stored then has to be what was there before and facts of the corpus, each with WordNet as its '
    'source, with the degrees that these edges give; and after reading again, everything. distinct_nontrivial counts '
    'distinct (corpus, interruption) pairs.', level='fault_enumeration',
    assumptions=['the WordNet corpus is not in the sandbox: a stand-in has its interface',
                 'the process dies at the interface of the database, which keeps what was committed (see H11)'],
    need=['interrupted', 'database_errors', 'corpus_errors', 'deaths', 'half_read', 'completed', 'small_buffers']))


class CorpusError(Exception):
    pass


class Injected(sqlite3.OperationalError):
    pass


class Break(object):
    """Calls what it is given at the k-th event of the database."""

    def __init__(self, k, when, what):
        self.k = k
        self.when = when
        self.what = what
        self.n = 0

    def __call__(self, kind, sql, when):
        if when == self.when and sql.strip()[:8].upper() != 'ROLLBACK' and not (
                when == 'after' and (kind == 'commit' or sql.strip()[:6].upper() in ('COMMIT', 'END'))):
            self.n += 1
            if self.n == self.k:
                self.what()


def truthful(w, facts, what):
    """What is stored is a part of what it has to be, and consistent."""
    got = hist.stored(w)
    whole = w.model.copy()
    for e in facts:
        whole.add_belief('wordnet/gb', e)
    extra = got - set(whole.edges.values())
    if extra:
        raise Violation('after %s, the hypergraph has %r, which nobody said' % (what, list(extra)[:3]))
    lost = set(w.model.edges.values()) - got
    if lost:
        raise Violation('after %s, the hypergraph lost %r' % (what, list(lost)[:3]))
    now = w.model.copy()
    now.add(list(got)) if got else None
    bad = same_edge_set(got, list(now.edges.values()))
    if bad:
        raise Violation('after %s: %s' % (what, bad))
    n = 0
    for e in facts:
        link = ('src/1', e, 'wordnet/gb')
        if (e in got) != (link in got) and e not in w.model.edges.values():
            raise Violation('after %s, %r is there and %r is not' % (
                (what, e, link) if e in got else (what, link, e)))
        n += e in got
    for v in w.vertices() + w.rng.sample(sorted(set(x for e in facts for x in e + (e,)), key=repr),
                                         min(40, len(facts))):
        exp = now.degree(v)
        deg = w.hg.degree(v)
        if deg != exp:
            raise Violation('after %s, the degree of %r is %r, and the edges that are stored give %r' % (
                what, v, deg, exp))
    return n


@R02.kind('interrupted', 90, 1500, 'readings that are interrupted, and done again')
def r02(rng, obs, params):
    import gb.hypergraph.batch_hypergraph as batchhg
    import gb.readers.wordnet as reader
    original = batchhg.BatchHyperGraph
    size = rng.choice([0, 1, 3, 10, 30, 1000])

    class Small(original):
        def __init__(self, hg, buffer_max=size):
            original.__init__(self, hg, buffer_max)

    with scratch() as d:
        try:
            w = hist.World(rng, obs, hist.db_path(d))
            for _ in range(rng.choice([0, 0, 3, 6])):
                w.step(only=['add', 'add_many', 'remove', 'add_belief'])
            synsets = wordnets.random_wordnet(rng, rng.randint(2, 6), rng.choice([0.1, 0.3]))
            wordnets.use(synsets)
            facts = wordnets.expected(synsets)
            if rng.random() < 0.3:
                w.do('add', rng.choice(facts), 5)
            obs.log('corpus', facts[:5], len(facts))
            if size < 1000:
                batchhg.BatchHyperGraph = Small
                obs.count('small_buffers')
            # an upper bound of the events: 8 statements for each element and permutation
            for _ in range(rng.choice([1, 1, 2])):
                k = int(10 ** rng.uniform(0, 2.3 + 0.3 * min(len(facts), 5)))
                how = rng.choice(['before', 'after', 'before', 'after', 'corpus', 'user', 'death'])
                what = 'the reading broke (%s, %d; buffer of %d)' % (how, k, size)
                obs.seen((sorted(facts), how, k, size))
                obs.log(what)
                broken = interrupt(w, rng, obs, how, k, synsets, reader)
                n = truthful(w, facts, what)
                if broken:
                    obs.count('interrupted')
                    obs.count('half_read', 0 < n < len(facts))
                if how == 'death' or rng.random() < 0.5:
                    other = hist.open_hg(w.path)
                    w.hg, old = other, w.hg
                    truthful(w, facts, 'for another handle, ' + what)
                    w.hg = old
                    hist.close_hg(other)
            if rng.random() < 0.5:
                hist.close_hg(w.hg)
                w.hg = hist.open_hg(w.path)
            reader.read(w.hg)
            obs.count('completed')
            for e in facts:
                w.model.add_belief('wordnet/gb', e)
            got = hist.stored(w)
            bad = same_edge_set(got, list(w.model.edges.values()))
            if bad:
                raise Violation('read again, after it broke: %s' % bad)
            for v in w.vertices():
                hist.probe_degree(w, v)
            hist.close_hg(w.hg)
        finally:
            batchhg.BatchHyperGraph = original
    obs.sample = obs.trace[-6:]


@R02.kind('large', 10, 120, 'readings of hundreds of facts, interrupted late')
def r02_large(rng, obs, params):
    import gb.readers.wordnet as reader
    with scratch() as d:
        w = hist.World(rng, obs, hist.db_path(d))
        w.step(only=['add'])
        synsets = wordnets.random_wordnet(rng, rng.choice([60, 130, 200]), 0.1)
        wordnets.use(synsets)
        facts = wordnets.expected(synsets)
        # how many events a reading has
        counter = Break(10 ** 9, 'before', None)
        other = hist.open_hg(hist.db_path(d, 'other.db'))
        monitor.listener = counter
        try:
            reader.read(other)
        finally:
            monitor.listener = None
        hist.close_hg(other)
        for _ in range(3):
            k = rng.randint(counter.n // 10, counter.n + 5)
            how = rng.choice(['before', 'after', 'user', 'death'])
            what = 'a reading of %d facts broke (%s, at %d of %d)' % (len(facts), how, k, counter.n)
            obs.log(what)
            broken = interrupt(w, rng, obs, how, k, synsets, reader)
            n = truthful(w, facts, what)
            if broken:
                obs.count('interrupted')
                obs.count('half_read', 0 < n < len(set(facts)))
            obs.seen((len(facts), how, k))
            if n:
                break
        reader.read(w.hg)
        obs.count('completed')
        for e in facts:
            w.model.add_belief('wordnet/gb', e)
        got = hist.stored(w)
        bad = same_edge_set(got, list(w.model.edges.values()))
        if bad:
            raise Violation('read again, after it broke: %s' % bad)
        hist.close_hg(w.hg)


def interrupt(w, rng, obs, how, k, synsets, reader):
    """A reading that breaks at point k. Returns if it did."""
    if how == 'corpus':
        s = rng.choice(synsets)
        name = rng.choice(['lemmas', 'pos', 'hypernyms', 'similar_tos', 'causes'])

        def fail(*_, **__):
            raise CorpusError('the corpus cannot be read')
        setattr(s, name, fail)
        try:
            reader.read(w.hg)
        except CorpusError:
            obs.count('corpus_errors')
            return True
        finally:
            delattr(s, name)
        return False
    if how == 'death':
        hist.close_hg(w.hg)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.setitimer(signal.ITIMER_PROF, 0)
                hg = hist.open_hg(w.path)
                monitor.listener = Break(k, rng.choice(['before', 'after']), lambda: os._exit(9))
                reader.read(hg)
                code = 0
            finally:
                os._exit(code)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        w.hg = hist.open_hg(w.path)
        if code not in (0, 9):
            raise Violation('the reading failed in a process of its own: exit code %r' % code)
        obs.count('deaths', code == 9)
        return code == 9

    def stop():
        if how == 'user':
            raise KeyboardInterrupt()
        raise Injected('injected: disk I/O error')
    monitor.listener = Break(k, rng.choice(['before', 'after']) if how == 'user' else how, stop)
    try:
        reader.read(w.hg)
    except (Injected, KeyboardInterrupt):
        obs.count('database_errors', how != 'user')
        return True
    finally:
        monitor.listener = None
    return False
