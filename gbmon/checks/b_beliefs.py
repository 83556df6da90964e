"""B01, B02: beliefs."""

import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import Check, Violation, register
from gbmon.model import key, same_edge_set, tup

B01 = register(Check(
    'B01', 'Histories of beliefs (single, several at once, repeated, with atoms, numbers and edges as sources, with '
    'timestamps), retractions, and ordinary edges, probed after each step: sources() of each fact, existence of each '
    'fact and of its links, timestamps. distinct_nontrivial counts distinct states of the model.',
    need=['source_checks', 'facts_with_several_sources']))

B02 = register(Check(
    'B02', 'Histories in which retractions are frequent (of sources that hold the fact, that do not, of facts that are '
    'not there, of facts that are elements of other edges), after each of which the membership of every fact and link, '
    'the sources and the degrees are compared with the model. distinct_nontrivial counts distinct states of the '
    'model.', need=['facts_kept', 'facts_removed', 'unheld_retractions']))

B01_OPS = {'add_belief': 12, 'remove_belief': 3, 'add': 2, 'remove': 1, 'batch': 1, 'add_many': 1}


def probe_sources(w, e=None):
    e = e if e is not None else w.rng.choice(w.edges)
    got = w.hg.sources(w.form(e))
    exp = w.model.sources(e)
    w.obs.count('source_checks')
    if len(exp) > 1:
        w.obs.count('facts_with_several_sources')
    if not isinstance(got, (set, frozenset)):
        raise Violation('sources(%r) is not a set: %r' % (e, got))
    keys = set(key(x) for x in exp)
    for x in got:
        if key(x) not in keys:
            raise Violation('sources(%r) has %r, which never stated it' % (e, x))
    for x in exp:
        if tup(x) not in got:
            raise Violation('sources(%r) misses %r' % (e, x))


def probe_links(w):
    for e in w.edges:
        if bool(w.hg.exists(e)) != w.model.exists(e):
            raise Violation('the fact %r %s' % (e, 'is gone' if w.model.exists(e) else 'exists'))
        for s in w.sources:
            link = ('src/1', e, s)
            if bool(w.hg.exists(link)) != w.model.exists(link):
                raise Violation('the link %r %s' % (link, 'is gone' if w.model.exists(link) else 'exists'))


@B01.kind('histories', 240, 4000, 'beliefs, probed at each step')
def b01(rng, obs, params):
    w = hist.World(rng, obs, ops=B01_OPS)
    if rng.random() < 0.3:
        # facts about beliefs
        w.edges.append(('src/1', w.edges[0], w.sources[0]))
    for _ in range(rng.choice([6, 15, 30])):
        w.step()
        for _ in range(2):
            probe_sources(w)
        probe_links(w)
        hist.probe_timestamp(w, w.pick())
    for e in w.edges:
        probe_sources(w, e)
        hist.probe_timestamp(w, e)
        for s in w.model.sources(e):
            hist.probe_timestamp(w, ('src/1', e, s))
    bad = same_edge_set(hist.stored(w), list(w.model.edges.values()))
    if bad:
        raise Violation('the stored edges: %s' % bad)
    obs.sample = obs.trace[:15]


@B01.kind('crowd', 2, 20, 'a fact with more than a thousand sources, and a source with as many facts')
def b01_crowd(rng, obs, params):
    n = rng.choice([1001, 1300, 2100])
    fact = rng.choice([('is/1', 'a', 'b'), ('is/1', ('of/1', 'a'))])
    w = hist.World(rng, obs, universe=(['a', 'b', 'm/1'], [fact]))
    w.sources = ['m/%d' % i for i in range(n)]
    facts = [('is/1', 'x%d' % i) for i in range(n)]
    for s in w.sources:
        w.hg.add_belief(s, [fact])
        w.model.add_belief(s, [fact])
    w.hg.add_belief('m/1', facts, 5)
    w.model.add_belief('m/1', facts, 5)
    # all of them, and nothing else
    got = w.hg.pattern2edges(('src/1', None, 'm/1'))
    bad = same_edge_set(got, w.model.pattern2edges(('src/1', None, 'm/1')))
    if bad:
        raise Violation('the links of a source that states %d facts at once: %s' % (n, bad))
    bad = same_edge_set(w.hg.pattern2edges(('is/1', None)), w.model.pattern2edges(('is/1', None)))
    if bad:
        raise Violation('the facts of a source that states %d of them at once: %s' % (n, bad))
    obs.count('crowds')
    obs.seen((n, fact))
    probe_sources(w, fact)
    for e in [fact] + rng.sample(facts, 20):
        probe_sources(w, e)
        if not w.hg.exists(e):
            raise Violation('the fact %r is gone' % (e,))
    if len(w.hg.star(fact)) != n:
        raise Violation('star of the fact has %d links of %d' % (len(w.hg.star(fact)), n))
    for s in rng.sample(w.sources, 30):
        w.hg.remove_belief(s, fact)
        w.model.remove_belief(s, fact)
    probe_sources(w, fact)
    obs.sample = n


B02_OPS = {'add_belief': 6, 'remove_belief': 8, 'add': 1, 'remove': 0.5, 'batch': 1}


@B02.kind('histories', 240, 4000, 'beliefs and retractions')
def b02(rng, obs, params):
    w = hist.World(rng, obs, ops=B02_OPS)
    if rng.random() < 0.4:
        w.edges.append(('src/1', w.edges[0], w.sources[0]))
    if rng.random() < 0.4:
        w.edges.append(('says/1', rng.choice(w.pool), w.edges[0]))
    for _ in range(rng.choice([6, 15, 30])):
        before = w.model.copy()
        name = w.step()
        if name == 'remove_belief':
            args = [t for t in obs.trace if t[0] == 'remove_belief'][-1]
            src, e = args[1], args[2]
            if not before.exists(('src/1', e, src)):
                obs.count('unheld_retractions')
            if before.exists(e):
                obs.count('facts_kept' if w.model.exists(e) else 'facts_removed')
        probe_links(w)
        probe_sources(w)
        hist.probe_degree(w)
        hist.probe_degree(w)
    hist.full_audit(w)
    obs.sample = obs.trace[:15]


@B02.kind('crowd', 2, 30, 'facts with hundreds of sources, retracted one by one')
def b02_crowd(rng, obs, params):
    n = rng.choice([101, 130, 257, 300, 130, 520])
    facts = [('is/1', 'a', 'b'), ('is/1', 'b', 'a'), ('is/1', ('of/1', 'a'))]
    w = hist.World(rng, obs, universe=(['a', 'b', 'm/1'], facts))
    w.sources = ['m/%d' % i for i in range(n)]
    for e in facts[:2]:
        if rng.random() < 0.5:
            funs = [lambda hg, s=s: hg.add_belief(s, [e]) for s in w.sources]
            w.hg.batch_exec(funs)
        else:
            w.hg.add([e])
            w.hg.add([('src/1', e, s) for s in w.sources])
        for s in w.sources:
            w.model.add_belief(s, [e])
    obs.seen((n, facts))
    order = list(w.sources)
    rng.shuffle(order)
    e = facts[0]
    for i, s in enumerate(order):
        if rng.random() < 0.1:
            w.hg.remove_belief('unknown/1', e)
            obs.count('unheld_retractions')
        if rng.random() < 0.02 and i > 2:
            w.hg.remove_belief(order[i - 2], e)
            obs.count('unheld_retractions')
        w.hg.remove_belief(s, e)
        w.model.remove_belief(s, e)
        if bool(w.hg.exists(e)) != (i < n - 1):
            raise Violation('after %d of %d sources were retracted, exists(%r) is %r' % (i + 1, n, e, w.hg.exists(e)))
        if i % 20 == 0 or i > n - 4:
            probe_sources(w, e)
            hist.probe_degree(w, 'a')
        obs.count('facts_kept' if i < n - 1 else 'facts_removed')
    for x in facts:
        probe_sources(w, x)
        hist.probe_degree(w, x)
    hist.full_audit(w, timestamps=False)
    obs.sample = n
