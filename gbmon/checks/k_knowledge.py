"""K01..K07: what the extractor makes of a parse."""

import copy
import json
import os
import random
import re

import gbmon.parses as parses
import gbmon.semref as semref
from gbmon.threads import together
from gbmon.core import Check, HarnessError, Violation, register, scratch
from gbmon.gen import valid_symbol
from gbmon.model import Model, is_deep_tuple, key
from gbmon.stubs import fake_spacy, monitor

STAGES = ('alpha', 'beta', 'gamma', 'delta', 'epsilon')
WORD = re.compile(r'w[0-9]+')

STAND_IN = 'the language model is not in the sandbox: parses are annotations, random ones and hand-made ones of the ' \
    'sentences of the project\'s extractor tests, in real spaCy documents'

# the number of ways to combine relationships grows exponentially: parses with more are left out
MAX_CANDIDATES = 400


def extractor(stages=None, hg=None):
    from gb.knowledge.extractor import Extractor
    return Extractor(hg) if stages is None else Extractor(hg, stages=stages)


_texts = [0]


def text_for(sentences):
    _texts[0] += 1
    text = parses.text_of(sentences) + ' #%d' % _texts[0]
    fake_spacy.texts = {text: sentences}
    fake_spacy.parsed = []
    return text


def extract(words, stages=None, hg=None, ex=None):
    """Returns (result, outputs of the stages) for one sentence."""
    ex = ex or extractor(stages, hg)
    res = ex.read_text(text_for([words]))
    if len(res) != 1:
        raise Violation('%d results for one sentence' % len(res), parses.show(words))
    return res[0], list(ex.outputs)


def count_candidates(t, limit=MAX_CANDIDATES * 20):
    """An upper bound of the work that combining takes."""
    if semref.is_leaf(t):
        return 1, 1
    n, work = 1, 1
    for k in t.kids[1:]:
        kn, kw = count_candidates(k)
        work += n * kw
        n *= kn * 4
        if n > limit or work > limit:
            return n, work
    return n, work + n


def small(words):
    g = semref.gamma(semref.beta(semref.alpha(parses.root(words))))
    n, work = count_candidates(g)
    return n <= MAX_CANDIDATES * 10 and work <= MAX_CANDIDATES * 10


def small_sentence(rng, lo=1, hi=11, **kw):
    while True:
        words = parses.sentence(rng, rng.randint(lo, hi), **kw)
        if small(words):
            return words


def combinations(t):
    """A closer upper bound of the number of candidates."""
    if semref.is_leaf(t):
        return 1
    n = 1
    for k in t.kids[1:]:
        n *= combinations(k) * (4 if not semref.is_leaf(k) and semref.is_rel(k.kids[0]) else 1)
    return n


def long_sentence(rng, lo, hi, limit=1500, **kw):
    while True:
        words = parses.sentence(rng, rng.randint(lo, hi), **kw)
        if combinations(semref.gamma(semref.beta(semref.alpha(parses.root(words))))) <= limit:
            return words


K01 = register(Check(
    'K01', 'Random parses of distinct words go through the five stages; the words are followed from stage to stage by '
    'their text alone. What goes into the first stage has to be every word that is not under punctuation or an '
    'unattached word, once each, and each later stage has to have the same words, once each, except that the third '
    'may drop articles. distinct_nontrivial counts distinct parses.', assumptions=[STAND_IN],
    need=['words', 'left_out', 'articles_dropped', 'sentences', 'combined', 'edge_words',
                                            'long_sentences']))


def broad_sentence(rng, limit=600):
    """Words with very many words that hang from them, but not too many combinations of them."""
    while True:
        words = parses.broad(rng)
        g = semref.gamma(semref.beta(semref.alpha(parses.root(words))))
        if combinations(g) <= limit:
            return words


def reachable(w):
    res = [w]
    for c in w.left + w.right:
        if c.dep not in ('', 'punct'):
            res += reachable(c)
    return res


@K01.kind('words', 400, 12000, 'words followed through the stages')
def k01(rng, obs, params):
    ex = extractor()
    for _ in range(6):
        if rng.random() < 0.1:
            words = long_sentence(rng, 14, 60, unique=True) if rng.random() < 0.6 else broad_sentence(rng)
            obs.count('long_sentences')
        else:
            words = small_sentence(rng, 1, 13, unique=True)
        obs.log(parses.show(words))
        result, outs = extract(words, ex=ex)
        obs.seen(parses.show(words))
        obs.count('sentences')
        if len(outs) != 5:
            raise Violation('%d outputs of 5 stages' % len(outs))
        kept = reachable(parses.root(words))
        want = sorted(w.low for w in kept)
        obs.count('words', len(want))
        obs.count('left_out', len(words) - len(want))
        articles = set(w.low for w in kept if w.pos == 'DET' and w.lemma in ('the', 'a', 'an'))
        for i, out in enumerate(outs):
            got = sorted(WORD.findall(out))
            if got != want:
                missing = [w for w in want if w not in got]
                if i == 2 and sorted(got + missing) == want and set(missing) <= articles:
                    obs.count('articles_dropped', len(missing))
                    want = got
                    continue
                raise Violation('%s has the words %r, instead of %r' % (STAGES[i], got, want),
                                (parses.show(words), outs))
        if outs[3] != outs[2]:
            obs.count('combined')
        obs.count('edge_words', len(WORD.findall(str(result))))
        if sorted(WORD.findall(str(result))) != want:
            raise Violation('the result %r does not have the words %r' % (result, want), parses.show(words))
    obs.sample = (parses.show(words), outs)


def compare(what, got, want, words, before=None):
    if got != want:
        raise Violation('%s gives %s, instead of %s' % (what, got, want), (parses.show(words), before))


def trees(rng, obs, fun, n, lo, hi, **kw):
    for _ in range(n):
        words = parses.sentence(rng, rng.randint(lo, hi), unique=rng.random() < 0.3, **kw)
        obs.log(parses.show(words))
        obs.seen(parses.show(words))
        fun(words)


def golden_kind(check, upto):
    @check.kind('known_sentences', 1, 1, 'the sentences of the extractor tests, parsed by hand')
    def known(rng, obs, params):
        for words, outs in parses.GOLDEN_PARSES:
            for stages in (None, STAGES[:upto]):
                _, got = extract(words, stages)
                for i in range(upto):
                    compare(STAGES[i], got[i], outs[i], words, got[:i])
                obs.seen(parses.show(words))
                obs.count('known_sentences')


K02 = register(Check(
    'K02', 'Random parses (up to 40 words, every dependency label that matters, deep chains) go through the first '
    'stage, which is compared with an executable specification of how words compose: nesting, joining with the first '
    'element, adding, in order. Also the sentences of the extractor tests. distinct_nontrivial counts distinct parses.',
    assumptions=[STAND_IN], need=['sentences', 'nested', 'joined', 'known_sentences', 'deep']))


@K02.kind('composition', 300, 12000, 'random parses, composed')
def k02(rng, obs, params):
    ex = extractor(('alpha',))

    def one(words):
        _, outs = extract(words, ex=ex)
        compare('alpha', outs[0], str(semref.alpha(parses.root(words))), words)
        obs.count('sentences')
        obs.count('nested', len([w for w in words if w.dep in semref.NEST]))
        obs.count('joined', len([w for w in words if w.dep in semref.FIRST]))
    trees(rng, obs, one, 10, 1, rng.choice([3, 6, 12, 25, 40]))
    obs.sample = obs.trace[-1]


@K02.kind('deep', 30, 600, 'chains of words')
def k02_deep(rng, obs, params):
    n = rng.randint(30, 90)
    deps = rng.sample(sorted(set(parses.DEPS) - {'', 'punct'}), 3)
    words = [semref.Word('w%d' % i, rng.choice(parses.POS), rng.choice(deps)) for i in range(n)]
    order = list(range(n))
    side = rng.choice(['right', 'left', 'both'])
    heads = []
    if side == 'right':
        heads = [max(0, i - 1) for i in order]
    elif side == 'left':
        heads = [min(n - 1, i + 1) for i in order]
    else:
        heads = [i + 1 if i < n // 2 else (n // 2 if i == n // 2 else i - 1) for i in order]
    words[[i for i in order if heads[i] == i][0]].dep = 'ROOT'
    parses.link(words, heads)
    _, outs = extract(words, ('alpha',))
    compare('alpha', outs[0], str(semref.alpha(parses.root(words))), words)
    obs.seen(parses.show(words))
    obs.count('deep')


def broad_kind(check, upto):
    @check.kind('broad', 40, 1000, 'words with up to 70 words hanging from them')
    def broad(rng, obs, params):
        ex = extractor(STAGES[:upto])
        for _ in range(5):
            words = parses.broad(rng)
            shown = parses.show(words)
            obs.log(shown)
            obs.seen(shown)
            _, outs = extract(words, ex=ex)
            tree = parses.root(words)
            for i in range(upto):
                tree = (semref.alpha, semref.beta, semref.gamma)[i](tree)
                compare(STAGES[i], outs[i], str(tree), words, outs[:i])
            obs.count('broad')


broad_kind(K02, 1)
golden_kind(K02, 1)


K03 = register(Check(
    'K03', 'Random parses with entity types go through the first two stages: exactly the parts whose words are all of '
    'one entity type, or all objects, subjects or compounds, have to become compounds, as an executable specification '
    'says. Also the sentences of the extractor tests. distinct_nontrivial counts distinct parses.',
    assumptions=[STAND_IN], need=['sentences', 'compounds_by_entity', 'compounds_by_dependency', 'known_sentences']))


def parts_of(t):
    if semref.is_leaf(t):
        return []
    return [t] + [p for k in t.kids for p in parts_of(k)]


@K03.kind('compounds', 300, 12000, 'random parses, with compounds')
def k03(rng, obs, params):
    ex = extractor(('alpha', 'beta'))

    def one(words):
        if rng.random() < 0.5:
            ent = rng.choice(['', 'GPE'])
            for w in words:
                if rng.random() < 0.8:
                    w.ent = ent
        if rng.random() < 0.5:
            for w in words:
                if w.dep != 'ROOT' and rng.random() < 0.7:
                    w.dep = rng.choice(['pobj', 'compound', 'dobj', 'nsubj', 'pcomp'])
        _, outs = extract(words, ex=ex)
        a = semref.alpha(parses.root(words))
        compare('beta', outs[1], str(semref.beta(a)), words, outs)
        obs.count('sentences')
        for p in parts_of(a):
            obs.count('compounds_by_entity', semref.by_entity(p))
            obs.count('compounds_by_dependency', semref.by_deps(p))
    trees(rng, obs, one, 10, 2, rng.choice([4, 8, 12, 20]), style=rng.choice(['nominal', 'any', 'nested']))
    obs.sample = obs.trace[-1]


broad_kind(K03, 2)
golden_kind(K03, 2)


K04 = register(Check(
    'K04', 'Random parses, heavy in verbs, adverbs and prepositions, go through the first three stages: articles have '
    'to be dropped, relationships to be made compounds and to be combined, as an executable specification says. Also '
    'the sentences of the extractor tests. distinct_nontrivial counts distinct parses.', assumptions=[STAND_IN],
    need=['sentences', 'changed', 'articles', 'known_sentences']))


@K04.kind('relationships', 300, 12000, 'random parses, with relationships')
def k04(rng, obs, params):
    ex = extractor(('alpha', 'beta', 'gamma'))

    def one(words):
        _, outs = extract(words, ex=ex)
        b = semref.beta(semref.alpha(parses.root(words)))
        g = semref.gamma(b)
        compare('gamma', outs[2], str(g), words, outs)
        obs.count('sentences')
        obs.count('changed', outs[1] != outs[2])
        obs.count('articles', len(b.leaves()) - len(g.leaves()))
    trees(rng, obs, one, 10, 2, rng.choice([4, 8, 12, 20]), style=rng.choice(['verbal', 'verbal', 'nested', 'any']))
    obs.sample = obs.trace[-1]


broad_kind(K04, 3)
golden_kind(K04, 3)


K05 = register(Check(
    'K05', 'Random parses go through the first four stages: of all the ways to combine the relationships at the top, '
    'enumerated by an executable specification, the first one with the best fit has to be taken, with everything else '
    'as it was. Also the sentences of the extractor tests. distinct_nontrivial counts distinct parses.',
    assumptions=[STAND_IN, 'when the first element of a part is nested, the nesting inside of first elements is not '
                 'compared'],
    need=['sentences', 'candidates', 'combined', 'better_than_first', 'known_sentences', 'after_100']))


def read_tree(s, words):
    """Reads the text of a tree of distinct words w0, w1..."""
    by_word = dict((w.low, w) for w in words)
    stack = [[]]
    for t in re.findall(r'\(|\)|[w0-9_]+', s):
        if t == '(':
            stack.append([])
        elif t == ')':
            top = stack.pop()
            stack[-1].append(semref.Node(top))
        else:
            ws = [semref.Leaf(by_word[x]) for x in t.split('_')]
            stack[-1].append(ws[0] if len(ws) == 1 else semref.Node(ws, True))
    return stack[0][0]


@K05.kind('combination', 400, 12000, 'random parses, combined')
def k05(rng, obs, params):
    ex = extractor(('alpha', 'beta', 'gamma', 'delta'))
    for _ in range(8):
        for _ in range(rng.choice([1, 30])):
            # most of them with something to combine
            words = small_sentence(rng, 2, rng.choice([6, 9, 12]), unique=rng.random() < 0.5,
                                   style=rng.choice(['verbal', 'verbal', 'any', 'nominal']))
            if rng.random() < 0.02:
                words = broad_sentence(rng, 100)
            g = semref.gamma(semref.beta(semref.alpha(parses.root(words))))
            if not semref.terminal(g) and semref.is_rel(g.kids[0]) and any(
                    not semref.is_leaf(k) and semref.is_rel(k.kids[0]) for k in g.kids[1:]):
                break
        nested = semref.nested_first(g)
        if nested:
            for i, w in enumerate(words):
                w.word = 'w%d' % i
            g = semref.gamma(semref.beta(semref.alpha(parses.root(words))))
        obs.log(parses.show(words))
        obs.seen(parses.show(words))
        _, outs = extract(words, ex=ex)
        d = semref.delta(g)
        obs.count('sentences')
        if nested:
            got = str(semref.norm(read_tree(outs[3], words)))
            want = str(semref.norm(read_tree(str(d), words)))
            compare('delta', got, want, words, outs)
            obs.count('nested_first_elements')
        else:
            compare('delta', outs[3], str(d), words, outs)
        if not semref.terminal(g) and semref.is_rel(g.kids[0]):
            cs = semref.candidates(g)
            obs.count('candidates', len(cs))
            obs.count('combined', outs[3] != outs[2])
            obs.count('better_than_first', semref.fit(d, g) > semref.fit(cs[0], g))
    obs.sample = obs.trace[-1]


def clauses(rng):
    """A relationship of several relationships, whose combinations are many."""
    words, heads = [], []

    def add(pos, dep, head):
        words.append(semref.Word('w%d' % len(words), pos, dep, None, ''))
        words[-1].lemma = words[-1].word
        heads.append(head)
        return len(words) - 1
    top = add('VERB', 'ROOT', 0)
    if rng.random() < 0.3:
        add('NOUN', 'nsubj', top)
    for _ in range(rng.randint(3, 6)):
        v = add(rng.choice(parses.REL), rng.choice(['xcomp', 'ccomp', 'conj', 'advcl']), top)
        for _ in range(rng.choice([1, 1, 2])):
            add(rng.choice(['NOUN', 'NOUN', 'NOUN', 'ADP', 'VERB']),
                rng.choice(['dobj', 'pobj', 'nsubj', 'pcomp', 'compound', 'attr']), v)
        if rng.random() < 0.3:
            add('NOUN', 'dobj', top)
    return parses.link(words, heads)


@K05.kind('many', 12, 300, 'sentences with up to a thousand combinations')
def k05_many(rng, obs, params):
    ex = extractor(('alpha', 'beta', 'gamma', 'delta'))
    while True:
        words = clauses(rng)
        g = semref.gamma(semref.beta(semref.alpha(parses.root(words))))
        if combinations(g) <= 5000 and not semref.terminal(g) and semref.is_rel(g.kids[0]):
            break
    obs.log(parses.show(words))
    obs.seen(parses.show(words))
    _, outs = extract(words, ex=ex)
    cs = semref.candidates(g)
    fits = [semref.fit(c, g) for c in cs]
    best = fits.index(max(fits))
    d = cs[best]
    if semref.nested_first(g):
        got, want = str(semref.norm(read_tree(outs[3], words))), str(semref.norm(read_tree(str(d), words)))
        compare('delta', got, want, words, outs)
    else:
        compare('delta', outs[3], str(d), words, outs)
    obs.count('sentences')
    obs.count('candidates', len(cs))
    obs.count('combined', outs[3] != outs[2])
    obs.count('better_than_first', best > 0)
    obs.count('after_100', best >= 100)
    obs.sample = obs.trace[-1]


golden_kind(K05, 4)


K06 = register(Check(
    'K06', 'Random parses of hostile words (slashes, parentheses, numbers, URLs, unicode, spaces) are made edges by '
    'the last stage, after each of the others: word by word as specified, with valid symbols that have the word as '
    'their root; the edge has to survive its text form, and a hypergraph has to give it back and to find it by its '
    'parts. distinct_nontrivial counts distinct edges.', assumptions=[STAND_IN],
    need=['edges', 'stored', 'symbols', 'compounds', 'found_by_part']))


def edge_atoms(e):
    if isinstance(e, tuple):
        return [a for x in e for a in edge_atoms(x)]
    return [e]


def biggest(e):
    if not isinstance(e, tuple):
        return 1
    return max([len(e)] + [biggest(x) for x in e])


@K06.kind('edges', 300, 8000, 'edges made of sentences')
def k06(rng, obs, params):
    import gb.hypergraph.edge as ed
    import gb.hypergraph.symbol as sym
    from gb.hypergraph.hypergraph import HyperGraph
    chosen = rng.choice([('alpha', 'beta', 'epsilon'), ('alpha', 'beta', 'gamma', 'epsilon'), STAGES])
    ex = extractor(chosen if chosen != STAGES else None)
    edges = []
    for _ in range(6):
        words = small_sentence(rng, 1, 10) if rng.random() < 0.93 else broad_sentence(rng)
        obs.log(chosen, parses.show(words))
        result, outs = extract(words, ex=ex)
        tree = semref.beta(semref.alpha(parses.root(words)))
        if 'gamma' in chosen:
            tree = semref.gamma(tree)
        exact = True
        if 'delta' in chosen:
            exact = not semref.nested_first(tree)
            tree = semref.delta(tree)
        want = semref.epsilon(tree)
        if exact and result != want:
            raise Violation('the edge is %r, instead of %r' % (result, want), (parses.show(words), outs))
        if not is_deep_tuple(result) and not isinstance(result, str):
            raise Violation('%r is not an edge' % (result,))
        if sorted(edge_atoms(result)) != sorted(edge_atoms(want)):
            raise Violation('the symbols of %r are not those of %r' % (result, want), (parses.show(words), outs))
        obs.seen(result)
        obs.count('edges')
        roots = set(semref.valid(w.low) for w in words)
        for a in edge_atoms(result):
            if not isinstance(a, str) or not valid_symbol(a):
                raise Violation('%r, in %r, is not a valid symbol' % (a, result))
            if sym.nspace(a) == '?':
                obs.count('compounds')
            elif sym.nspace(a) != '1' or sym.root(a) not in roots:
                raise Violation('%r is not the symbol of a word' % (a,), parses.show(words))
            if len(sym.parts(a)) != 2:
                raise Violation('%r is not a root and a namespace' % (a,))
            obs.count('symbols')
        if isinstance(result, tuple):
            back = ed.str2edge(ed.edge2str(result))
            if key(back) != key(result):
                raise Violation('%r is read back as %r' % (result, back))
            edges.append(result)
    with scratch() as d:
        hg = HyperGraph({'backend': 'sqlite', 'db': d + '/k.db'})
        model = Model()
        for e in edges:
            if len(e) <= 5:
                hg.add([e])
                model.add1(e)
                obs.count('stored')
        for e in model.edges.values():
            if not hg.exists(e):
                raise Violation('%r was stored, but is not there' % (e,))
            x = rng.choice(e)
            got = hg.star(x)
            want = set(model.star(x))
            if got != want:
                raise Violation('%r is found in %r, instead of %r' % (x, got, want))
            obs.count('found_by_part')
        got = set(v for v in hg.f_all(lambda v: v['vertex']) if isinstance(v, tuple))
        want = set(v for v, _ in model.vertices().values() if isinstance(v, tuple))
        if got != want:
            raise Violation('a traversal finds %r, instead of %r' % (got, want))
    obs.sample = edges[:2]


K07 = register(Check(
    'K07', 'Extractors are used again and again, on texts with several sentences, repeated texts, with other stages, '
    'with and without debugging and a hypergraph: each sentence has to give what it gives alone, the outputs have to '
    'be those of the last sentence, the tokens of the parse and the hypergraph have to stay as they were (all its SQL '
    'statements are watched), and stages that do not exist are refused. distinct_nontrivial counts distinct texts.',
    assumptions=[STAND_IN],
    need=['texts', 'sentences', 'repeated', 'partial_stages', 'debug', 'tokens_compared', 'hypergraphs_compared', 'siblings']))


def snapshot(token, seen=None):
    """All the attributes of the tokens reachable from one."""
    seen = {} if seen is None else seen
    if id(token) in seen:
        return seen
    seen[id(token)] = None
    res = {}
    for k, v in sorted(vars(token).items()):
        if isinstance(v, (list, tuple)):
            res[k] = [id(x) for x in v]
            for x in v:
                if hasattr(x, 'left_children'):
                    snapshot(x, seen)
        elif hasattr(v, 'left_children'):
            res[k] = id(v)
            snapshot(v, seen)
        else:
            res[k] = repr(v)
    seen[id(token)] = res
    return seen


def changed(rng, words):
    """The same sentence, but for some attributes of some words."""
    whole = words
    words = copy.deepcopy(whole)
    names = rng.sample(['dep', 'pos', 'ent', 'lemma'], rng.randint(1, 2))
    for w in words:
        if rng.random() < 0.6:
            if 'dep' in names and w.dep != 'ROOT':
                w.dep = rng.choice(parses.DEPS)
            if 'pos' in names:
                w.pos = rng.choice(parses.POS)
            if 'ent' in names:
                w.ent = rng.choice(['', 'GPE'])
            if 'lemma' in names:
                w.lemma = rng.choice(['the', 'a', w.word])
    return words if small(words) else changed(rng, whole)


def in_a_child(f):
    """What f returns (text) in a copy of this process, where nothing else happens."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ['ok', f()]
            except BaseException as e:
                res = ['error', repr(e)]
            with os.fdopen(w, 'w') as out:
                json.dump(res, out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as got:
        text = got.read()
    os.waitpid(pid, 0)
    if not text:
        raise HarnessError('the child said nothing')
    return json.loads(text)


@K07.kind('siblings', 60, 1500, 'sentences that differ in some attributes of the words, one after the other')
def k07_siblings(rng, obs, params):
    first = small_sentence(rng, 2, 8, unique=rng.random() < 0.3)
    family = [first]
    for _ in range(rng.randint(2, 5)):
        family.append(changed(rng, rng.choice(family)))
    family.append(first)
    # each one in a process that has not read the others
    alone = [in_a_child(lambda s=s: [str(x) for x in extract(s)[1]]) for s in family]
    shared = extractor() if rng.random() < 0.5 else None
    for words, (how, want) in zip(family, alone):
        obs.log(parses.show(words))
        obs.seen(parses.show(words))
        try:
            _, outs = extract(words, ex=shared or extractor())
            got = ['ok', [str(x) for x in outs]]
        except Exception as e:
            got = ['error', repr(e)]
        if got[0] != how or how == 'ok' and got[1] != want:
            raise Violation('%r after %d other sentences, instead of %r alone' % (
                got, family.index(words), want), parses.show(words))
        obs.count('siblings')
    obs.sample = obs.trace[:2]


@K07.kind('isolation', 200, 5000, 'texts read again and again')
def k07(rng, obs, params):
    from gb.nlp.parser import Parser
    from gb.nlp.sentence import Sentence
    from gb.hypergraph.hypergraph import HyperGraph
    with scratch() as d:
        hg = None
        if rng.random() < 0.5:
            hg = HyperGraph({'backend': 'sqlite', 'db': d + '/k.db'})
            hg.add([('is/1', 'w1/1', 'w2/1'), ('w0/1', 'w1/1')], 7)
            before = dump(hg)
        n = rng.randint(1, 4)
        stages = STAGES[:n] if rng.random() < 0.3 else None
        if stages:
            obs.count('partial_stages')
        ex = extractor(stages, hg)
        used = len(stages or STAGES)
        texts = []
        for _ in range(rng.randint(2, 4)):
            sents = [small_sentence(rng, 1, 8, unique=rng.random() < 0.3) for _ in range(rng.randint(1, 4))]
            alone = []
            for s in sents:
                _, outs = extract(s)
                alone.append(outs)
            texts.append((sents, alone))
        texts += [rng.choice(texts)]
        obs.count('repeated')
        wrote = []
        for sents, alone in texts:
            if rng.random() < 0.3:
                ex.debug = not ex.debug
            obs.count('debug', ex.debug)
            obs.log([parses.show(s) for s in sents])
            obs.seen([parses.show(s) for s in sents])
            text = text_for(sents)
            monitor.listener = lambda kind, sql, when: wrote.append((kind, sql))
            try:
                res = ex.read_text(text)
            finally:
                monitor.listener = None
            obs.count('texts')
            obs.count('sentences', len(sents))
            if len(res) != len(sents):
                raise Violation('%d results for %d sentences' % (len(res), len(sents)))
            for r, outs, s in zip(res, alone, sents):
                if str(r) != outs[used - 1]:
                    raise Violation('%s, instead of %s alone' % (r, outs[used - 1]), parses.show(s))
            if list(ex.outputs) != alone[-1][:used]:
                raise Violation('the outputs are %r, instead of %r' % (ex.outputs, alone[-1][:used]))
        bad = [w for w in wrote if w[0] == 'execute' and not w[1].lstrip().upper().startswith('SELECT')]
        if bad:
            raise Violation('reading text writes to the hypergraph: %r' % (bad[:3],))
        if hg is not None:
            obs.count('hypergraphs_compared')
            if dump(hg) != before:
                raise Violation('reading text changes the hypergraph')
        # the tokens of a parse are only read, and the same parse can be processed again
        sents = texts[0][0]
        parser = Parser()
        for tokens, outs in zip(parser.parse_text(text_for(sents)), texts[0][1]):
            sentence = Sentence(tokens)
            snap = [snapshot(t) for t in tokens]
            for _ in range(2):
                res = ex.read_sentence(sentence)
                if str(res) != outs[used - 1]:
                    raise Violation('%s, instead of %s' % (res, outs[used - 1]))
            if snap != [snapshot(t) for t in tokens] or sentence.tokens != tokens:
                raise Violation('the tokens of the parse were changed')
            obs.count('tokens_compared', len(tokens))
        for name in ('zeta', rng.choice(['', 'Alpha', 'alpha ', None])):
            try:
                extractor(('alpha', name)).read_text(text_for([sents[0]]))
            except Exception:
                continue
            raise Violation('the stage %r is not refused' % (name,))
    obs.sample = obs.trace[:2]


def dump(hg):
    return sorted((repr(key(v['vertex'])), v['degree'], hg.timestamp(v['vertex'])) for v in list(hg.f_all(dict)))


@K07.kind('long', 3, 40, 'texts of hundreds of sentences')
def k07_long(rng, obs, params):
    pool = [small_sentence(rng, 1, 5, unique=rng.random() < 0.3) for _ in range(rng.choice([3, 20]))]
    alone = [extract(s)[1] for s in pool]
    n = [130, 300, 1100][params['i'] % 3] if params['tier'] == 'quick' else rng.choice([130, 1100, 2500])
    picks = [rng.randrange(len(pool)) for _ in range(n)]
    ex = extractor()
    res = ex.read_text(text_for([copy.deepcopy(pool[i]) for i in picks]))
    obs.log(n, 'sentences', [parses.show(s) for s in pool])
    obs.seen([parses.show(s) for s in pool])
    if len(res) != n:
        raise Violation('%d results for %d sentences' % (len(res), n))
    for k, (r, i) in enumerate(zip(res, picks)):
        if str(r) != str(alone[i][-1]):
            raise Violation('sentence %d of %d: %s, instead of %s' % (k, n, r, alone[i][-1]), parses.show(pool[i]))
    if list(ex.outputs) != alone[picks[-1]]:
        raise Violation('the outputs are %r, instead of %r' % (ex.outputs, alone[picks[-1]]))
    obs.count('sentences', n)
    obs.count('long_texts')


@K07.kind('threads', 12, 200, 'sentences read by several threads')
def k07_threads(rng, obs, params):
    from gb.nlp.parser import Parser
    from gb.nlp.sentence import Sentence
    parser = Parser()
    jobs = []
    for _ in range(rng.choice([2, 3, 4])):
        sents = [small_sentence(rng, 2, 8) for _ in range(4)]
        job = []
        for s in sents:
            _, outs = extract(s)
            tokens, = parser.parse_text(text_for([s]))
            job.append((Sentence(tokens), outs, parses.show(s)))
        obs.seen([j[2] for j in job])
        jobs.append((extractor(), job))

    def work(ex, job):
        def f(obs):
            for sentence, outs, shown in job:
                res = ex.read_sentence(sentence)
                if str(res) != outs[-1] or list(ex.outputs) != outs:
                    raise Violation('%s, instead of %s, while other threads read' % (res, outs[-1]), shown)
                obs.count('read_in_threads')
        return f
    together(obs, [work(*j) for j in jobs], rng, rng.choice([0.02, 0.2]))
    obs.sample = [j[2] for j in jobs[0][1][:2]]
