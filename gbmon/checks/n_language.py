"""N01: the parser keeps what the language model says. N02: tokens and sentences."""

import contextlib
import gc
import io
import sys
import zlib

import gbmon.parses as parses
import gbmon.semref as semref
from gbmon.core import Check, HarnessError, Violation, register
from gbmon.stubs import fake_spacy
from gbmon.threads import together
from gbmon.checks.k_knowledge import STAND_IN, STAGES, small_sentence, text_for

N01 = register(Check(
    'N01', 'Random annotated documents of several sentences, real spaCy objects, go through the parser, many through '
    'the same one: each sentence, token, attribute, child and parent has to be that of the document, in its order, '
    'and be the same object wherever it is reached from, with no token shared between texts. distinct_nontrivial '
    'counts distinct documents.', assumptions=[STAND_IN],
    need=['documents', 'tokens', 'parents', 'entities', 'several_sentences', 'same_parser', 'parsed_in_threads', 'long_texts']))


def random_document(rng, hi=12):
    sents = [parses.sentence(rng, rng.randint(1, hi)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    for s in sents:
        for w in s:
            # a property of the word, and not of where it is
            w.prob = -(zlib.crc32(w.word.encode('utf-8')) % 80) / 4.0
    return sents


def check_parse(rng, obs, sents, got, doc):
    obs.count('documents')
    spans = list(doc.sents)
    if len(spans) != len(sents):
        raise HarnessError('%d sentences instead of %d' % (len(spans), len(sents)))
    if len(got) != len(sents):
        raise Violation('%d sentences, instead of %d' % (len(got), len(sents)))
    all_tokens = []
    for span, tokens, words in zip(spans, got, sents):
        what = parses.show(words)
        if len(tokens) != len(words):
            raise Violation('%d tokens, instead of %d' % (len(tokens), len(words)), what)
        start = span.start
        at = dict((w.i, t) for w, t in zip(words, tokens))
        all_tokens += tokens
        for w, t in zip(words, tokens):
            st = doc[start + w.i]
            expected = {'word': w.word.lower().strip(), 'lemma': w.lemma, 'shape': st.shape_, 'logprob': st.prob,
                        'pos': w.pos, 'dep': w.dep, 'entity_type': w.ent}
            for name, value in expected.items():
                if getattr(t, name) != value or type(getattr(t, name)) is not type(value):
                    raise Violation('%s of %r is %r, instead of %r' % (name, w.word, getattr(t, name), value), what)
            for side, ws, ts in (('left', w.left, t.left_children), ('right', w.right, t.right_children)):
                if len(ws) != len(ts) or any(at[c.i] is not x for c, x in zip(ws, ts)):
                    raise Violation('the %s children of %r are %r, instead of %r' % (
                        side, w.word, ts, [c.word for c in ws]), what)
            parent = None if w.head is w else at[w.head.i]
            if t.parent is not parent:
                raise Violation('the parent of %r is %r, instead of %r' % (w.word, t.parent, parent), what)
            obs.count('parents', parent is not None)
            obs.count('tokens')
            obs.count('entities', bool(w.ent))
    if len(set(map(id, all_tokens))) != len(all_tokens):
        raise Violation('a token is in two places')
    return all_tokens


@N01.kind('documents', 300, 8000, 'documents parsed')
def n01(rng, obs, params):
    from gb.nlp.parser import Parser
    parser = Parser()
    kept = []
    for i in range(rng.randint(1, 6)):
        again = kept and rng.random() < 0.3
        sents = kept[-1][0] if again else random_document(rng)
        text = text_for(sents)
        obs.log([parses.show(s) for s in sents])
        obs.seen([parses.show(s) for s in sents])
        got = parser.parse_text(text)
        if len(fake_spacy.parsed) != 1:
            raise HarnessError('%d documents were made' % len(fake_spacy.parsed))
        doc = fake_spacy.parsed[0]
        tokens = check_parse(rng, obs, sents, got, doc)
        kept.append((sents, got, doc, tokens))
        obs.count('same_parser', i > 0)
        obs.count('several_sentences', len(sents) > 1)
        ids = [id(t) for k in kept for t in k[3]]
        if len(set(ids)) != len(ids):
            raise Violation('a token is shared between texts')
    # what was parsed before is still the same
    for sents, got, doc, _ in kept:
        check_parse(rng, obs, sents, got, doc)
    obs.sample = obs.trace[0]


@N01.kind('threads', 10, 200, 'documents parsed by several threads, with one parser or one for each')
def n01_threads(rng, obs, params):
    from gb.nlp.parser import Parser
    shared = Parser() if rng.random() < 0.5 else None
    jobs = []
    for i in range(rng.choice([2, 3])):
        documents = [random_document(rng, 6) for _ in range(3)]
        jobs.append((shared or Parser(), [('%d %d %s' % (i, n, parses.text_of(d)), d) for n, d in enumerate(documents)]))
        obs.seen([parses.show(s) for d in documents for s in d])
    text_for([])
    fake_spacy.texts = dict(x for _, job in jobs for x in job)

    def work(parser, job):
        def f(obs):
            for text, sents in job:
                got = parser.parse_text(text)
                docs = [d for d in list(fake_spacy.parsed) if d.user_data.get('text') == text]
                if len(docs) != 1:
                    raise HarnessError('%d documents' % len(docs))
                check_parse(rng, obs, sents, got, docs[0])
                obs.count('parsed_in_threads')
        return f
    together(obs, [work(*j) for j in jobs], rng, rng.choice([0.02, 0.2]))
    obs.sample = parses.show(jobs[0][1][0][1][0])


@N01.kind('long', 6, 60, 'long texts')
def n01_long(rng, obs, params):
    from gb.nlp.parser import Parser
    size, wide, length = [(3000, 60, [1, 5, 12, 40]), (1500, 200, [1, 2]), (6000, 12, [1, 5, 12, 40]), (400, 2000, [5, 12]),
                          (2500, 3, [1, 1, 2]), (5000, 3, [400])][params['i'] % 6]
    sents, n = [], 0
    while n < size:
        words = parses.sentence(rng, rng.choice(length), unique=True)
        for w in words:
            w.word = '%s%d' % (rng.choice('abc') * rng.randint(1, 2 * wide), n)
            w.lemma = w.word.lower()
            w.prob = -(zlib.crc32(w.word.encode('utf-8')) % 80) / 4.0
            n += 1
        sents.append(words)
    text = ' '.join(w.word for s in sents for w in s)
    text_for([])
    fake_spacy.texts = {text: sents}
    fake_spacy.pieces = True
    try:
        got = Parser().parse_text(text)
    finally:
        fake_spacy.pieces = False
    obs.log('%d sentences, %d tokens, %d characters' % (len(sents), n, len(text)))
    obs.seen(text)
    obs.count('long_texts')
    want = [[(w.low, w.lemma, w.pos, w.dep, w.ent) for w in s] for s in sents]
    have = [[(t.word, t.lemma, t.pos, t.dep, t.entity_type) for t in s] for s in got]
    if have != want:
        raise Violation('a text of %d characters has %d sentences with %d tokens, instead of %d with %d' % (
            len(text), len(have), sum(len(s) for s in have), len(want), n))
    obs.count('tokens', n)
    obs.sample = obs.trace[-1]


N02 = register(Check(
    'N02', 'On random parses: the words below a token, in order, with and without punctuation and spaces, its text, '
    'the root and text of sentences, and the equality of tokens have to be those of the parse. '
    'distinct_nontrivial counts distinct parses.', assumptions=[STAND_IN],
    need=['sentences', 'tokens', 'not_words', 'equal_tokens', 'different_tokens']))


def make_tokens(words):
    """Tokens of a parse, made by the parser."""
    from gb.nlp.parser import Parser
    return Parser().parse_text(text_for([words]))[0]


def label(w, prefix):
    return '[%s]%s/%s (%s) {%s}' % (prefix, w.low, w.pos, w.dep, w.ent)


def big(rng):
    """Words with a hundred words below them, and words deep below others."""
    r = rng.random()
    if r < 0.3:
        return parses.broad(rng, 30, 160)
    if r < 0.6:
        return parses.sentence(rng, rng.randint(40, 160), style='repeated')
    return parses.sentence(rng, rng.randint(40, 200))


@N02.kind('sentences', 300, 8000, 'tokens and sentences')
def n02(rng, obs, params):
    from gb.nlp.nlp_token import Token
    from gb.nlp.sentence import Sentence
    for _ in range(5):
        words = parses.sentence(rng, rng.randint(1, 15), unique=rng.random() < 0.4)
        if rng.random() < 0.01:
            words = big(rng)
        tokens = make_tokens(words)
        obs.log(parses.show(words))
        obs.seen(parses.show(words))
        separators = set()
        for t in tokens:
            if rng.random() < 0.1:
                t.separator = True
                separators.add(id(t))
        for w, t in zip(words, tokens):
            below = semref.subtree(w)
            got = t.to_list()
            if len(got) != len(below) or any(tokens[x.i] is not y for x, y in zip(below, got)):
                raise Violation('to_list of %r is %r' % (w.word, got), parses.show(words))
            is_word = [x for x in below if x.pos not in ('PUNCT', 'SPACE') and id(tokens[x.i]) not in separators]
            if bool(t.is_word()) != any(x is w for x in is_word):
                raise Violation('is_word of %r is %r' % (t, t.is_word()))
            got = t.to_word_token_list()
            if len(got) != len(is_word) or any(tokens[x.i] is not y for x, y in zip(is_word, got)):
                raise Violation('to_word_token_list of %r is %r' % (w.word, got), parses.show(words))
            if t.chunk_str() != ' '.join(x.low for x in is_word):
                raise Violation('chunk_str of %r is %r' % (w.word, t.chunk_str()), parses.show(words))
            if str(t) != label(w, '')[2:] or repr(t) != str(t):
                raise Violation('str of %r is %r' % (w.show(), str(t)))
            obs.count('tokens')
            obs.count('not_words', len(below) - len(is_word))
        for w, t in zip(words, tokens):
            for x, u in zip(words, tokens):
                same = w.identity() == x.identity()
                if (t == u) != same or (t != u) == same:
                    raise Violation('%r == %r is %r' % (t, u, t == u))
                obs.count('equal_tokens' if same else 'different_tokens')
        if tokens[0] == words[0].low or tokens[0] == None:    # noqa: E711
            raise Violation('a token is equal to something else')
        s = Sentence(tokens)
        if str(s) != ' '.join(w.low for w in words):
            raise Violation('str of the sentence is %r' % (str(s),), parses.show(words))
        root = parses.root(words)
        if s.root() is not tokens[root.i]:
            raise Violation('the root is %r' % (s.root(),), parses.show(words))
        if Sentence([t for t in tokens if t.dep != 'ROOT']).root() is not None:
            raise Violation('a sentence without a root has one')
        obs.count('sentences')
    obs.sample = obs.trace[0]


N03 = register(Check(
    'N03', 'The drawings of random parses, many with the same word several times under one head, are read back by the '
    'columns of their labels: the tree has to be the one of the parse, with every token once, under its head, on its '
    'side, in order. A sentence without a root draws nothing. distinct_nontrivial counts distinct parses.',
    assumptions=[STAND_IN],
    need=['drawings', 'labels', 'repeated_siblings', 'levels_5', 'without_root', 'debug_drawings']))


def read_drawing(text):
    """The (depth, label) of each line of a drawing: what is before the label is only lines and blanks."""
    res = []
    columns = []
    for line in text.splitlines():
        at = line.find('[')
        if at < 0:
            raise Violation('a line without a label: %r' % line, text)
        if any(c.isalnum() for c in line[:at]):
            raise Violation('a word outside of a label: %r' % line, text)
        while columns and columns[-1] >= at:
            columns.pop()
        res.append((len(columns), line[at:].rstrip()))
        columns.append(at)
    return res


def expected_drawing(w, prefix, depth=0):
    res = [(depth, label(w, prefix).rstrip())]
    for c in w.left:
        res += expected_drawing(c, 'L', depth + 1)
    for c in w.right:
        res += expected_drawing(c, 'R', depth + 1)
    return res


def printed(f, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*args)
    return out.getvalue()


@N03.kind('drawings', 300, 8000, 'trees printed')
def n03(rng, obs, params):
    from gb.nlp.sentence import Sentence
    for _ in range(5):
        words = parses.sentence(rng, rng.choice([1, 2, 5, 9, 15, 30]), unique=rng.random() < 0.3)
        if rng.random() < 0.03:
            words = big(rng)
        if rng.random() < 0.6:
            # the same word again and again: "very, very good"
            for w in words:
                if w is not w.head and rng.random() < 0.7:
                    w.word, w.lemma, w.pos, w.dep, w.ent = 'very', 'very', 'ADV', 'advmod', ''
        tokens = make_tokens(words)
        obs.log(parses.show(words))
        obs.seen(parses.show(words))
        root = parses.root(words)
        want = expected_drawing(root, '*')
        got = read_drawing(printed(Sentence(tokens).print_tree))
        if got != want:
            raise Violation('printed %r, instead of %r' % (got, want), parses.show(words))
        obs.count('drawings')
        obs.count('labels', len(got))
        for w in words:
            for side in (w.left, w.right):
                obs.count('repeated_siblings', len(side) - len(set(label(c, '') for c in side)))
        obs.count('levels_5', max(d for d, _ in got) >= 5)
        rest = printed(Sentence([t for t in tokens if t.dep != 'ROOT']).print_tree)
        if rest.strip():
            raise Violation('a sentence without a root printed %r' % rest)
        obs.count('without_root')
    # the debugging output of the extractor has the same drawing
    from gb.knowledge.extractor import Extractor
    sents = [words]
    text = text_for(sents)
    extractor = Extractor(None, ('alpha',))
    extractor.debug = True
    try:
        out = printed(extractor.read_text, text)
    except Exception:
        # what the stages refuse is not for this property, but the drawing is printed before them
        out = None
    if out is not None:
        lines = [line.rstrip() for line in out.splitlines()]
        start = lines.index(want[0][1]) if want[0][1] in lines else -1
        if start < 0 or read_drawing('\n'.join(lines[start:start + len(want)])) != want:
            raise Violation('the debugging output does not have the tree', out)
        obs.count('debug_drawings')
    obs.sample = obs.trace[0]


N04 = register(Check(
    'N04', 'One parser or extractor (all the stages or some, with and without debugging output and a hypergraph) reads '
    'text after text, in blocks of 24; what it returns is dropped. After each block the objects of the code under test '
    'that are alive, the parsed documents that are alive, and the blocks of memory in use are counted: if both of the '
    'later blocks of texts leave more, what was read is kept. A text that fails is also part of it. '
    'distinct_nontrivial counts distinct sequences of texts.', assumptions=[STAND_IN],
    need=['texts', 'by_parsers', 'by_extractors', 'failures']))


def alive():
    """The objects of classes of the code under test, by class, and documents."""
    gc.collect()
    res = {}
    for o in gc.get_objects():
        m = getattr(type(o), '__module__', '')
        m = m if isinstance(m, str) else ''
        if m.startswith('gb.') or (m.startswith('spacy.tokens') and type(o).__name__ in ('Doc', 'Token')):
            res[type(o).__name__] = res.get(type(o).__name__, 0) + 1
    return res


@N04.kind('reading', 24, 400, 'text after text')
def n04(rng, obs, params):
    from gb.knowledge.extractor import Extractor
    from gb.nlp.parser import Parser
    pool = [[small_sentence(rng, 3, 7) for _ in range(rng.choice([1, 2]))] for _ in range(8)]
    if rng.random() < 0.4:
        read, what = Parser().parse_text, 'by_parsers'
    else:
        n = rng.randint(1, len(STAGES))
        ex = Extractor(None, STAGES[:n])
        ex.debug = rng.random() < 0.3
        read, what = ex.read_text, 'by_extractors'
    # one that the stages refuse: it has no root
    broken = [parses.sentence(rng, 4)]
    for w in broken[0]:
        w.dep = 'dep'
    fails = rng.random() < 0.3
    obs.log(what, [[parses.show(s) for s in d] for d in pool])
    obs.seen([what, [[parses.show(s) for s in d] for d in pool]])
    counts, sizes = [], []
    # the first block fills whatever is kept once
    for block in range(4):
        for i in range(24):
            if fails and i % 6 == 5:
                try:
                    printed(read, text_for(broken))
                except Exception:
                    obs.count('failures')
            printed(read, text_for(pool[i % len(pool)]))
            obs.count('texts')
        counts.append(alive())
        sizes.append(sys.getallocatedblocks())
    obs.count(what)
    for name in counts[-1]:
        a, b, c = (x.get(name, 0) for x in counts[1:])
        if b - a >= 20 and c - b >= 20:
            raise Violation('%d objects of the class %s are left by 24 texts, and %d by the next 24' % (b - a, name, c - b))
    if sizes[2] - sizes[1] >= 90 and sizes[3] - sizes[2] >= 90:
        raise Violation('24 texts leave %d blocks of memory, and the next 24 leave %d' % (
            sizes[2] - sizes[1], sizes[3] - sizes[2]))
    obs.sample = [counts[-1], sizes]
