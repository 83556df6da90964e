"""Random WordNets, and the edges that reading them has to add."""

from gbmon.stubs import FakeLemma, FakeSynset, LEMMA_LINKS, SYNSET_LINKS, fake_wordnet

NAMES = ['dog', 'Berlin', 'hot_dog', '24/7', "o'clock", '.22', '9/11', '1', '1900s', 'New_York', 'U.S.', 'AC/DC', 'A',
         'b-flat', "'hood", 'caf\u00e9', '\u65e5\u672c', 'TV', 'tv', 'x', 'ta-ta', 'co.', 'km/h', 'I/O', '3-D', 'zero',
         '/', '.', '-', '7.0', 'http', '~', '\U0001f600', 'Earth', 'earth', '2,4,5-trichlorophenoxyacetic_acid', "'", '%', '?',
         'Llanfairpwllgwyngyllgogerychwyrndrobwllllantysiliogogoch_railway_station', '-1', '1_000', '_', 'wn.dog', 'gb']
RELS = {'hypernyms': 'hypernym', 'instance_hypernyms': 'instance_hypernym', 'member_meronyms': 'member_meronym',
        'attributes': 'attribute', 'entailments': 'entailment', 'causes': 'cause', 'also_sees': 'also_see',
        'verb_groups': 'verb_group', 'similar_tos': 'similar_to'}
LEMMA_RELS = {'antonyms': 'antonym', 'pertainyms': 'pertainym',
              'derivationally_related_forms': 'derivationally_related_form'}
POS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}


def random_wordnet(rng, n, links=0.5, wide=0):
    """With wide, the first synsets have hundreds of lemmas and relations."""
    synsets, used = [], {}
    for _ in range(n):
        pos = rng.choice('nnvvasr')
        names = []
        for _ in range(rng.choice([1, 1, 2, 3, 5]) if len(synsets) >= wide else rng.choice([20, 110, 300])):
            name = rng.choice(NAMES) if rng.random() < 0.7 else 'w%d' % rng.randrange(max(n, 1000 if wide else 0) * 2)
            if name not in names:
                names.append(name)
        if rng.random() < 0.05 and names[0].swapcase() not in names:
            # Earth and earth, of one synset
            names.append(names[0].swapcase())
        # numbered as WordNet does: the same word has several synsets
        k = used.get((names[0].lower(), pos), 0) + 1
        used[(names[0].lower(), pos)] = k
        s = FakeSynset('%s.%s.%02d' % (names[0].lower(), pos, k), pos)
        s._lemmas = [FakeLemma(x, s) for x in names]
        synsets.append(s)
    for i, s in enumerate(synsets):
        if i < wide:
            # other synsets, each once
            for rel in rng.sample(SYNSET_LINKS, 4):
                s.links[rel] = rng.sample(synsets, min(len(synsets), rng.choice([17, 60, 150, 300])))
            lemma = rng.choice(s._lemmas)
            for rel in LEMMA_LINKS:
                lemma.links[rel] = [rng.choice(rng.choice(synsets)._lemmas) for _ in range(rng.choice([17, 60, 150]))]
            continue
        for rel in SYNSET_LINKS:
            if rng.random() < links:
                s.links[rel] = rng.sample(synsets, min(len(synsets), rng.choice([1, 1, 2, 3])))
        for lemma in s._lemmas:
            for rel in LEMMA_LINKS:
                if rng.random() < links:
                    lemma.links[rel] = [rng.choice(rng.choice(synsets)._lemmas) for _ in range(rng.choice([1, 1, 2]))]
    return synsets


def symbol(lemma):
    return '%s/wn.%s' % (lemma.name().replace('/', '_'), lemma.synset().name().replace('/', '_'))


def expected(synsets):
    """The edges, without what is said about who says them."""
    res = []
    for s in synsets:
        first = s.lemmas()[0]
        res.append(('pos/gb', symbol(first), POS[s.pos()]))
        for lemma in s.lemmas()[1:]:
            res.append(('synonym/gb', symbol(first), symbol(lemma)))
        for rel, name in RELS.items():
            for other in s.links.get(rel, []):
                res.append((name + '/gb', symbol(first), symbol(other.lemmas()[0])))
        for lemma in s.lemmas():
            for rel, name in LEMMA_RELS.items():
                for other in lemma.links.get(rel, []):
                    res.append((name + '/gb', symbol(lemma), symbol(other)))
    return res


def use(synsets):
    fake_wordnet.all = list(synsets)
