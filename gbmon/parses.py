"""Annotated sentences: random ones, and hand-made parses of the sentences of the project's own extractor tests."""

import gbmon.semref as semref
from gbmon.semref import Word

DEPS = ['aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod', 'pcomp', 'compound', 'prep', 'prep',
        'nsubj', 'nsubjpass', 'dobj', 'pobj', 'pobj', 'conj', 'attr', 'acomp', 'xcomp', 'ccomp', 'relcl', 'advcl',
        'punct', '', 'npadvmod', 'mark', 'neg', 'prt', 'case', 'appos', 'dative', 'oprd', 'expl',
        'acl', 'quantmod', 'nmod', 'parataxis', 'predet', 'preconj', 'csubj', 'dep', 'meta', 'intj']
POS = ['VERB', 'ADV', 'ADP', 'PART', 'NOUN', 'PROPN', 'ADJ', 'DET', 'NUM', 'PRON', 'CCONJ', 'PUNCT', 'SPACE', 'INTJ',
       'SCONJ', 'AUX', 'SYM', 'X']
REL = ['VERB', 'ADV', 'ADP', 'PART']
ENTS = ['GPE', 'ORG', 'PERSON', 'LOC']
WORDS = ['is', 'to', 'of', 'the', 'a', 'an', 'Berlin', 'berlin', 'NASA', 'sea', 'ice', 'wipe', 'out', "n't", "'s", '1st',
         '2016', 'third', 'a/b', '(', ')', 'x(y)', 'http://a.b/c', '-', '--', ',', '.', 's\u00e3o', '\u65e5\u672c', 'and',
         '3.5', '_', 'a_b', '~', 'x', 'STRASSE', '\u0130', '/', '7.0', '(s)', '\n', ' ', '\ud7ff', '?', '1/2', 'U.S.',
         'Donaudampfschifffahrtselektrizitaetenhauptbetriebswerkbauunterbeamtengesellschaft', 'supercalifragilistic' * 7,
         '\U0001f600', 'x\U00010348y', '\u2019s', '\u2014', '%', '50%', '&', '&amp;', '"', '``', "''", '\\', 'e\u0301', '\xa0', '\t',
         "o'neill", '\u01c5', 'stra\xdfe', '#tag', '@x', '$', '1,000', 'a:b', '+', '*', '=', '[1]', '{x}', '\u200b', '\u2028',
         '1e5', 'nan', 'None', '0', '-1', '..', 'I', 'i']


def link(words, heads):
    """Fills in heads and children."""
    for i, (w, h) in enumerate(zip(words, heads)):
        w.i = i
        w.head = words[h]
        w.left = []
        w.right = []
    for i, (w, h) in enumerate(zip(words, heads)):
        if h != i:
            (words[h].left if i < h else words[h].right).append(w)
    return words


def sentence(rng, n, style=None, unique=False):
    """A random parse, with projective heads."""
    style = style or rng.choice(['any', 'any', 'verbal', 'nominal', 'nested', 'chained', 'repeated'])
    deps, poss = DEPS, POS
    if style == 'verbal':
        deps = ['aux', 'auxpass', 'advmod', 'prep', 'agent', 'nsubj', 'dobj', 'pobj', 'xcomp', 'prt', 'neg', 'conj', 'det']
        poss = REL * 3 + ['NOUN', 'PROPN', 'DET', 'ADJ']
    elif style == 'nominal':
        deps = ['compound', 'compound', 'det', 'amod', 'prep', 'pobj', 'poss', 'nsubj', 'dobj', 'pcomp', 'nummod', 'cc',
                'conj', 'appos']
        poss = ['NOUN', 'NOUN', 'PROPN', 'PROPN', 'ADJ', 'DET', 'ADP', 'NUM']
    elif style == 'nested':
        deps = sorted(semref.NEST) + ['prep', 'nsubj', 'pobj']
    elif style == 'chained':
        # relationships of words that are first elements of first elements
        deps = ['pcomp', 'compound', 'pcomp', 'compound', 'aux', 'advmod', 'nsubj', 'dobj', 'prep']
        poss = REL * 4 + ['NOUN', 'PROPN']
    heads = [None] * n
    steep = style == 'repeated' and rng.random() < 0.7

    def build(lo, hi, parent):
        h = rng.randrange(lo, hi)
        if steep:
            # enumerations and the like: each word hangs from the one before, or after
            h = lo if steep_right or hi - lo < 3 and rng.random() < 0.5 else rng.choice([lo, hi - 1])
        heads[h] = h if parent is None else parent
        for a, b in ((lo, h), (h + 1, hi)):
            while a < b:
                c = rng.randint(a + 1, b)
                build(a, c, h)
                a = c
    steep_right = rng.random() < 0.7
    build(0, n, None)
    words = []
    ents = rng.choice([0, 0.2, 0.7])
    for i in range(n):
        pos = rng.choice(poss)
        if unique:
            w = 'w%d' % i
        elif rng.random() < 0.6:
            w = rng.choice(WORDS)
        else:
            w = rng.choice(['Alpha', 'beta', 'gamma', 'delta', 'is', 'to'])
        lemma = w.lower().strip() or w
        if pos == 'DET' and rng.random() < 0.7 or rng.random() < 0.05:
            lemma = rng.choice(['the', 'a', 'an'])
        elif pos == 'DET':
            lemma = rng.choice(['this', 'all', 'an', 'The', 'no'])
        ent = ''
        if rng.random() < ents:
            ent = rng.choice(ENTS[:2])
        words.append(Word(w, pos, 'ROOT' if heads[i] == i else rng.choice(deps), lemma, ent))
    link(words, heads)
    if style == 'repeated':
        again = rng.choice([0.5, 0.9])

        def spread(w):
            for c in w.left + w.right:
                if w.dep != 'ROOT' and rng.random() < again:
                    c.dep = w.dep
                spread(c)
        spread(root(words))
    return words


def broad(rng, lo=12, hi=70):
    """A parse of words with very many words hanging from them, most of them alike."""
    n = rng.randint(lo, hi)
    layout = rng.choice(['star', 'two', 'run', 'run', 'runs'])
    hub = rng.choice([0, n - 1, rng.randrange(n)])
    heads = [hub] * n
    if layout == 'run':
        # a verb, and one long name before or after it
        hub = rng.choice([0, n - 1])
        end = n - 1 if hub == 0 else 0
        end = rng.choice([end, rng.choice([i for i in range(n) if i != hub])])
        heads = [hub if i == end else end for i in range(n)]
        heads[hub] = hub
    elif layout in ('two', 'runs'):
        size = rng.choice([4, 9, 17, 30])
        for lo in range(0, n, size):
            part = [i for i in range(lo, min(n, lo + size)) if i != hub]
            inside = [p for p in (part, [i for i in part if i < hub], [i for i in part if i > hub]) if p]
            if part and lo <= hub < lo + size:
                inside = inside[1:]
            else:
                inside = inside[:1]
            for part in inside:
                top = rng.choice([part[0], part[-1]])
                for i in part:
                    heads[i] = hub if i == top else top
    heads[hub] = hub
    theme = rng.choice([['compound'], ['pobj', 'compound', 'dobj', 'nsubj'], ['pcomp'], ['prep'], ['conj'], ['amod'],
                        ['det', 'amod', 'poss'], DEPS])
    others = rng.choice([[], [], DEPS])
    poss = rng.choice([['NOUN'], ['NOUN', 'PROPN'], ['NOUN', 'NOUN', 'ADJ', 'NUM', 'DET'], REL])
    ent = rng.choice(['', 'GPE'])
    words = []
    for i in range(n):
        dep = rng.choice(others if others and rng.random() < 0.05 else theme)
        w = Word('w%d' % i, rng.choice(poss), 'ROOT' if heads[i] == i else dep)
        w.ent = ent if rng.random() < 0.97 else 'ORG'
        words.append(w)
    if rng.random() < 0.6:
        words[hub].pos = rng.choice(['VERB', 'NOUN', 'PROPN'])
    if rng.random() < 0.3:
        # one that is not like the others, near the end
        w = words[rng.choice([-1, -2, n // 2])]
        w.ent, w.pos = 'LOC', 'ADJ'
        if w.dep != 'ROOT':
            w.dep = 'amod'
    return link(words, heads)


def show(words):
    return ' '.join('%s>%d' % (w.show(), w.head.i) for w in words)


def root(words):
    return [w for w in words if w.dep == 'ROOT'][0]


def text_of(sentences):
    return ' '.join(w.word for s in sentences for w in s)


GOLDEN_PARSES = []


def golden(text, alpha, beta, gamma, delta):
    """text: word/POS/dep/head[/entity] separated by spaces."""
    words, heads = [], []
    for t in text.split():
        f = t.split('/')
        words.append(Word(f[0], f[1], f[2], None, f[4] if len(f) > 4 else ''))
        words[-1].lemma = f[0].lower()
        heads.append(int(f[3]))
    GOLDEN_PARSES.append((link(words, heads), [alpha, beta, gamma, delta]))


golden('Telmo/PROPN/nsubj/2 is/VERB/aux/2 going/VERB/ROOT/2 to/ADP/prep/2 the/DET/det/5 gym/NOUN/pobj/3 ./PUNCT/punct/2',
       '(is (going telmo (to (the gym))))', '(is (going telmo (to (the gym))))', '(is_going telmo (to gym))',
       '(is_going_to telmo gym)')
golden('Some/DET/det/1 subspecies/NOUN/nsubj/5 of/ADP/prep/1 mosquito/NOUN/pobj/2 might/VERB/aux/5 be/VERB/ROOT/5 '
       '1st/ADJ/acomp/5 to/PART/aux/10 be/VERB/auxpass/10 genetically/ADV/advmod/10 wiped/VERB/xcomp/6 out/PART/prt/10 '
       './PUNCT/punct/5',
       '(might (be (some (of subspecies mosquito)) (1st (to (be (genetically (wiped out)))))))',
       '(might (be (some (of subspecies mosquito)) (1st (to (be (genetically (wiped out)))))))',
       '(might_be (some (of subspecies mosquito)) (1st (to_be_genetically wiped_out)))',
       '(might_be (some (of subspecies mosquito)) (1st (to_be_genetically wiped_out)))')
golden('Due/ADP/prep/11 to/ADP/pcomp/0 its/ADJ/poss/3 location/NOUN/pobj/0 in/ADP/prep/3 the/DET/det/7/LOC '
       'European/PROPN/compound/7/LOC Plain/PROPN/pobj/4/LOC ,/PUNCT/punct/11 Berlin/PROPN/nsubjpass/11/GPE '
       'is/VERB/auxpass/11 influenced/VERB/ROOT/11 by/ADP/agent/11 a/DET/det/16 temperate/ADJ/amod/16 '
       'seasonal/ADJ/amod/16 climate/NOUN/pobj/12 ./PUNCT/punct/11',
       '(is (by (influenced ((due to) (its (in location (the (european plain))))) berlin) '
       '(a (temperate (seasonal climate)))))',
       '(is (by (influenced ((due to) (its (in location (the european_plain)))) berlin) '
       '(a (temperate (seasonal climate)))))',
       '(is_by (influenced (due_to (its (in location european_plain))) berlin) (temperate (seasonal climate)))',
       '((influenced_due_to is_by) (its (in location european_plain)) berlin (temperate (seasonal climate)))')
golden('Koikuchi/PROPN/compound/1 shoyu/PROPN/nsubj/8 ,/PUNCT/punct/1 best/ADV/advmod/4 known/VERB/acl/1 as/ADP/prep/4 '
       'soy/NOUN/compound/7 sauce/NOUN/pobj/5 is/VERB/ROOT/8 the/DET/det/10 mother/NOUN/attr/8 of/ADP/prep/10 '
       'all/DET/det/13 sauces/NOUN/pobj/11 in/ADP/prep/10 Japan/PROPN/pobj/14/GPE ./PUNCT/punct/8',
       '(is ((koikuchi shoyu) (best (known (as (soy sauce))))) (the (of (in mother japan) (all sauces))))',
       '(is (koikuchi_shoyu (best (known (as soy_sauce)))) (the (of (in mother japan) (all sauces))))',
       '(is (koikuchi_shoyu (best_known_as soy_sauce)) (of (in mother japan) (all sauces)))',
       '((is of) (koikuchi_shoyu (best_known_as soy_sauce)) (in mother japan) (all sauces))')
golden('Sweden/PROPN/nsubj/1/GPE is/VERB/ROOT/1 the/DET/det/6 third/ADV/advmod/6 -/PUNCT/punct/6 largest/ADJ/amod/6 '
       'country/NOUN/attr/1 in/ADP/prep/6 the/DET/det/10/LOC European/PROPN/compound/10/LOC Union/PROPN/pobj/7/LOC '
       'by/ADP/prep/6 area/NOUN/pobj/11 ./PUNCT/punct/1',
       '(is sweden (the (third (largest (in (by country area) (the (european union)))))))',
       '(is sweden (the (third (largest (in (by country area) (the european_union))))))',
       '(is sweden (third (largest (in (by country area) european_union))))',
       '(is_third sweden (largest (in (by country area) european_union)))')
golden('Sweden/PROPN/nsubj/1/GPE wants/VERB/ROOT/1 to/PART/aux/3 fight/VERB/xcomp/1 our/ADJ/poss/6 '
       'disposable/ADJ/amod/6 culture/NOUN/dobj/3 with/ADP/prep/3 tax/NOUN/compound/9 breaks/NOUN/pobj/7 for/ADP/prep/9 '
       'repairing/VERB/pcomp/10 old/ADJ/amod/13 stuff/NOUN/dobj/11 ./PUNCT/punct/1',
       '(wants sweden (to (fight (our (disposable culture)) (with ((for (repairing (old stuff))) (tax breaks))))))',
       '(wants sweden (to (fight (our (disposable culture)) (with ((for (repairing (old stuff))) tax_breaks)))))',
       '(wants sweden (to_fight (our (disposable culture)) (with ((for_repairing (old stuff)) tax_breaks))))',
       '((wants_to_fight with) sweden (our (disposable culture)) ((for_repairing (old stuff)) tax_breaks))')
golden('2016/NUM/nummod/2 Nobel/PROPN/compound/2/ORG Prize/PROPN/nsubjpass/8/ORG in/ADP/prep/2 Physiology/NOUN/pobj/3 '
       'or/CCONJ/cc/4 Medicine/NOUN/conj/4 Is/VERB/auxpass/8 Awarded/VERB/ROOT/8 to/ADP/prep/8 '
       'Yoshinori/PROPN/compound/11/PERSON Ohsumi/PROPN/pobj/9/PERSON ./PUNCT/punct/8',
       '(is (awarded (2016 (in (nobel prize) (or (physiology medicine)))) (to (yoshinori ohsumi))))',
       '(is (awarded (2016 (in nobel_prize (or (physiology medicine)))) (to yoshinori_ohsumi)))',
       '(is_awarded (2016 (in nobel_prize (or (physiology medicine)))) (to yoshinori_ohsumi))',
       '(is_awarded_to (2016 (in nobel_prize (or (physiology medicine)))) yoshinori_ohsumi)')
golden('OpenCola/PROPN/nsubj/1 is/VERB/ROOT/1 a/DET/det/3 brand/NOUN/attr/1 of/ADP/prep/3 open/ADJ/amod/7 -/PUNCT/punct/7 '
       'source/NOUN/compound/8 cola/NOUN/pobj/4 ,/PUNCT/punct/8 where/ADV/advmod/16 the/DET/det/12 '
       'instructions/NOUN/nsubj/16 for/ADP/prep/12 making/VERB/pcomp/13 it/PRON/nsubj/16 are/VERB/relcl/8 '
       'freely/ADV/advmod/18 available/ADJ/acomp/16 and/CCONJ/cc/18 modifiable/ADJ/conj/18 ./PUNCT/punct/1',
       '(is opencola (a (of brand (((open source) cola) (where (are (the ((for making) instructions)) it (freely (and '
       '(available modifiable)))))))))',
       '(is opencola (a (of brand (((open source) cola) (where (are (the ((for making) instructions)) it (freely (and '
       '(available modifiable)))))))))',
       '(is opencola (of brand (((open source) cola) (where_are (for_making instructions) it (freely (and '
       '(available modifiable)))))))',
       '((is of) opencola brand ((open source cola) (where_are (for_making instructions) it (freely (and '
       '(available modifiable))))))')
