"""Generators of symbols and edges, built to be hostile to string prefixes, sorting, quoting and number parsing."""

THEMES = {
    'plain': ['graphbrain/1', 'is/1', 'great/1', 'size', 'berlin', 'germany', 'src/1', 'a', 'b', 'c'],
    'prefix': ['a', 'a/1', 'a/10', 'a/1/2', 'ab', 'a!', 'a!b', 'ab/1', 'a/', 'aa', 'b', 'a\x01', "a'"],
    'near_space': ['x', 'x!', 'x\x1b', 'x"', '!', '!x', 'x~', 'x!/1', '~', '}', 'x}'],
    'sql': ["o'hare", 'a%', 'a_', '%', '_', '?', '"x"', ';--', '%s', "'OR'1=1--", '`', 'a\\', 'a\\\\', '*', '[a]',
            ':1', '@x', '$1', '{0}', '%(a)s', '%d'],
    'unicode': [u'a\u00e7\u00e3o', u'A\u00e7\u00e3o', u'\u65e5\u672c', u'e\u0301', u'\u00e9', u'\u00df', u'\u0130',
                u'\U0001f600', u'\uffff', u'\u200b', u'\u0663', u'\u00b2', u'\ufeffx', u'\u202ex'],
    'case': ['Berlin', 'berlin', 'BERLIN', 'Berlin/1', 'berlin/1', 'bErlin'],
    'sign': ['~is', 'is', '~', '~~is', '-', '.', '-.', '+', '--1', '1-', '1.2.3', '-a', '.a', '1e5', '1_000', 'nan',
             'inf', '0x1', '+1', '1,5', '1/2', '-/1', '1-2', '.-', 'None', 'True', '..', '-.-'],
    'url': ['http://a.b/c', 'http://a.b/c_(d)', 'https://x.org/?q=1&b=(2)', 'x(y)z', 'f()', 'http://a.b', 'a(b(c)d)e',
            'https://en.wikipedia.org/wiki/Mercury_(planet)', 'http://a.b/c/d'],
    'num': [0, 1, -1, 7, 10, 70, 7.0, 1.0, 1.5, -0.5, 1e-7, 1e22, 10 ** 20, 0.1 + 0.2, 5e-324, 1.7e308, -1e-5, 2016,
            -7, 3.14159, 123456789012345678, 1e16, 100000.0, -1e300,
            0.0, -0.0],
    'long': ['x' * 300, 'x' * 300 + 'y', 'x' * 300 + '/1', 'x' * 255, 'x' * 256, 'x/' + 'n' * 300, 'y' * 1200, '~' + 'x' * 300,
             'http://a.b/' + 'z' * 500, 10 ** 300, u'\u65e5' * 300],
    'special': ['a b'.replace(' ', '-'), ',', ',x', '#', '&', '=', '<', '>', '|', ':', ';', '/', '//', '/1', 'a//1', '\\n',
                '\x7f', '\x02', 'a\x00', 'a\x00b', '\x00', 'a', 'ab'],
}

# longer than the columns of MySQL
GIANTS = ['x' * 5000, 'x' * 5000 + 'y', 'x' * 5000 + '/1', 'w' * 20001, 'w' * 20001 + 'v', u'\u65e5' * 4097]

CONNECTORS = ['is/1', 'src/1', 'type_of/1', '~is/1', '+', 'of']


def atoms(rng, n=None):
    """A small pool of atoms, drawn from one or a few themes, so that they meet in edges again and again."""
    n = n or rng.randint(3, 9)
    themes = rng.sample(sorted(THEMES), rng.choice([1, 1, 2, 3]))
    pool = []
    for _ in range(n):
        theme = THEMES[rng.choice(themes)]
        a = rng.choice(theme)
        if not any(type(a) is type(b) and a == b for b in pool):
            pool.append(a)
    if rng.random() < 0.5:
        pool.append(rng.choice(CONNECTORS))
    if rng.random() < 0.15:
        pool.append(random_symbol(rng))
    return pool


def random_symbol(rng):
    """Any symbol of the domain: no whitespace, balanced parentheses, does not start with one, not a number."""
    while True:
        n = rng.choice([1, 1, 2, 3, 5, 8, 13, 40, 300])
        s = ''
        for _ in range(n):
            r = rng.random()
            if r < 0.6:
                s += chr(rng.randint(33, 126))
            elif r < 0.8:
                s += rng.choice('ab1/~.-_')
            elif r < 0.9:
                s += chr(rng.choice([rng.randint(0xa1, 0x24f), rng.randint(0x4e00, 0x4e20), 0x1f600, 0x10fffe, 0xd7ff]))
            else:
                s += rng.choice(['(x)', '()', '%', "'"])
        if valid_symbol(s):
            return s


def valid_symbol(s):
    if not s or s[0] == '(' or any(c.isspace() for c in s):
        return False
    depth = 0
    for c in s:
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth < 0:
                return False
    if depth:
        return False
    return not looks_like_number(s)


def looks_like_number(s):
    """Does the string form of an atom denote a number: -?digits, with at most one point, and at least a digit."""
    t = s[1:] if s[:1] == '-' else s
    return t.count('.') <= 1 and any(c in '0123456789' for c in t) and all(c in '0123456789.' for c in t)


def edge(rng, pool, subs, max_arity=4, nest=0.25, listy=0.15, unary=True):
    """An edge over a pool of atoms and sub-edges."""
    r = rng.random()
    if r < 0.08 and unary:
        n = 1
    elif r < 0.45:
        n = 2
    elif r < 0.85:
        n = min(3, max_arity)
    else:
        n = rng.randint(2, max_arity)
    elems = []
    for _ in range(n):
        if subs and rng.random() < nest:
            elems.append(rng.choice(subs))
        else:
            elems.append(rng.choice(pool))
    return tuple(elems)


def as_lists(rng, e, p=0.3):
    """Some of the tuples become lists: the API takes both."""
    if isinstance(e, (tuple, list)):
        x = [as_lists(rng, i, p) for i in e]
        return x if rng.random() < p else tuple(x)
    return e


def deep_tuple(e):
    if isinstance(e, (tuple, list)):
        return tuple(deep_tuple(i) for i in e)
    return e


def universe(rng, n_edges=None, max_arity=4, unary=True, depth=2, nest=None):
    """A pool of atoms and of edges over them, that share elements, nest and permute each other."""
    pool = atoms(rng)
    n = n_edges or rng.randint(3, 10)
    nest = rng.choice([0, 0.15, 0.35]) if nest is None else nest
    edges = []
    levels = {}
    for _ in range(n):
        subs = [e for e in edges if levels[e] < depth] if rng.random() < 0.8 else []
        e = edge(rng, pool, subs, max_arity, nest, unary=unary)
        r = rng.random()
        if edges and r < 0.25:
            # a permutation, or a variation, of an edge that is already there
            base = list(rng.choice(edges))
            if rng.random() < 0.5:
                rng.shuffle(base)
            else:
                base[rng.randrange(len(base))] = rng.choice(pool)
            e = tuple(base)
        elif edges and r < 0.3:
            e = rng.choice(edges) + (rng.choice(pool),)
            e = e[:max_arity]
        elif edges and r < 0.4:
            e = twin(rng, rng.choice(edges))
        levels[e] = 1 + max([levels.get(x, 1) for x in e if isinstance(x, tuple)] or [0])
        if not any(repr(e) == repr(x) for x in edges):
            edges.append(e)
    return pool, edges


def twin(rng, e):
    """An edge that Python takes for the same, because its numbers are equal, if there are some."""
    if isinstance(e, tuple):
        return tuple(twin(rng, x) for x in e)
    if isinstance(e, int) and abs(e) < 2 ** 50 and rng.random() < 0.6:
        return float(e)
    if isinstance(e, float) and e.is_integer() and abs(e) < 2 ** 50 and rng.random() < 0.6:
        return int(e)
    return e


for _symbols in THEMES.values():
    for _s in _symbols:
        assert not isinstance(_s, str) or valid_symbol(_s), _s
