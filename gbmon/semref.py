"""What the stages of the extractor have to make of a parse: an executable specification, on immutable trees.

A tree is a Leaf (a word of the parse) or a Node (children, and whether it is a compound)."""

NEST = frozenset(['aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod'])
FIRST = frozenset(['pcomp', 'compound'])
COMPOUND_DEPS = frozenset(['pobj', 'compound', 'dobj', 'nsubj'])
REL_POS = frozenset(['VERB', 'ADV', 'ADP', 'PART'])


class Word(object):
    """An annotated word of a sentence."""
    __slots__ = ['word', 'lemma', 'pos', 'dep', 'ent', 'left', 'right', 'head', 'i', 'shape', 'prob']

    def __init__(self, word, pos, dep, lemma=None, ent=''):
        self.word = word
        self.pos = pos
        self.dep = dep
        self.lemma = word if lemma is None else lemma
        self.ent = ent
        self.left = []
        self.right = []
        self.head = None
        self.i = None

    @property
    def low(self):
        return self.word.lower().strip()

    def identity(self):
        return self.low, self.pos, self.dep

    def show(self):
        return '%s/%s/%s%s%s' % (self.word, self.pos, self.dep, '/' + self.ent if self.ent else '',
                                 '/' + self.lemma if self.lemma != self.word else '')


def subtree(w):
    res = []
    for c in w.left:
        res += subtree(c)
    res.append(w)
    for c in w.right:
        res += subtree(c)
    return res


class Leaf(object):
    __slots__ = ['w']
    compound = False

    def __init__(self, w):
        self.w = w

    def leaves(self):
        return [self.w]

    def __str__(self):
        return self.w.low


class Node(object):
    __slots__ = ['kids', 'compound']

    def __init__(self, kids, compound=False):
        self.kids = tuple(kids)
        self.compound = compound

    def leaves(self):
        return [w for k in self.kids for w in k.leaves()]

    def __str__(self):
        kids = [str(k) for k in self.kids]
        return '_'.join(kids) if self.compound else '(%s)' % ' '.join(kids)


def is_leaf(t):
    return isinstance(t, Leaf)


def terminal(t):
    return is_leaf(t) or t.compound


def as_compound(t):
    """The whole of t becomes one compound."""
    if is_leaf(t):
        return t
    return Node([as_compound(k) for k in t.kids], True)


def structure(t):
    """Trees are compared by the words in them, and how they nest."""
    if is_leaf(t):
        return t.w.identity()
    return tuple(structure(k) for k in t.kids) + (None,)


# alpha

class Open(object):
    """A part of the tree that still grows."""

    def __init__(self, w):
        self.kids = [Leaf(w)]
        self.bare = True
        self.layers = []

    def has_verb(self):
        return any(w.pos == 'VERB' for k in self.kids for w in k.leaves())

    def close(self):
        kids = self.kids
        # the first word that was nested is the outermost
        for rel, rest in reversed(self.layers):
            kids = [rel, kids[0] if len(kids) == 1 else Node(kids)] + rest
            self.bare = False
        return kids[0] if self.bare else Node(kids)


def alpha_part(w, root=None):
    part = Open(w)
    target = part if root is None else root
    for side, c in [('l', c) for c in w.left] + [('r', c) for c in w.right]:
        if c.dep == '' or c.dep == 'punct':
            continue
        if c.dep in NEST or (c.dep == 'prep' and not part.has_verb()):
            sub = alpha_part(c, target)
            target.layers.append((sub, []) if is_leaf(sub) else (sub.kids[0], list(sub.kids[1:])))
            continue
        sub = alpha_part(c)
        part.bare = False
        if c.dep in FIRST:
            first = part.kids[0]
            inner = [first] if terminal(first) else list(first.kids)
            part.kids[0] = Node([sub] + inner if side == 'l' else inner + [sub])
        else:
            part.kids.append(sub)
    return part.close()


def unnest(t):
    if is_leaf(t):
        return t
    kids = [unnest(k) for k in t.kids]
    if len(kids) == 1 and not is_leaf(kids[0]):
        return kids[0]
    return Node(kids)


def alpha(root):
    return unnest(alpha_part(root))


# beta

def by_entity(t):
    return all(is_leaf(k) for k in t.kids) and bool(t.kids[0].w.ent) and len(set(k.w.ent for k in t.kids)) == 1


def by_deps(t):
    return all(w.dep in COMPOUND_DEPS for w in t.leaves())


def beta(t):
    if is_leaf(t):
        return t
    return Node([beta(k) for k in t.kids], by_entity(t) or by_deps(t))


# gamma

def is_rel(t):
    return all(w.pos in REL_POS for w in t.leaves())


def combine(first, second):
    head = second.kids[0]
    if not is_leaf(head) and not head.compound:
        return Node((combine(first, head),) + second.kids[1:], second.compound)
    return Node((as_compound(Node([first, head])),) + second.kids[1:], second.compound)


def gamma(t):
    if is_leaf(t):
        return t
    t = Node([gamma(k) for k in t.kids], t.compound)
    if all(is_leaf(k) for k in t.kids) and is_rel(t):
        return Node(t.kids, True)
    if len(t.kids) == 2:
        first, second = t.kids
        if is_leaf(first) and first.w.pos == 'DET' and first.w.lemma in ('the', 'a', 'an'):
            return second
        if not is_leaf(second) and not second.compound and is_rel(first) and is_rel(second.kids[0]):
            return combine(first, second)
    return t


# delta

def arity(t):
    return 1 if terminal(t) else len(t.kids)


def flat(t):
    """A relationship without nesting, except for compounds."""
    if is_leaf(t):
        return t
    kids = []
    for k in t.kids:
        k = flat(k)
        kids += [k] if terminal(k) else list(k.kids)
    return Node(kids, t.compound)


def candidates(t):
    if is_leaf(t):
        return [t]
    return grow(t.kids[0], (), t.kids[1:])


def grow(rel, params, todo):
    """Ways to make one relationship out of a relationship and those in its parameters."""
    if not todo:
        return [Node((flat(rel),) + params)]
    res = []
    for c in candidates(todo[0]):
        if not is_leaf(c) and is_rel(c.kids[0]):
            right = c.kids[0]
            more = params + c.kids[1:]
            # before
            if not params:
                res += grow(Node([right, rel]), more, todo[1:])
            # together
            if terminal(rel) and terminal(right):
                res += grow(as_compound(Node([rel, right])), more, todo[1:])
            else:
                # together, where they touch
                la, lb = ((), rel) if terminal(rel) else (rel.kids[:-1], rel.kids[-1])
                ra, rb = (right, ()) if terminal(right) else (right.kids[0], right.kids[1:])
                res += grow(Node(la + (as_compound(Node([lb, ra])),) + rb), more, todo[1:])
            # after
            if terminal(right):
                res += grow(Node([rel, right] if terminal(rel) else rel.kids + (right,)), more, todo[1:])
        # as it is
        res += grow(rel, params + (todo[0],), todo[1:])
    return res


def under(t, part, param):
    """Somewhere in t, is param a parameter of a relationship that shares a word with part?"""
    if arity(t) < 2:
        return False
    words = set(w.identity() for w in part.leaves())
    if any(w.identity() in words for w in t.kids[0].leaves()):
        if any(structure(k) == structure(param) for k in t.kids[1:]):
            return True
    return any(under(k, part, param) for k in t.kids[1:])


def fit(t, original):
    res = 0
    if not is_leaf(t) and is_rel(t.kids[0]):
        rel = t.kids[0]
        n = len(t.kids)
        if (arity(rel) == 1 and n == 2) or arity(rel) == n - 2:
            res += 1000
        if not terminal(rel):
            for i in range(min(arity(rel), n - 2)):
                part = rel.kids[i]
                if i == 0 and under(original, part, t.kids[1]):
                    res += 100
                if under(original, part, t.kids[i + 2]):
                    res += 100
    return res


def delta(t):
    if terminal(t) or not is_rel(t.kids[0]):
        return t
    best, best_fit = None, -1
    for c in candidates(t):
        f = fit(c, t)
        if f > best_fit:
            best, best_fit = c, f
    return best


# epsilon

def valid(text):
    """A text that can be the root of a symbol."""
    return ''.join('_' if c.isspace() or c in '/()' else c for c in text.lower())


def epsilon(t):
    if is_leaf(t):
        return '%s/1' % valid(t.w.low)
    if t.compound:
        return '%s/?' % valid('_'.join(w.low for w in t.leaves()))
    return tuple(epsilon(k) for k in t.kids)


def stages(root):
    a = alpha(root)
    b = beta(a)
    g = gamma(b)
    d = delta(g)
    return a, b, g, d, epsilon(d)


def nested_first(t):
    """Is there a relationship (or any other first element) with further nesting inside?"""
    if is_leaf(t):
        return False
    first = t.kids[0]
    if not terminal(first) and any(not terminal(k) for k in first.kids):
        return True
    return any(nested_first(k) for k in t.kids)


def norm(t):
    """First elements without nesting."""
    if is_leaf(t):
        return t
    return Node((flat(norm(t.kids[0])),) + tuple(norm(k) for k in t.kids[1:]), t.compound)
