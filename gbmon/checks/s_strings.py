"""S01: string form of edges. S02: tokens. S03: negation. S04: anatomy of symbols. S05: text to symbols and back.
S06: hashes and new meanings."""

import copy
import itertools
import os
import re
import subprocess
import sys

import gbmon.gen as gen
from gbmon.threads import together
from gbmon.core import REPO, Check, HarnessError, Violation, register, scratch
from gbmon.model import is_deep_tuple, key

WS = ['\t', '\n', '  ', ' \n ', '\r\n', u'\u00a0', u'\u2003', '\x0b']


def same(a, b):
    """Same value and same types, all the way down."""
    return key(a) == key(b)


def random_float(rng):
    r = rng.random()
    if r < 0.3:
        x = rng.uniform(-1, 1) * 10 ** rng.randint(-320, 308)
    elif r < 0.5:
        x = float(rng.randint(-10 ** 6, 10 ** 6))
    elif r < 0.7:
        x = rng.choice([0.0, 1e16, 1e-4, 1e-5, 9999999999999998.0, 1e17, 2.0 ** 53, 5e-324, 2.2250738585072014e-308,
                        1.7976931348623157e308, 0.1, 1 / 3.0, 1e22, 1e23, 123456.789e-10]) * rng.choice([1, -1])
    else:
        x = rng.gauss(0, 1)
    return x


def random_int(rng):
    return rng.choice([rng.randint(-10, 10), rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 40, 10 ** 40)])


def atom(rng, pool):
    r = rng.random()
    if r < 0.65:
        return rng.choice(pool)
    if r < 0.75:
        return random_float(rng)
    if r < 0.85:
        return random_int(rng)
    return gen.random_symbol(rng)


def any_edge(rng, pool, depth):
    """Usually a small one, sometimes a very long one or one that is nested very deep."""
    r = rng.random()
    if r < 0.01:
        return tuple(deep_edge(rng, pool, 1) if rng.random() < 0.1 else atom(rng, pool) for _ in range(rng.choice([50, 300])))
    if r < 0.03:
        e = deep_edge(rng, pool, 1)
        for _ in range(rng.choice([8, 30, 120])):
            e = [atom(rng, pool) for _ in range(rng.choice([0, 1, 1, 2]))] + [e]
            rng.shuffle(e)
            e = tuple(e)
        return e
    return deep_edge(rng, pool, depth)


def deep_edge(rng, pool, depth):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 6])
    return tuple(deep_edge(rng, pool, depth - 1) if depth > 0 and rng.random() < 0.3 else atom(rng, pool)
                 for _ in range(n))


def wild_pool(rng):
    theme = rng.choice(sorted(gen.THEMES))
    if rng.random() < 0.01:
        return gen.GIANTS + gen.THEMES['plain']
    return gen.THEMES[theme] + rng.sample(gen.THEMES[rng.choice(sorted(gen.THEMES))], 3)


S01 = register(Check(
    'S01', 'Edges over hostile atoms (symbols with balanced parentheses, quotes, signs, unicode; integers of any size; '
    'finite floats of any magnitude) nested up to 120 deep, and of up to 300 elements, are written with edge2str and read back with str2edge, also '
    'from lists, with other whitespace and without the outer parentheses: values and types have to come back the '
    'same. An independent printer and a reader written for this check say what the text has to be. '
    'distinct_nontrivial counts distinct edges.',
    assumptions=['symbols are non-empty, without whitespace, with balanced parentheses, not starting with one and not '
                 'looking like a number; floats are finite'],
    need=['round_trips', 'single_element_edges', 'exponent_floats', 'nested_edges', 'whitespace_variants', 'pairs']))


def check_float_text(x, s):
    if not re.match(r'^-?[0-9]+\.[0-9]+$', s):
        raise Violation('%r is written as %r, which does not read as a float' % (x, s))
    if repr(float(s)) != repr(x):
        raise Violation('%r is written as %r' % (x, s))
    if 'e' not in repr(x) and s != repr(x):
        raise Violation('%r is written as %r' % (x, s))


def check_text(e, s):
    """Is s the text of e? Consumes it, and returns what is left."""
    if isinstance(e, (tuple, list)):
        if s[:1] != '(':
            raise Violation('%r: a parenthesis is missing at %r' % (e, s))
        s = s[1:]
        for i, x in enumerate(e):
            if i:
                if s[:1] != ' ':
                    raise Violation('%r: a space is missing at %r' % (e, s))
                s = s[1:]
            s = check_text(x, s)
        if s[:1] != ')':
            raise Violation('%r: a parenthesis is missing at %r' % (e, s))
        return s[1:]
    if isinstance(e, float):
        m = re.match(r'[^ ()]*', s).group(0)
        check_float_text(e, m)
        return s[len(m):]
    t = str(e)
    if not s.startswith(t):
        raise Violation('%r is not at %r' % (t, s))
    return s[len(t):]


def stretch(rng, s, e):
    """The same edge with other whitespace between its parts."""
    if isinstance(e, (tuple, list)):
        sp = lambda: rng.choice(['', ' ', rng.choice(WS)])
        return '(' + sp() + ' '.join('%s%s' % (stretch(rng, s, x), rng.choice(['', rng.choice(WS)])) for x in e) \
            + sp() + ')'
    return s(e)


@S01.kind('round_trip', 400, 20000, 'edges written and read back')
def s01(rng, obs, params):
    import gb.hypergraph.edge as ed
    pool = wild_pool(rng)
    texts = {}
    for _ in range(40):
        e = any_edge(rng, pool, rng.randint(0, 6))
        obs.seen(e)
        obs.log('edge', e)
        s = ed.edge2str(e)
        if not isinstance(s, str):
            raise Violation('edge2str(%r) is %r' % (e, s))
        rest = check_text(e, s)
        if rest:
            raise Violation('edge2str(%r): %r is left over' % (e, rest))
        back = ed.str2edge(s)
        if not is_deep_tuple(back) or not same(back, e):
            raise Violation('%r is read back as %r' % (e, back), s)
        obs.count('round_trips')
        if len(e) == 1:
            obs.count('single_element_edges')
        if 'e' in ''.join(repr(x) for x in e if isinstance(x, float)):
            obs.count('exponent_floats')
        if any(isinstance(x, tuple) for x in e):
            obs.count('nested_edges')
        if ed.edge2str(gen.as_lists(rng, e, 0.7)) != s:
            raise Violation('edge2str of %r depends on lists and tuples' % (e,))
        inner = ed.nodes2str(e)
        if '(%s)' % inner != s:
            raise Violation('nodes2str(%r) is %r' % (e, inner))
        if len(e) > 1:
            back = ed.str2edge(inner)
            if not same(back, e):
                raise Violation('%r is read back as %r without the outer parentheses' % (e, back), inner)
        loose = stretch(rng, ed.edge2str, e)
        back = ed.str2edge(loose)
        if not same(back, e):
            raise Violation('%r is read back as %r with other whitespace' % (e, back), loose)
        obs.count('whitespace_variants')
        # different edges have different texts
        other = texts.setdefault(s, e)
        if not same(other, e):
            raise Violation('%r and %r are both written as %r' % (e, other, s))
        for a in e:
            if not isinstance(a, tuple):
                t = ed.edge2str(a)
                back = ed.str2edge(t)
                if isinstance(back, (tuple, list)) or not same(back, a):
                    raise Violation('the atom %r is read back as %r' % (a, back), t)
    obs.count('pairs', len(texts))
    obs.sample = obs.trace[0]


@S01.kind('giants', 4, 60, 'edges of thousands of elements, and symbols of up to 70000 characters')
def s01_giants(rng, obs, params):
    import gb.hypergraph.edge as ed
    pool = wild_pool(rng)
    for e in giant_edges(rng, pool):
        obs.seen((len(e), e[0]))
        s = ed.edge2str(e)
        if s != plain_text(ed, e):
            raise Violation('the text of an edge of %d elements is wrong' % len(e))
        for t in (s, s[1:-1]):
            back = ed.str2edge(t)
            if not is_deep_tuple(back) or not same(back, e):
                raise Violation('an edge of %d elements, %d characters, is read back as one of %d' % (
                    len(e), len(s), len(back)))
        obs.count('round_trips')
        obs.count('pairs')


def giant_edges(rng, pool):
    yield tuple(atom(rng, pool) for _ in range(rng.randint(1100, 2500)))
    yield tuple((atom(rng, pool), (atom(rng, pool),)) for _ in range(rng.randint(1030, 1500)))
    yield (atom(rng, pool), 'x' * rng.choice([1025, 5000, 70000]), (u'\u00e9_' * 20000, atom(rng, pool)), 'end/1')
    # one part that is long, between others
    yield ('a', tuple(atom(rng, pool) for _ in range(rng.randint(300, 1500))), 'b', 1, ('c', ('d', 2.5)))


def plain_text(ed, e):
    return '(%s)' % ' '.join(plain_text(ed, x) if isinstance(x, tuple) else ed.edge2str(x) for x in e)


@S01.kind('floats', 60, 2000, 'floats of every magnitude')
def s01_floats(rng, obs, params):
    import gb.hypergraph.edge as ed
    import struct
    for _ in range(200):
        if rng.random() < 0.5:
            x = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
            if x != x or x in (float('inf'), float('-inf')):
                continue
        else:
            x = random_float(rng)
        obs.seen(x)
        s = ed.edge2str(x)
        check_float_text(x, s)
        back = ed.str2edge(ed.edge2str(('a', x)))
        if not same(back, ('a', x)):
            raise Violation('%r is read back as %r' % (('a', x), back))
        if 'e' in repr(x):
            obs.count('exponent_floats')
        obs.count('round_trips')


S02 = register(Check(
    'S02', 'Tokens: every string of up to 5 characters over an alphabet of digits, signs, points and letters (and '
    'random longer ones) has to be taken for an integer, a float or a symbol as a regular expression says, with its '
    'value. Texts of edges with random nesting and whitespace have to be split at the top level as a character-wise '
    'reader says. distinct_nontrivial counts distinct tokens and texts.',
    need=['tokens', 'integers', 'floats', 'symbols', 'splits', 'nested_splits']))

INT = re.compile(r'^-?[0-9]+$')
DBL = re.compile(r'^-?(?:[0-9]+\.[0-9]*|\.[0-9]+)$')


def check_token(ed, obs, t):
    obs.count('tokens')
    kind = ed.token_type(t)
    T = ed.TokenType
    if INT.match(t) and not t.endswith('\n'):
        want, value = T.INTEGER, int(t)
        obs.count('integers')
    elif DBL.match(t) and not t.endswith('\n'):
        want, value = T.DOUBLE, float(t)
        obs.count('floats')
    else:
        want, value = T.STRING, t
        obs.count('symbols')
    if kind != want:
        raise Violation('token_type(%r) is %r, instead of %r' % (t, kind, want))
    if t[:1] != '(':
        got = ed.parsed_token(t)
        if type(got) is not type(value) or repr(got) != repr(value):
            raise Violation('parsed_token(%r) is %r' % (t, got))


@S02.kind('all_short_tokens', 36, 36, 'every token of up to 4 (thorough: 5) characters over an alphabet')
def s02_all(rng, obs, params):
    import gb.hypergraph.edge as ed
    alphabet = "019.-+ea~/_x"
    depth = 4 if params['tier'] == 'quick' else 5
    n = 0
    for size in range(1, depth + 1):
        for t in itertools.product(alphabet, repeat=size):
            n += 1
            if n % params['n'] != params['i']:
                continue
            check_token(ed, obs, ''.join(t))
    obs.seen(params['i'])


@S02.kind('tokens', 60, 3000, 'random tokens')
def s02_tokens(rng, obs, params):
    import gb.hypergraph.edge as ed
    for _ in range(200):
        r = rng.random()
        if r < 0.5:
            t = ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 30)))
            if rng.random() < 0.5:
                k = rng.randint(0, len(t))
                t = t[:k] + '.' + t[k:]
            if rng.random() < 0.3:
                t = '-' + t
            if rng.random() < 0.3:
                k = rng.randint(0, len(t))
                t = t[:k] + rng.choice(['.', '-', 'e', ',', '_', '+', u'\u0663', u'\u00b2', 'x', '/', '~', '\x00']) + t[k:]
        else:
            t = gen.random_symbol(rng)
        obs.seen(t)
        check_token(ed, obs, t)


def reference_split(s):
    """Top level tokens, character by character."""
    s = s.strip()
    if reference_outer(s):
        s = s[1:-1]
    toks, cur, depth = [], '', 0
    for c in s:
        if c.isspace() and depth == 0:
            if cur:
                toks.append(cur)
            cur = ''
        else:
            depth += (c == '(') - (c == ')')
            cur += c
    if cur:
        toks.append(cur)
    return toks


def reference_outer(s):
    if s[:1] != '(':
        return False
    depth = 0
    for i, c in enumerate(s):
        depth += (c == '(') - (c == ')')
        if depth == 0:
            return i == len(s) - 1
    return False


@S02.kind('splits', 300, 10000, 'texts of edges, split')
def s02_splits(rng, obs, params):
    import gb.hypergraph.edge as ed
    pool = wild_pool(rng)
    for _ in range(30):
        e = any_edge(rng, pool, rng.randint(0, 4))
        s = stretch(rng, ed.edge2str, e)
        if rng.random() < 0.4 and len(e) > 1:
            s = s[1:-1].strip()
        obs.seen(s)
        outer = ed.has_outer_pars(s)
        if bool(outer) != reference_outer(s):
            raise Violation('has_outer_pars(%r) is %r' % (s, outer))
        got = ed.split_edge_str(s)
        want = reference_split(s)
        if [' '.join(t.split()) for t in got] != [' '.join(t.split()) for t in want]:
            raise Violation('%r is split into %r, instead of %r' % (s, got, want))
        if len(got) != len(e):
            raise Violation('%r is split into %r' % (s, got))
        obs.count('splits')
        if any(t[0] == '(' for t in got):
            obs.count('nested_splits')
    obs.sample = s


@S02.kind('giants', 4, 60, 'texts of edges of thousands of elements, split')
def s02_giants(rng, obs, params):
    import gb.hypergraph.edge as ed
    pool = wild_pool(rng)
    for e in giant_edges(rng, pool):
        toks = [ed.edge2str(x) for x in e]
        for s in ('(%s)' % ' '.join(toks), ' '.join(toks), '(%s )' % ' \n '.join(toks)):
            obs.seen((len(e), len(s)))
            if bool(ed.has_outer_pars(s)) != (s[0] == '(' and reference_outer(s)):
                raise Violation('has_outer_pars of a text of %d characters is %r' % (len(s), ed.has_outer_pars(s)))
            got = ed.split_edge_str(s)
            if list(got) != toks:
                raise Violation('a text of %d characters with %d tokens is split into %d' % (len(s), len(toks), len(got)))
            obs.count('splits')
    for n in (400, 1500, 4400):
        # integers can be long (Python reads up to 4300 digits)
        for t in ('9' * min(n, 4200), '-' + '1' * min(n, 4200), '0.' + '3' * n, '.' + '7' * n, 'a' * n, '1' * n + 'x', '-' * n):
            check_token(ed, obs, t)


S03 = register(Check(
    'S03', 'Negation of symbols and edges: it has to toggle is_negative, undo itself, keep everything but the first '
    'element and leave its argument alone; a negated edge has to be another edge for a hypergraph and to keep its '
    'text form. distinct_nontrivial counts distinct edges.',
    assumptions=['symbols do not start with ~~ and are not ~', 'what an edge begins with, at the bottom, is a symbol'], need=['symbols', 'edges', 'stored', 'nested', 'lists']))


def negatable(x):
    return isinstance(x, str) and x != '~' and not x.startswith('~~')


@S03.kind('negation', 200, 8000, 'symbols and edges negated')
def s03(rng, obs, params):
    import gb.hypergraph.edge as ed
    import gb.hypergraph.symbol as sym
    from gb.hypergraph.hypergraph import HyperGraph
    from gbmon.core import scratch
    pool = wild_pool(rng)
    edges = []
    for _ in range(40):
        s = rng.choice([x for x in pool if negatable(x)] or ['is']) if rng.random() < 0.6 else gen.random_symbol(rng)
        if not negatable(s):
            continue
        if rng.random() < 0.3 and s[0] != '~':
            s = '~' + s
        if rng.random() < 0.15:
            # what looks like a tilde, or could be skipped before one
            s = rng.choice([' ', u'\u2003', '\t', u'\u02dc', u'\u223c', u'\uff5e', u'\u0303', '-', '!', u'\u00ac', 'not ',
                            '\\', "'", '(', u'\ufeff', u'\u200b']) + s
        n = sym.negative(s)
        if bool(sym.is_negative(s)) != (s[0] == '~'):
            raise Violation('is_negative(%r) is %r' % (s, sym.is_negative(s)))
        if n != (s[1:] if s[0] == '~' else '~' + s) or not isinstance(n, str):
            raise Violation('negative(%r) is %r' % (s, n))
        if bool(sym.is_negative(n)) == bool(sym.is_negative(s)) or sym.negative(n) != s:
            raise Violation('negation of %r does not undo itself' % (s,))
        obs.count('symbols')
        e = (s,) + (deep_edge(rng, pool, 2) if rng.random() < 0.95 else any_edge(rng, pool, 2))
        if rng.random() < 0.01:
            e += tuple(atom(rng, pool) for _ in range(rng.choice([100, 1200])))
        before = copy.deepcopy(e)
        m = ed.negative(e)
        obs.seen(e)
        obs.log('edge', e)
        if not same(e, before):
            raise Violation('negative() changed its argument %r' % (before,))
        if not isinstance(m, tuple) or not same(m, (n,) + e[1:]):
            raise Violation('negative(%r) is %r' % (e, m))
        if bool(ed.is_negative(e)) != (s[0] == '~') or bool(ed.is_negative(m)) == bool(ed.is_negative(e)):
            raise Violation('is_negative of %r or %r' % (e, m))
        if not same(ed.negative(m), e):
            raise Violation('negation of %r does not undo itself' % (e,))
        if gen.valid_symbol(n) and gen.valid_symbol(s):
            if not same(ed.str2edge(ed.edge2str(m)), m):
                raise Violation('%r does not keep its text form' % (m,))
            edges.append((e, m))
        obs.count('edges')
    with scratch() as d:
        hg = HyperGraph({'backend': 'sqlite', 'db': d + '/h.db'})
        for e, m in [x for x in edges if len(x[0]) <= 4][:6]:
            if hg.exists(e):
                continue
            was = hg.exists(m)
            hg.add([e])
            if not hg.exists(e) or hg.exists(m) != was:
                raise Violation('adding %r: exists is %r, and that of its negative went from %r to %r' % (
                    e, hg.exists(e), was, hg.exists(m)))
            obs.count('stored')
    obs.sample = obs.trace[0] if obs.trace else None


def listed(x, rng):
    """The same edge, with lists in the place of some tuples."""
    if not isinstance(x, tuple):
        return x
    x = [listed(y, rng) for y in x]
    return x if rng.random() < 0.5 else tuple(x)


@S03.kind('nested', 60, 1500, 'edges that begin with edges, and edges that are lists, negated')
def s03_nested(rng, obs, params):
    import gb.hypergraph.edge as ed
    pool = wild_pool(rng)
    symbols = [x for x in pool if negatable(x)] or ['is']
    for _ in range(30):
        s = rng.choice(symbols)
        if rng.random() < 0.4 and s[0] != '~':
            s = '~' + s
        n = s[1:] if s[0] == '~' else '~' + s
        e, want = s, n
        depth = rng.choice([1, 2, 2, 3, 4, 12])
        for _ in range(depth):
            rest = any_edge(rng, pool, 2)[:rng.choice([0, 1, 2, 5])]
            e, want = (e,) + rest, (want,) + rest
        given = listed(e, rng)
        before = copy.deepcopy(given)
        obs.log('edge', given)
        obs.seen(e)
        m = ed.negative(given)
        if given != before or repr(given) != repr(before):
            raise Violation('negative() changed its argument %r' % (before,))
        if not isinstance(m, tuple) or not same(m, want):
            raise Violation('negative(%r) is %r, expected %r' % (given, m, want))
        if bool(ed.is_negative(given)) != (s[0] == '~') or bool(ed.is_negative(m)) == (s[0] == '~'):
            raise Violation('is_negative of %r is %r, and of %r it is %r' % (
                given, ed.is_negative(given), m, ed.is_negative(m)))
        if not same(ed.negative(m), e):
            raise Violation('negation of %r does not undo itself' % (given,))
        obs.count('nested' if depth > 1 else 'edges')
        obs.count('lists', isinstance(given, list))
    obs.sample = obs.trace[0]


S04 = register(Check(
    'S04', 'Symbols of every kind: type, parts, root, namespace and whether a symbol is a root have to agree with the '
    'text of the symbol, and building a symbol from its parts has to give it back. distinct_nontrivial counts '
    'distinct symbols.', need=['concepts', 'urls', 'integers', 'floats', 'edges', 'with_namespace']))


@S04.kind('anatomy', 200, 8000, 'symbols taken apart and put together')
def s04(rng, obs, params):
    import gb.hypergraph.symbol as sym
    T = sym.SymbolType
    if len(set([T.UNKNOWN, T.CONCEPT, T.EDGE, T.INTEGER, T.FLOAT, T.URL])) != 6:
        raise Violation('the types of symbols are not distinct')
    pool = wild_pool(rng)
    for _ in range(60):
        r = rng.random()
        if r < 0.45:
            s = rng.choice(pool)
        elif r < 0.65:
            s = gen.random_symbol(rng)
        elif r < 0.68:
            s = '/'.join(gen.random_symbol(rng).strip('/') for _ in range(rng.choice([4, 12, 40, 300])))
        elif r < 0.8:
            s = rng.choice(['http://', 'https://', 'http:/', 'https:/', 'HTTP://', 'xhttp://', 'http', 'https', 'ftp://',
                            'http:', '/http://', 'httpss://', 'http//:']) + gen.random_symbol(rng)
        elif r < 0.9:
            s = deep_edge(rng, pool, 1)
            s = list(s) if rng.random() < 0.4 else s
        else:
            s = rng.choice([random_int(rng), random_float(rng)])
        obs.seen((type(s), s))
        if isinstance(s, (tuple, list)):
            kind, ps = T.EDGE, [s]
            obs.count('edges')
        elif isinstance(s, int):
            kind, ps = T.INTEGER, [s]
            obs.count('integers')
        elif isinstance(s, float):
            kind, ps = T.FLOAT, [s]
            obs.count('floats')
        elif re.match(r'https?://', s):
            kind, ps = T.URL, [s]
            obs.count('urls')
        else:
            kind, ps = T.CONCEPT, s.split('/')
            obs.count('concepts')
        if sym.sym_type(s) != kind:
            raise Violation('sym_type(%r) is %r, instead of %r' % (s, sym.sym_type(s), kind))
        got = list(sym.parts(s))
        if got != ps or [type(x) for x in got] != [type(x) for x in ps]:
            raise Violation('parts(%r) is %r' % (s, got))
        if sym.root(s) != ps[0] or sym.nspace(s) != (ps[1] if len(ps) > 1 else None):
            raise Violation('root and namespace of %r are %r and %r' % (s, sym.root(s), sym.nspace(s)))
        if bool(sym.is_root(s)) != (len(ps) == 1):
            raise Violation('is_root(%r) is %r' % (s, sym.is_root(s)))
        if kind == T.CONCEPT:
            if sym.build(ps) != s or sym.build(tuple(ps)) != s:
                raise Violation('build(%r) is %r' % (ps, sym.build(ps)))
            if not sym.is_root(sym.root(s)) or sym.nspace(sym.root(s)) is not None:
                raise Violation('the root of %r is not a root' % (s,))
            if len(ps) > 1:
                obs.count('with_namespace')
    for x in (None, b'abc', object()):
        if sym.sym_type(x) != T.UNKNOWN:
            raise Violation('sym_type(%r) is %r' % (x, sym.sym_type(x)))
    obs.sample = s


S05 = register(Check(
    'S05', 'Random text (words, spaces of every kind, slashes, parentheses, unicode, control characters) is made a '
    'symbol: it has to be a root, fit in the text of an edge, be lower case, keep every other character, not change '
    'when done again, and give the text back with spaces for what was replaced. distinct_nontrivial counts distinct '
    'texts.', assumptions=['the text is not empty and does not look like a number'], need=['texts', 'replaced']))

SPACES = [' ', '\t', '\n', '\r', '\x0b', '\x0c', u'\u00a0', u'\u2003', u'\u3000', u'\u2028', u'\u0085', '\x1c', '\x1f']


@S05.kind('texts', 200, 8000, 'texts made symbols')
def s05(rng, obs, params):
    import gb.hypergraph.edge as ed
    import gb.hypergraph.symbol as sym
    for _ in range(50):
        s = ''
        for _ in range(rng.choice([1, 2, 3, 8, 20] * 10 + [300, 2000] * 2 + [6000, 40000][:rng.random() < 0.2 and 2])):
            r = rng.random()
            if r < 0.5:
                s += rng.choice(['Graph', 'brain', 'Is', 'a', 'New York', u'S\u00e3o', u'\u0130', u'\u03a3', u'STRASSE',
                                 u'\u00df', '1', '-', '.', "'", '%', '~', 'http://', '_', '__'])
            elif r < 0.65:
                s += rng.choice(SPACES)
            elif r < 0.8:
                s += rng.choice('/()')
            else:
                s += chr(rng.choice([rng.randint(0, 127), rng.randint(128, 0x2fff), rng.randint(0x10000, 0x10fffe)]))
        obs.seen(s)
        low = s.lower()
        want = ''.join('_' if c.isspace() or c in '/()' else c for c in low)
        got = sym.str2symbol(s)
        if got != want:
            raise Violation('str2symbol(%r) is %r, instead of %r' % (s, got, want))
        obs.count('texts')
        if got != low:
            obs.count('replaced')
        if sym.str2symbol(got) != got:
            raise Violation('str2symbol(%r) is %r' % (got, sym.str2symbol(got)))
        if not sym.is_root(got) or sym.sym_type(got) != sym.SymbolType.CONCEPT:
            raise Violation('%r is not a root' % (got,))
        back = sym.symbol2str(got)
        if back != ''.join(' ' if c.isspace() or c in '/()_' else c for c in low):
            raise Violation('symbol2str(%r) is %r' % (got, back))
        if sym.symbol2str(sym.build([got, 'x_1'])) != back:
            raise Violation('symbol2str of %r depends on its namespace' % (got,))
        if not gen.looks_like_number(got):
            e = (got, (got, 'x'), got)
            if not same(ed.str2edge(ed.edge2str(e)), e):
                raise Violation('%r does not fit in the text of an edge' % (got,))
    for x in (rng.choice(gen.THEMES['num']), random_int(rng), random_float(rng)):
        if sym.symbol2str(x) != str(x):
            raise Violation('symbol2str(%r) is %r' % (x, sym.symbol2str(x)))
    for x in ('http://a_b.c/d_e', 'https://a_b/c'):
        if sym.symbol2str(x) != x:
            raise Violation('symbol2str(%r) is %r' % (x, sym.symbol2str(x)))
    obs.sample = s


S06 = register(Check(
    'S06', 'The hash of random texts has to be the 64 bit polynomial hash that namespaces of stored symbols were made '
    'with, the same each time; new meanings have to keep the root, begin the namespace with the prefix, never repeat '
    'and leave symbols that have a namespace as they are. distinct_nontrivial counts distinct texts and meanings.',
    need=['hashes', 'meanings', 'unchanged', 'makers']))


def reference_hash(s):
    h = 1125899906842597
    for c in s:
        h = 31 * (h + ord(c)) % 2 ** 64
    return '%x' % h


@S06.kind('hashes', 100, 3000, 'hashes and new meanings')
def s06(rng, obs, params):
    import gb.hypergraph.symbol as sym
    for _ in range(20):
        r = rng.random()
        if r < 0.2:
            s = rng.choice(['', 'a', 'b', 'aa', 'ab', 'ba', '\x00', '\x00\x00'])
        else:
            s = ''.join(chr(rng.choice([rng.randint(0, 127), rng.randint(0, 0x10ffff)]))
                        for _ in range(rng.choice([1, 2, 5, 20, 200] * 8 + [1001, 1030, 5000, 20000])))
        obs.seen(s)
        h = sym.hashed(s)
        if h != reference_hash(s) or h != sym.hashed(s):
            raise Violation('hashed(%r) is %r, instead of %r' % (s, h, reference_hash(s)))
        obs.count('hashes')
    got = set()
    n = 30
    for _ in range(n):
        h = sym.random_hash()
        if not re.match(r'^[0-9a-f]{1,16}$', h):
            raise Violation('random_hash() is %r' % (h,))
        got.add(h)
    if len(got) != n:
        raise Violation('random_hash repeats itself: %d different ones of %d' % (len(got), n))
    pool = [x for x in wild_pool(rng) if isinstance(x, str) and not re.match(r'https?://', x)] + ['plain']
    got = {}
    for _ in range(20):
        s = rng.choice(pool) if rng.random() < 0.7 else gen.random_symbol(rng)
        if re.match(r'https?://', s):
            continue
        prefix = rng.choice(['', 'p', 'wn.', 'x-', 'http', '1'])
        new = sym.new_meaning(s, prefix) if prefix or rng.random() < 0.5 else sym.new_meaning(s)
        if '/' in s:
            if new != s:
                raise Violation('new_meaning(%r) is %r' % (s, new))
            obs.count('unchanged')
            continue
        if sym.root(new) != s or len(sym.parts(new)) != 2:
            raise Violation('new_meaning(%r) is %r' % (s, new))
        ns = sym.nspace(new)
        if not ns.startswith(prefix) or not re.match(r'^[0-9a-f]{1,16}$', ns[len(prefix):]):
            raise Violation('new_meaning(%r, %r) is %r' % (s, prefix, new))
        h = ns[len(prefix):]
        if h in got:
            raise Violation('new_meaning repeats itself: %r and %r' % (got[h], new))
        got[h] = new
        if sym.new_meaning(new) != new:
            raise Violation('new_meaning changes %r, which has a namespace' % (new,))
        obs.count('meanings')
        obs.seen(new)
    obs.sample = sorted(got.values())[:3]


@S06.kind('many', 1, 12, 'thousands of new meanings made by one process')
def s06_many(rng, obs, params):
    import gb.hypergraph.symbol as sym
    root, n = rng.choice(['x', 'a_b', u'\u00e9']), [2400, 4400, 11000][params['i'] % 3] if params['tier'] == 'quick' else 66000
    got = set()
    for i in range(n):
        m = sym.new_meaning(root if i % 3 else '%s%d' % (root, i), 'p')
        h = sym.nspace(m)[1:]
        if h in got:
            raise Violation('new meaning %r has the hash of one of the %d made before' % (m, len(got)))
        got.add(h)
    obs.count('meanings', n)
    obs.seen((root, n))


MEANINGS = """
import os, sys
sys.path.insert(0, sys.argv[1])
import gb.hypergraph.symbol as sym
n = int(sys.argv[2])
pids = []
for i in range(2):
    # two that are forked, and this one
    pid = os.fork()
    if pid == 0:
        break
    pids.append(pid)
text = ''.join(sym.new_meaning('x', 'p') + chr(10) for _ in range(n))
with open(os.path.join(sys.argv[3], str(os.getpid())), 'w') as f:
    f.write(text)
if len(pids) < 2:
    os._exit(0)
for pid in pids:
    os.waitpid(pid, 0)
"""


@S06.kind('processes', 6, 60, 'new meanings made by several processes and threads at once')
def s06_processes(rng, obs, params):
    import gb.hypergraph.symbol as sym
    with scratch() as d:
        n, k = rng.choice([20, 100]), rng.choice([1, 2, 3])
        running = [subprocess.Popen([sys.executable, '-B', '-c', MEANINGS, REPO, str(n), d], stderr=subprocess.PIPE)
                   for _ in range(k)]
        got = [[], [], []]

        def maker(g):
            return lambda _: g.extend(sym.new_meaning('x', 'p') for _ in range(n))
        together(obs, [maker(g) for g in got])
        for p in running:
            err = p.communicate()[1]
            if p.returncode != 0:
                raise Violation('new meanings in another process: exit %r' % (p.returncode,), err[-1500:])
        for name in os.listdir(d):
            with open(os.path.join(d, name)) as f:
                got.append(f.read().split())
        if len(got) != 3 * k + 3 or any(len(g) != n for g in got):
            raise HarnessError('new meanings are missing: %r' % ([len(g) for g in got],))
    seen = {}
    for i, g in enumerate(got):
        for m in g:
            if m in seen:
                raise Violation('new meaning %r is given twice (by %s)' % (
                    m, 'one process or thread' if seen[m] == i else 'two processes or threads'))
            seen[m] = i
    obs.count('meanings', len(seen))
    obs.count('makers', len(got))
    obs.seen((n, k, params['i']))


@S01.kind('threads', 8, 200, 'edges written and read back by several threads')
def s01_threads(rng, obs, params):
    import gb.hypergraph.edge as ed
    jobs = []
    for _ in range(rng.choice([2, 3, 4])):
        pool = wild_pool(rng)
        edges = [deep_edge(rng, pool, rng.randint(1, 5)) for _ in range(10)]
        jobs.append([(e, ed.edge2str(e)) for e in edges])
        obs.seen(edges)
    def work(job):
        def f(obs):
            for e, s in job * 2:
                if ed.edge2str(e) != s:
                    raise Violation('%r is written differently while other threads read and write' % (e,))
                back = ed.str2edge(s)
                if not is_deep_tuple(back) or not same(back, e):
                    raise Violation('%r is read back as %r while other threads read and write' % (e, back), s)
                obs.count('read_in_threads')
        return f
    together(obs, [work(j) for j in jobs], rng, rng.choice([0.02, 0.2]))
    obs.sample = jobs[0][0]
