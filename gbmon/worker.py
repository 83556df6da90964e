"""Does what it is told in a process of its own, and answers in a form that can be compared: used by H24.
The job comes in on the standard input, the answers go out on the standard output, both as Python literals."""

import ast
import os
import random
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import gbmon.core as core    # noqa: E402
import gbmon.gen as gen      # noqa: E402


def plain(x):
    """Comparable form: sets are sorted, numbers that are equal look alike."""
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted((plain(i) for i in x), key=repr))
    if isinstance(x, (list, tuple)):
        return tuple(plain(i) for i in x)
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def write(hg, ops):
    for name, args in ops:
        if name == 'batch_exec':
            hg.batch_exec([lambda h, part=part: write(h, part) for part in args])
        else:
            getattr(hg, name)(*args)


def ask(hg, questions):
    import gb.hypergraph.queries as queries
    res = []
    for name, args in questions:
        if name == 'traversal':
            got = set((repr(plain(v['vertex'])), v['degree']) for v in list(hg.f_all(dict)))
        elif name == 'intersect':
            got = set(queries.intersect(hg, *args))
        elif name == 'exists':
            got = bool(hg.exists(*args))
        else:
            got = getattr(hg, name)(*args)
        res.append(plain(got))
    return res


def strings(texts, edges):
    import gb.hypergraph.edge as ed
    import gb.hypergraph.symbol as sym
    res = []
    for t in texts:
        s = sym.str2symbol(t)
        res.append((s, sym.symbol2str(s), sym.hashed(t)))
        if gen.valid_symbol(t):
            res.append((sym.parts(t), sym.sym_type(t), sym.negative(t)))
    for e in edges:
        s = ed.edge2str(e)
        res.append((s, plain(ed.str2edge(s)), sym.hashed(s)))
    return [repr(r) for r in res]


def sentences(seeds):
    """What is extracted from the sentences of these seeds, together and each one."""
    from gbmon.checks.k_knowledge import small_sentence, extractor, text_for
    import gbmon.parses as parses
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        sents = [small_sentence(rng, 1, 10) for _ in range(4)]
        ex = extractor()
        got = ex.read_text(text_for(sents))
        res.append(([parses.show(s) for s in sents], [str(e) for e in got], list(ex.outputs)))
    return res


def corpus(hg, seeds):
    import gbmon.wordnets as wordnets
    import gb.readers.wordnet as reader
    for seed in seeds:
        wordnets.use(wordnets.random_wordnet(random.Random(seed), 3, 0.2))
        reader.read(hg)


def run(job):
    core.setup_imports()
    import gbmon.stubs
    gbmon.stubs.install()
    from gb.hypergraph.hypergraph import HyperGraph
    import gbmon.hist as hist
    res = {}
    if job.get('chdir'):
        os.chdir(job['chdir'])
    if job.get('before') is not None:
        # the process has done other things already
        other = hist.open_hg(':memory:')
        write(other, job['before'])
        ask(other, [(n, a) for n, a in job['questions'] if n != 'intersect'])
        hist.close_hg(other)
    if 'texts' in job:
        res['strings'] = strings(job['texts'], job['edges'])
    if 'db' in job:
        hg = HyperGraph({'backend': 'sqlite', 'db': job['db']})
        if job.get('corpus'):
            gbmon.stubs.install_corpus()
            corpus(hg, job['corpus'])
        write(hg, job['ops'])
        res['answers'] = ask(hg, job['questions'])
        hist.close_hg(hg)
    if 'sentences' in job:
        gbmon.stubs.install_language()
        res['sentences'] = sentences(job['sentences'])
    return res


def deep(n, f):
    return f() if n == 0 else deep(n - 1, f)


def main():
    # the bytes are the same whatever the locale is
    job = ast.literal_eval(sys.stdin.buffer.read().decode('ascii'))
    out = []

    def work():
        try:
            out.append(('ok', deep(job.get('depth', 0), lambda: run(job))))
        except Exception as e:
            import traceback
            whose = 'product' if core.product_exception(e, e.__traceback__) else 'harness'
            out.append((whose, traceback.format_exc()))

    if job.get('gc'):
        import gc
        gc.set_threshold(1)
    real = sys.stdout
    sys.stdout = sys.stderr
    if job.get('thread'):
        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    real.buffer.write(ascii(out[0]).encode('ascii'))
    real.flush()


if __name__ == '__main__':
    main()
