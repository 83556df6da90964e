"""H24: the same history gives the same answers in every process."""

import ast
import os
import subprocess
import sys
import gbmon.gen as gen
import gbmon.hist as hist
from gbmon.core import VERIF, Check, HarnessError, Violation, register, scratch
from gbmon.model import Model

H24 = register(Check(
    'H24', 'The same history of a hypergraph (operations, batches, beliefs, corpora), the same questions, texts and '
    'sentences are given to processes that differ in their hash seed, optimization level, locale, time zone, working '
    'directory, garbage collection, depth of the stack, thread, and in what they did before; each one also reads what '
    'the others have written. All the answers have to be the same. distinct_nontrivial counts distinct (history, '
    'environment) pairs.',
    assumptions=['one version of Python, SQLite and the operating system: others are not in the sandbox'],
    need=['processes', 'answers_compared', 'databases_read_elsewhere', 'hash_seeds', 'optimized', 'locales', 'directories',
          'threads', 'used_before', 'sentences_compared']))


def environment(rng, obs):
    """(options of Python, variables, extras of the job)"""
    opts, env, job = [], {}, {}
    env['PYTHONHASHSEED'] = str(rng.randint(0, 2 ** 32 - 1))
    obs.count('hash_seeds')
    r = rng.random()
    if r < 0.3:
        opts.append(rng.choice(['-O', '-OO']))
        obs.count('optimized')
    if rng.random() < 0.4:
        env['LC_ALL'] = rng.choice(['C', 'POSIX', 'C.utf8', 'tr_TR.UTF-8', ''])
        env['LANG'] = env['LC_ALL']
        if rng.random() < 0.5:
            # the encoding of the locale is taken, whatever it is
            env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        obs.count('locales')
    if rng.random() < 0.3:
        env['TZ'] = rng.choice(['UTC', 'Asia/Kathmandu', 'America/St_Johns'])
    if rng.random() < 0.2:
        opts += ['-X', 'dev', '-W', 'ignore']
    if rng.random() < 0.1:
        job['gc'] = True
    if rng.random() < 0.2:
        job['depth'] = rng.choice([10, 200, 400])
    if rng.random() < 0.2:
        job['thread'] = True
        obs.count('threads')
    return opts, env, job


def worker(d, job, opts=(), env=None, cwd=None):
    full = dict((k, v) for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON', 'TZ')))
    full.update(env or {'PYTHONHASHSEED': '0'})
    p = subprocess.run([sys.executable, '-B'] + list(opts) + [os.path.join(VERIF, 'gbmon', 'worker.py')],
                       input=ascii(job).encode('ascii'), env=full, cwd=cwd or d, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300)
    try:
        how, res = ast.literal_eval(p.stdout.decode('ascii'))
    except (ValueError, SyntaxError):
        raise HarnessError('the worker ends with %r: %s' % (p.returncode, p.stderr[-2000:]))
    if how == 'product':
        raise Violation('an exception in a process with %r %r' % (opts, env), res)
    if how != 'ok':
        raise HarnessError(res)
    return res


def history(rng, edges, n):
    """Operations that leave the same whatever the order is in which sets are gone through."""
    m = Model()
    ops = []
    for _ in range(n):
        e = rng.choice(edges)
        r = rng.random()
        ts = rng.choice([-1, 0, 5, 1480000000])
        if r < 0.4:
            op = ('add', [[e], ts])
        elif r < 0.55:
            op = ('add', [[rng.choice(edges) for _ in range(rng.randint(1, 4))], ts])
        elif r < 0.7:
            op = ('remove', [[e]])
        elif r < 0.8:
            op = ('add_belief', [rng.choice(['mary/1', 'john/1', 7]), [e], ts])
        elif r < 0.9:
            op = ('remove_belief', [rng.choice(['mary/1', 'john/1', 7]), e])
        elif r < 0.95:
            pat = [None if rng.random() < 0.5 else x for x in e]
            matches = m.pattern2edges(pat)
            if len(set(matches)) < len(matches) or any(x in e for x in matches for e in matches):
                continue
            op = ('remove_by_pattern', [pat])
        else:
            op = ('batch_exec', [history(rng, edges, 2) for _ in range(2)])
            for part in op[1]:
                for name, args in part:
                    if name != 'batch_exec':
                        getattr(m, name)(*args)
            ops.append(op)
            continue
        getattr(m, op[0])(*op[1])
        ops.append(op)
    return ops


def questions(rng, pool, edges):
    qs = [('traversal', [])]
    vs = pool + edges
    for v in vs:
        qs += [('degree', [v]), ('timestamp', [v]), ('star', [v])]
    for e in edges:
        qs.append(('exists', [e]))
        qs.append(('sources', [e]))
        qs.append(('pattern2edges', [[None if rng.random() < 0.5 else x for x in e]]))
    for r in sorted(set(x.split('/')[0] for x in pool if isinstance(x, str))):
        if gen.valid_symbol(r):
            qs.append(('symbols_with_root', [r]))
    for _ in range(3):
        qs.append(('ego', [rng.choice(vs), rng.choice([1, 2, 3])]))
    return qs


def swapped(x, case):
    """The same with numbers of the other type, and perhaps symbols of the other case."""
    if isinstance(x, tuple):
        return tuple(swapped(i, case) for i in x)
    if isinstance(x, str):
        return x.swapcase() if case and gen.valid_symbol(x.swapcase()) else x
    if isinstance(x, float):
        return int(x) if x == int(x) else x
    return float(x) if abs(x) < 2 ** 53 else x


def compare(obs, what, first, other, how):
    for part in sorted(set(first) | set(other)):
        a, b = first.get(part), other.get(part)
        obs.count('answers_compared', len(a or ()))
        if a == b:
            continue
        for i, (x, y) in enumerate(zip(a or (), b or ())):
            if x != y:
                raise Violation('%s: %s %d of a process is %s, and with %r it is %s' % (what, part, i, ascii(x)[:600],
                                                                                  how, ascii(y)[:600]))
        raise Violation('%s: %s: %r, and with %r: %r' % (what, part, a, how, b))


@H24.kind('hypergraphs', 6, 120, 'histories in several processes')
def h24(rng, obs, params):
    pool, edges = gen.universe(rng, n_edges=rng.randint(3, 7), max_arity=4)
    if rng.random() < 0.3:
        i = rng.randrange(len(edges))
        edges[i] = edges[i][:3] + (rng.choice([7, 7.0, 1, 1.0, 2016]),)
    ops = history(rng, edges, rng.choice([8, 20]))
    qs = questions(rng, pool, edges)
    if len(edges) <= 5:
        small = [e[:3] for e in edges]
        if all(len(e) == len(s) for e, s in zip(edges, small)):
            for _ in range(2):
                qs.append(('intersect', [[rng.choice(pool) for _ in range(2)]]))
    texts = [x for x in pool if isinstance(x, str)] + ['Some \u65e5\u672c text', u'\u0130STANBUL I', 'a/b (c)', '',
                                                       'STRASSE \u00df']
    job = {'ops': ops, 'questions': qs, 'texts': texts, 'edges': edges}
    if rng.random() < 0.4:
        job['corpus'] = ['%d' % rng.randint(0, 10 ** 6) for _ in range(2)]
        obs.count('corpora')
    obs.log(job)
    with scratch() as d:
        os.mkdir(os.path.join(d, 'elsewhere'))
        first = worker(d, dict(job, db=os.path.join(d, 'first.db')))
        obs.count('processes')
        written = [os.path.join(d, 'first.db')]
        for i in range(4):
            opts, env, extra = environment(rng, obs)
            here = dict(job, **extra)
            if rng.random() < 0.4:
                case = rng.random() < 0.3
                like = edges if rng.random() < 0.3 else [swapped(e, case) for e in edges]
                here['before'] = history(rng, like, 15)
                obs.count('used_before')
            cwd = d
            # a path that starts at the working directory
            here['db'] = '%d.db' % i
            if rng.random() < 0.5:
                cwd = os.path.join(d, 'elsewhere')
                here['db'] = os.path.join('..', '%d.db' % i)
                obs.count('directories')
            if rng.random() < 0.3:
                # it goes there after it has started
                here['chdir'], cwd = cwd, '/'
            res = worker(d, here, opts, env, cwd)
            obs.count('processes')
            obs.seen((ascii(job), opts, sorted(env.items()), sorted(extra)))
            compare(obs, 'the same history', first, res, (opts, env, extra))
            # what another process has written is the same here
            path = rng.choice(written)
            got = worker(d, {'ops': [], 'questions': qs, 'db': path}, opts, env, cwd)
            obs.count('processes')
            obs.count('databases_read_elsewhere')
            compare(obs, 'the database of another process', {'answers': first['answers']}, got, (opts, env, extra))
            written.append(os.path.join(d, '%d.db' % i))
            if not os.path.exists(written[-1]):
                raise Violation('the database %r is not in the directory of the process' % (here['db'],), os.listdir(d))
    obs.sample = (ops[:4], len(qs))


@H24.kind('sentences', 1, 20, 'sentences read in several processes')
def h24_sentences(rng, obs, params):
    seeds = ['%d' % rng.randint(0, 10 ** 9) for _ in range(25)]
    with scratch() as d:
        first = worker(d, {'sentences': seeds})
        obs.count('processes')
        for _ in range(2):
            opts, env, extra = environment(rng, obs)
            extra.pop('gc', None)
            res = worker(d, dict(sentences=seeds, **extra), opts, env)
            obs.count('processes')
            for (s, _, _), (t, _, _) in zip(first['sentences'], res['sentences']):
                if s != t:
                    raise HarnessError('the sentences are not the same: %r, %r' % (s, t))
            compare(obs, 'the same sentences', first, res, (opts, env, extra))
            obs.count('sentences_compared', 4 * len(seeds))
            obs.seen((seeds, opts, sorted(env.items())))
    obs.sample = first['sentences'][0]
